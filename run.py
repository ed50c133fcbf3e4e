#!/usr/bin/env python3
"""Driver of all checks.

  run.py <property> <quick|thorough>     decide one property on /repo's working tree
  run.py --replay <file>                 re-execute a recorded counterexample

Exit 0: the property held on everything explored. Exit 1 (with a VIOLATION line): it is broken.
Exit 2: the check itself could not run (e.g. /repo does not compile).
"""
import array
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
HARD_LIMIT = {"quick": 780, "thorough": 4 * 3600}
STALL = {"quick": 120, "thorough": 240}

FLAVORS = {
    # address sanitizer: memory errors inside the library fail loudly
    "asan": (["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "plain": (["-O2"], []),
    # ThreadSanitizer instrumentation only; the runtime is harness/vsched.cpp
    "vsched": (["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-inline-small-functions"], ["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
}
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                        "malloc_context_size=8:quarantine_size_mb=16:detect_stack_use_after_return=0")


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def repo_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src", "src")):
        out += [os.path.join(root, f) for f in files if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


_headers_digest = None


def headers_digest():
    global _headers_digest
    if _headers_digest is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "src"), os.path.join(HERE, "harness")):
            for root, dirs, files in os.walk(base):
                dirs.sort()
                for f in sorted(files):
                    if not f.endswith((".cpp", ".cc", ".cxx")):
                        h.update(os.path.join(root, f).encode() + b"\0" + open(os.path.join(root, f), "rb").read())
        _headers_digest = h.hexdigest()
    return _headers_digest


def compile_one(cmd, obj):
    cache = os.environ.get("VERIF_DEVCACHE")  # development only, never set by registered commands
    key = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        norm = [c for c in cmd if c != obj]
        src = b"".join(open(c, "rb").read() for c in norm if c.endswith((".cpp", ".cc", ".cxx")))
        key = os.path.join(cache, hashlib.sha256((headers_digest() + "\0".join(norm)).encode() + src).hexdigest())
        if os.path.exists(key):
            shutil.copy(key, obj)
            return None
    r = sh(cmd)
    if r.returncode != 0:
        return " ".join(cmd) + "\n" + r.stdout[-4000:]
    if key:
        shutil.copy(obj, key)
    return None


def build(work, stages):
    """Compile /repo once per (flavor, defines) and each harness; returns {stage index: executable}."""
    jobs, links, exes = [], [], {}
    libs = {}
    for i, st in enumerate(stages):
        flavor = st.get("flavor", "asan")
        cflags, lflags = FLAVORS[flavor]
        defs = ["-D" + d for d in st.get("defines", [])]
        incs = ["-I" + os.path.join(REPO, "src", "header"), "-I" + os.path.join(REPO, "src", "src"),
                "-I" + os.path.join(HERE, "harness")] + ["-I" + x for x in st.get("include", [])]
        pre = []
        for f in st.get("force_include", []):
            pre += ["-include", os.path.join(HERE, "harness", f)]
        base = ["g++", "-std=c++17", "-w"] + cflags + defs + incs
        lib_key = json.dumps([flavor, st.get("defines", []), st.get("include", []), st.get("force_include", [])])
        if lib_key not in libs:
            d = os.path.join(work, "lib%d" % len(libs))
            os.makedirs(d)
            objs = []
            for k, s in enumerate(repo_sources()):
                o = os.path.join(d, "%d_%s.o" % (k, os.path.basename(s)))
                objs.append(o)
                jobs.append((base + pre + ["-c", s, "-o", o], o))
            libs[lib_key] = objs
        hobjs = []
        for h in [st["harness"] + ".cpp"] + st.get("extra_sources", []):
            fl = base
            if h in st.get("uninstrumented", []):
                fl = ["g++", "-std=c++17", "-w", "-O2"] + incs
            o = os.path.join(work, "h%d_%s.o" % (i, h))
            p = ([] if h in st.get("uninstrumented", []) else pre)
            jobs.append((fl + p + ["-c", os.path.join(HERE, "harness", h), "-o", o], o))
            hobjs.append(o)
        exe = os.path.join(work, "exe%d" % i)
        exes[i] = exe
        links.append((["g++"] + lflags + ["-o", exe] + hobjs + libs[lib_key] + ["-lpthread", "-ldl"], exe))
    # longest first: harnesses
    jobs.sort(key=lambda j: 0 if "/harness/" in j[0][-3] else 1)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for err in ex.map(lambda j: compile_one(*j), jobs):
            if err:
                raise CheckError("compilation failed:\n" + err)
        for r in ex.map(lambda l: sh(l[0]), links):
            if r.returncode != 0:
                raise CheckError("link failed:\n" + r.stdout[-4000:])
    return exes


def read_status(path):
    try:
        b = open(path, "rb").read(16 + (1 << 14))
        seq, idx = struct.unpack("<QQ", b[:16])
        return seq, idx, b[16:].split(b"\0", 1)[0].decode(errors="replace")
    except Exception:
        return 0, 0, ""


class Shard:
    def __init__(self, exe, args, work, tag, stall, preload=()):
        self.tag, self.stall = tag, stall
        self.out = os.path.join(work, tag + ".json")
        self.status = os.path.join(work, tag + ".status")
        self.log = os.path.join(work, tag + ".log")
        self.scratch = os.path.join(work, tag + ".scratch")
        os.makedirs(self.scratch, exist_ok=True)
        cmd = [exe] + args + ["--out", self.out, "--status", self.status, "--scratch", self.scratch]
        self.p = subprocess.Popen(cmd, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, env=ENV,
                                  cwd=self.scratch, start_new_session=True)
        self.last = (None, time.time())
        self.hang = False

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            return rc
        cur = read_status(self.status)[0]
        now = time.time()
        if cur != self.last[0]:
            self.last = (cur, now)
        elif now - self.last[1] > self.stall:
            self.hang = True
            self.kill()
            return self.p.wait()
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def tail(self):
        try:
            return open(self.log, errors="replace").read()[:3000]
        except OSError:
            return ""


def run_shards(specs, limit, stall):
    """specs: list of (exe, args, work, tag). Runs at most NPROC at a time."""
    t0 = time.time()
    todo, live, done = list(specs), [], []
    capped = False
    while todo or live:
        while todo and len(live) < NPROC:
            live.append(Shard(*todo.pop(0), stall))
        time.sleep(0.05)
        still = []
        for s in live:
            if s.poll() is None:
                still.append(s)
            else:
                done.append(s)
        live = still
        if time.time() - t0 > limit:
            capped = True
            for s in live:
                s.kill()
                s.p.wait()
            done += [s for s in live]
            for s in live:
                s.killed = True
            break
    return done, capped


def load_known():
    path = os.path.join(HERE, "known-findings.txt")
    known = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) case=<(.*?)> :: (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def stage_args(prop, tier, st):
    a = ["--prop", prop, "--tier", tier]
    for k, v in st.get("args", {}).items():
        a += ["--" + k, str(v)]
    return a


def decide(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    stages = [s for s in spec["stages"] if tier in s.get("tiers", ("quick", "thorough"))]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="efgv-%s-" % prop)
    try:
        exes = build(work, stages)
        t_build = time.time() - t0
        specs = []
        for i, st in enumerate(stages):
            n = st.get("shards", NPROC)
            for k in range(n):
                args = stage_args(prop, tier, st) + ["--shard", str(k), "--nshards", str(n)]
                specs.append((exes[i], args, work, "s%d_%d" % (i, k)))
        done, capped = run_shards(specs, HARD_LIMIT[tier] - (time.time() - t0), STALL[tier])
        tot = dict(cases=0, transitions=0, traces=0, comparisons=0, skipped=0, enumerated=0)
        sets = dict(states={}, outcomes={})
        extra, samples, viol = {}, [], []
        per_stage_enum = {}
        for s in done:
            i, k = map(int, s.tag[1:].split("_"))
            res = None
            if os.path.exists(s.out):
                try:
                    res = json.load(open(s.out))
                except Exception:
                    res = None
            if res is not None:
                for key in tot:
                    if key != "enumerated":
                        tot[key] += res[key]
                for name, d in sets.items():
                    a = array.array("Q")
                    with open(s.out + "." + name, "rb") as f:
                        a.frombytes(f.read())
                    d.setdefault(i, set()).update(a)
                per_stage_enum[i] = max(per_stage_enum.get(i, 0), res["enumerated"])
                for a, b in res["extra"].items():
                    key = a if len(stages) == 1 else "%s.%s" % (stages[i]["harness"], a)
                    extra[key] = max(extra.get(key, 0), b) if a.startswith(("sequences_", "max_", "bound_")) \
                        else extra.get(key, 0) + b
                if len(samples) < 6:
                    samples += res["samples"][:1]
                for v in res["violations"]:
                    viol.append(dict(stage=i, index=v["index"], case=v["case"], msg=v["msg"], kind="mismatch"))
            elif getattr(s, "killed", False):
                pass
            else:
                seq, idx, what = read_status(s.status)
                kind = "hang" if s.hang else "crash"
                viol.append(dict(stage=i, index=idx, case=what, kind=kind,
                                 msg="%s (exit status %s): %s" % (kind, s.p.returncode, s.tail()),
                                 started=seq))
        tot["enumerated"] = sum(per_stage_enum.values())
        for name, d in sets.items():
            tot[name] = sum(len(x) for x in d.values())
        # confirm by replaying the single case in a fresh process
        confirmed, errors = [], []
        viol.sort(key=lambda v: (v["stage"], v["index"]))
        for v in viol[:6]:
            if v.get("started", 1) == 0:
                errors.append(v)
                continue
            if confirmed and (time.time() - t0 > HARD_LIMIT[tier] - 150 or v["kind"] == "hang"):
                break  # one confirmed counterexample is enough
            ok, out = replay_case(exes[v["stage"]], prop, tier, stages[v["stage"]], v["index"], work,
                                  STALL[tier] * 1.25)
            v["replayed"] = ok
            v["replay_output"] = out[:2000]
            if v["kind"] == "hang" and not ok:
                continue  # slow machine, not a hang
            confirmed.append(v)
        known = load_known()
        unlisted, listed = [], []
        for v in confirmed:
            hit = [k for k in known if k[0] == prop and k[1] == v["case"]]
            (listed if hit else unlisted).append((v, hit))
        for v, hit in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
        wall = time.time() - t0
        level = spec["level"]
        cov = {}
        if level == "model_checking":
            cov.update(states=tot["states"], transitions=tot["transitions"],
                       traces_validated_against_impl=tot["traces"])
        else:
            cov.update(evaluations=tot["cases"], distinct_nontrivial=tot["cases"] - tot["skipped"],
                       rule=spec.get("rule", spec["what"]))
        cov.update(samples=samples or ["none"], comparisons=tot["comparisons"], distinct_outcomes_observed=tot["outcomes"],
                   not_compared=tot["skipped"], bounds=spec["bounds"][tier], what=spec["what"],
                   detail=extra, exhaustive=bool(not capped and not viol and tot["cases"] == tot["enumerated"]),
                   build_s=round(t_build, 1))
        if level != "model_checking":
            cov.update(states=tot["states"], transitions=tot["transitions"])
        if tot["cases"] != tot["enumerated"]:
            cov["cases_not_reached"] = tot["enumerated"] - tot["cases"]
        if capped:
            cov["capped"] = "time limit hit; only the cases counted above were explored"
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(wall, 1), violations=len(unlisted))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases (%d states, %d transitions, %d traces, %d comparisons, %d distinct outcomes) "
              "in %.1fs (build %.1fs)%s" % (prop, tier, tot["cases"], tot["states"], tot["transitions"],
                                           tot["traces"], tot["comparisons"], tot["outcomes"], wall, t_build,
                                           " CAPPED" if capped else ""))
        if unlisted:
            rp = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
            with open(rp, "w") as f:
                json.dump(dict(property=prop, tier=tier, counterexamples=[
                    dict(stage=v["stage"], harness=stages[v["stage"]]["harness"], index=v["index"], case=v["case"],
                         kind=v["kind"], message=v["msg"], replayed_in_isolation=v["replayed"],
                         replay_output=v["replay_output"]) for v, _ in unlisted],
                    how="python3 run.py --replay " + rp), f, indent=1)
            for v, _ in unlisted[:3]:
                print("  %s: case <%s>: %s" % (v["kind"], v["case"], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if errors:
            print("check error: harness died before the first case\n" + errors[0]["msg"])
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay_case(exe, prop, tier, st, index, work, stall):
    args = stage_args(prop, tier, st) + ["--only", str(index)]
    s = Shard(exe, args, work, "replay_%d_%d" % (index, int(time.time() * 1000) % 100000), stall)
    while s.poll() is None:
        time.sleep(0.02)
    if s.hang:
        return True, "hang"
    if os.path.exists(s.out):
        try:
            res = json.load(open(s.out))
            if res["violations"]:
                return True, res["violations"][0]["msg"]
            return False, "no violation when executed alone"
        except Exception:
            pass
    return True, "exit status %s: %s" % (s.p.returncode, s.tail())


def replay(path):
    rec = json.load(open(path))
    prop, tier = rec["property"], rec["tier"]
    stages = [s for s in CHECKS[prop]["stages"] if tier in s.get("tiers", ("quick", "thorough"))]
    work = tempfile.mkdtemp(prefix="efgv-replay-")
    rc = 0
    try:
        exes = build(work, stages)
        for c in rec["counterexamples"]:
            ok, out = replay_case(exes[c["stage"]], prop, tier, stages[c["stage"]], c["index"], work, 180)
            print("case <%s>: %s\n%s" % (c["case"], "VIOLATED" if ok else "holds", out))
            rc |= ok
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return int(rc)


def main():
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return decide(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except CheckError as e:
        print("check error:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
