"""What decides each property: harness stages, bounds, level."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = {}
NOT_APPLICABLE = {
}

SEQ = "explicit enumeration of all operation sequences to a depth on the real code, in lock step with a reference model"
INP = "bounded exhaustive enumeration of model configurations executed on the real code, compared with a reference model"
SCH = "stateless model checking of the real threads under a controlled scheduler (all interleavings up to a preemption bound)"
TRUST = " Trusts: the reference model (harness/ref.hpp, brute force in double precision), g++ and AddressSanitizer. " \
        "Nothing is claimed outside the stated bounds."


def check(pid, what, quick, thorough, stages, technique, note, level="model_checking", assumptions=(), rule=None):
    CHECKS[pid] = dict(what=what, bounds=dict(quick=quick, thorough=thorough), stages=stages, level=level,
                       technique=technique, note=note + TRUST, assumptions=list(assumptions), rule=rule or what)


HIST = "every operation sequence up to the depth over the worlds of h_history (add factor, set/change/remove evidences, " \
       "sum/MAP/joint query, sample, set weights), executed on a real RandomField and on the reference model; the state " \
       "after every prefix is compared: "
FOREST = "; and (h_forest) every labelled forest with every orientation of its factors and every set of observed variables, " \
         "on Graph, RandomField and ConditionalRandomField, plus 5 forests of 6 variables with every set of observed variables, stars in which "\
         "one neighbour forbids what the others favour, 4 shapes with factors of every combination of 3 scales (1e-6, 1, 1e6), variables of up to "\
         "300 values, and 180 big forests of up to 150 variables"
STRUCT = "; and (h_struct) every graph of up to 5 variables with every set of observed variables of which every subset is " \
         "released again, inserted in 4 orders, under the ways the names can share buckets of the unordered containers and 7 " \
         "layouts of the addresses, plus graphs of up to 12 variables"
LONG = "; and (h_long) every pair of 13 operations repeated 300 times with a check each time, and every pair with a change alternated K times between two checks, K " \
       "up to 20 and around the powers of two up to 1024 (some: 65536)"
BULK = "; and (h_bulk) tunable models over 5 families of forests of up to %s variables, 5 ways to cluster the weights (up to one cluster of all), 2 orders of insertion, 2 of sizes, %s"
HB = ("depths: chain4 4, grow 4, cycle 4, star 3, mixed 4, tunable 4, tunegrow 5",
      "depths: chain4 5, grow 6, cycle 5, star 5, mixed 6, tunable 5, tunegrow 7")
for pid, cmp in (
        ("P04", "variables, hidden/observed split, evidences, factors, components and their tree/loopy label"),
        ("P06", "every marginal distribution"),
        ("P07", "every MAP value and the MAP of the hidden set"),
        ("P08", "joint distributions of all connected pairs and of the whole set, in both orders"),
        ("P14", "weights, clusters and every marginal distribution (tunable worlds only)")):
    fst = pid in ("P06", "P07", "P08")
    check(pid, HIST + cmp + (FOREST if fst else "") + (STRUCT if pid in ("P04", "P06") else "") +
          (BULK % (260, "through a fixed history of evidence and weight changes, queries in between") if pid in ("P04", "P14") else
           BULK % (130, "joints of groups of up to 9 variables (12 variables) or of neighbours") if pid == "P08" else "") + LONG, HB[0] + ("; forests of up to 4 variables" if fst else ""),
          HB[1] + ("; forests of up to 5 variables" if fst else ""),
          [dict(harness="h_history")] + ([dict(harness="h_forest")] if fst else []) +
          ([dict(harness="h_struct")] if pid in ("P04", "P06") else []) +
          ([dict(harness="h_bulk")] if pid in ("P04", "P08", "P14") else []) + [dict(harness="h_long")], SEQ + (" and " + INP if fst or pid == "P04" else ""),
          "Exhaustive over operation sequences of bounded length on a few small models" +
          (" and over small forests." if fst else "."))
check("P05", "every operation sequence up to the depth followed by every invalid request of a menu of 27; the request "
             "must be refused and contents, weights and answers must be those of the reference before and after a "
             "further valid change; 39 variables with names that differ little, used by name, and names nobody has", "depth 2", "depth 3", [dict(harness="h_history"), dict(harness="h_bulk")], SEQ,
      "Exhaustive over short histories times a menu of invalid requests.")

check("P01", "every variable of a menu of names and sizes; every group built from up to 3 of 7 variables (equal names, "
             "equal sizes, distinct instances, null included), followed by every addition / replacement and every second "
             "one; every pair of 42 names that differ little; groups of up to 33 variables with a name repeated at every pair of places; every domain with up to 4 variables of size up to 4 (and a few big ones) enumerated step by step",
      "lists of up to 3 out of 7 variables, 2 changes; domains up to 4^4", "lists of up to 3 out of 9 variables, 2 changes; "
      "domains up to 5^5", [dict(harness="h_group")], SEQ, "Exhaustive over short histories on small universes.")
check("P02", "every sequence of set / clear / copy (3 kinds) / refused request, from empty on 4 tiny domains, from "
             "every fill level in 3 orders on 20 domains, with 11 magnitudes (1e-30..1e30) and their pairs on 5 domains, and from a "
             "grid of fill levels (all those next to k/d of the domain, d<=16) on 7 domains of 256..336 combinations; the whole table, both iterations and the probabilities of the "
             "factor and of everything it was copied from are compared with a plain table",
      "from empty: 3 operations; from every fill level: 1 or 2", "from empty: 4 or 5 operations; from every fill level: 2 "
      "or 3", [dict(harness="h_factor")], SEQ, "Exhaustive over short histories from every storage state.")
check("P03", "every product of up to 3 factors over every ordered group of 3 or 4 variables (dense, sparse, exponential), "
             "every reordering, every correlation up to 4 variables of size 4, every weight change of a menu, every look up "
             "through every ordered bigger group and every substitution of variables, valid or not",
      "products: 2 factors on groups of 3, 3 factors on groups of 2; look up through 3 variables",
      "products: 3 factors on groups of 3; look up through 4 variables", [dict(harness="h_algebra")], INP,
      "Exhaustive over small factors.")
check("P09", "every graph with a cycle, three coupling strengths (weak to nearly deterministic and frustrated) and every set "
             "of observed variables, plus 8 bigger ones; the answer is tested to be a fixed point by the two conditions that "
             "define one (pairs consistent with singles, beliefs re-parametrise the product of factors) and against a double "
             "precision propagation where it converges; every insertion followed by a query with an evidence set and released at every step; all iteration limits of a menu; a recording strategy with every "
             "pattern of verdicts", "graphs of up to 4 variables", "graphs of up to 5 variables",
      [dict(harness="h_loopy")], INP, "Exhaustive over small loopy graphs.")
check("P15", "every model over a forest of up to 3 variables (every role of every factor: constant, exponential, tunable, "
             "sharing), every single sample, every pair of samples (2 variables) and bigger sets; and every sequence of "
             "weight change / query / evidence / insertion / gradient of 4 models, with train set iterators built again in "
             "the same storage; and 96 models over forests of 5 variables with bigger clusters; 3 models with variables of up to 300 values, 6 sets of weights (0 to 20) and sets of 1 to 1000 samples; compared with the definition computed by brute force" + BULK % (130, "with 1 to 20 samples") + LONG,
      "half of the models with 3 variables; sequences of 3", "all the models; sequences of 4",
      [dict(harness="h_grad"), dict(harness="h_bulk"), dict(harness="h_long")], INP + "; " + SEQ, "Exhaustive over small models and short histories.")
check("P16", "every conditional field over graphs of 2, 3 and 4 variables with every evidence set leaving a forest, built in "
             "4 ways, with every single sample, bigger sets, after weight changes and evidence changes; and 96 models over forests of 5 variables with every evidence set; 3 models with variables of up to 300 values, 6 sets of weights and sets of 1 to 300 samples; compared with the "
             "definition computed by brute force" + BULK % (130, "with one variable observed every 2, 3 or 11 and up to 5 samples"), "all fields over 2 variables; over 3 every graph, roles and evidence set, with orders of insertion and ways to build rotating; 1 out of 500 over 4",
      "all fields over 2 and 3 variables, 1 out of 24 over 4", [dict(harness="h_grad"), dict(harness="h_bulk")], INP,
      "Exhaustive over the small fields, a fixed subset of the bigger ones.")
check("P17", "8 models (one with a variable of 300 values, one with 7 observed), every evidence set leaving a forest, 4 ways to build the field; every assignment of values valid "
             "or not (one past the domain included), wrong lengths; every range of a menu of 12 for the train set, 1 and 2 "
             "threads", "all", "all", [dict(harness="h_grad")], INP, "Exhaustive over the values of the listed models.")
check("P20", "every collection of up to 4 samples out of 9 (empty and of different length included); 107 valid and 12 "
             "invalid fractions of sets of 12 sizes, iterated after the set is gone; every text file of up to 3 rows out of "
             "16 (separators, line endings, blank lines, invalid tokens, with and without final newline), bigger files, "
             "missing files; collections of up to 70000 samples and rows of up to 300 values", "4 samples, 3 rows", "5 samples, 4 rows", [dict(harness="h_trainset")], INP,
      "Exhaustive over small collections and files.")
check("P21", "every ordered pair of 13 models, RandomField and Graph on both sides, shallow and deep, caches warm or cold, "
             "evidences on either side, same or other instances of the variables; receiver and source compared with the "
             "reference right after, and after weight changes on either side, after the tables of the source are edited "
             "(deep) and after releasing the evidences; copy constructors; a conditional field made from every model with every evidence mask (shallow and deep, then changed on either side, copied, outliving its source); and every chain of two absorptions by one model, absorbed by a third" + BULK % (130, "absorbed (shallow, deep), copied, absorbed by a graph, with changes on either side"), "2 of the 4 cache states, a quarter of the chains", "all",
      [dict(harness="h_absorb"), dict(harness="h_bulk")], INP, "Exhaustive over the pairs of a menu of small models.")
check("P18", "every model over graphs of up to 3 variables with every role of every factor and evidences; every pair of 40 "
             "variable names (quotes, backslashes, control characters, unicode); every pair of 33 values (denormal to max) as "
             "table entries and weights; every subset of filled entries of 8 domains; correlations, empty model, conditional "
             "fields, twin tunable factors; exported and imported directly, through a file, twice, and into a Graph; models of 9 to 130 variables with clusters of any length, a variable of 300 values, names of up to 70000 characters",
      "part of the models with 2 and 3 edges", "all the models, domains up to 3x3",
      [dict(harness="h_json", defines=["EFG_JSON_IO=1"])], INP, "Exhaustive over small models and menus of names and values.")
check("P19", "every mutation (delete, duplicate, rename, replace by each of 48 values, add a field) of every node of 3 valid "
             "documents, pairs of mutations, every truncation and 6 corruptions of every character of a file; judged by an "
             "independent reader of the format: malformed ones must be refused, the others imported exactly",
      "single mutations; pairs with a small menu", "pairs with a menu of 7 values",
      [dict(harness="h_badjson", defines=["EFG_JSON_IO=1"])], INP, "Exhaustive over mutations of 3 documents.")
VS = dict(flavor="vsched", extra_sources=["vsched.cpp"], uninstrumented=["vsched.cpp"])
VSW = " The real library runs under harness/vsched.cpp: one thread at a time, every synchronisation operation is a choice " \
      "point, every execution in a child process; data races (vector clocks), use of released memory, deadlocks, threads " \
      "left running and crashes are violations of any execution; equivalent states (same partial order) are explored once"
SCN = " Sequentially consistent interleavings of synchronisation operations only; weaker behaviours appear as data races."
check("P11", "scenarios of the worker pool (sizes 1 to 4, up to 3 batches of up to 5 tasks, two concurrent callers, creation, "
             "destruction, size changes) under every interleaving; pools of up to 15 and batches of up to 1025 tasks under the default schedule;" + VSW,
      "no bound on preemptions for pools of 2 with up to 3 tasks and for creation/destruction; else 0 to 6 preemptions",
      "no bound for pools of 2 with up to 4 tasks in one or two batches; else 1 to 6", [dict(harness="h_pool", **VS)], SCH,
      "Exhaustive up to the stated number of preemptions." + SCN)
check("P10", "marginal, MAP, joint, random field gradient and conditional gradient requests and a history mixing thread counts "
             "on 8 models (trees, loops, components, evidences) with 2 and 3 threads under every interleaving, compared with "
             "the single threaded answers; and every graph of up to 4 variables with 2, 3, 5 and 9 threads under the default "
             "schedule; and the loopy nets of P09 with the sets of observed variables and 2 to 11 threads "
             "(default schedule), whose completed answers must be a fixed point;" + VSW, "2 preemptions on the pair and the chain, 1 elsewhere (3 threads: 1 deviation)",
      "3 and 2 preemptions, graphs of up to 5 variables", [dict(harness="h_mt", **VS)], SCH,
      "Exhaustive up to the stated number of preemptions." + SCN)
check("P12", "seeded sampling on 8 models with 2 and 3 threads under every interleaving, before and after queries: samples well "
             "formed, one single outcome over all the interleavings and repetitions, later answers unchanged; and every "
             "combination of 5 thread counts, 3 sizes and 4 options under the default schedule; models with variables of up to 300 values and chains of up to 70 variables;" + VSW,
      "1 preemption (3 threads: 1 deviation)", "2 preemptions", [dict(harness="h_mt", **VS)], SCH,
      "Exhaustive up to the stated number of preemptions." + SCN)
check("P22", "every request (9 kinds) on 3 models with 2 to 5 threads, with every single thread creation refused, alone or with "
             "all the following ones, on a fresh model or after a request served with all the threads; under every "
             "interleaving: an exception, no thread left, same contents, right answers afterwards;" + VSW,
      "2 preemptions up to 3 threads, 1 above", "3 and 2 preemptions", [dict(harness="h_mt", **VS)],
      "exhaustive injection of thread creation faults, under " + SCH, "Exhaustive over the injected fault." + SCN,
      level="fault_enumeration",
      rule="one case per request, thread count and refused creation; each explored over all interleavings up to the bound")
check("P27", "two threads of the user, each asking one of 16 requests of its own model while the other does: all the pairs of requests "
             "on 3 models, with the two models sharing nothing, the variables, the training set and the model they are copied from, or all "
             "the factors, under every interleaving; both must get the answers they get alone;" + VSW,
      "1 preemption (0 and 1 deviation where each request has its own pool), a third and a ninth of the pairs on the second and third model",
      "2 preemptions (1 with pools), all the pairs", [dict(harness="h_sep", defines=["EFG_JSON_IO=1"], **VS)], SCH,
      "Exhaustive over the pairs of requests and up to the stated number of preemptions." + SCN)
check("P13", "the random engine of the real sampler is replaced by an enumerated one: on 40 models (one to three hidden variables, "
             "sparse, exponential, tunable, observed neighbours) every transition out of every reached state, with the answer of "
             "each draw running over a grid and the other ones fixed in every combination of 3, must have the frequencies of the "
             "full conditional under one single update order; extreme answers never give impossible values; every transient "
             "0..5, thinning 1..4 and size 0..4; streams of up to 6 threads for 9 seeds; variables of up to 300 values",
      "grid of 96 answers (32 with threads), up to 8 start states", "grid of 512 answers, all start states, 4 hidden variables",
      [dict(harness="h_kernel", flavor="plain", force_include=["rng_shim.hpp"])],
      "exhaustive enumeration of the answers of the random engine driving the real sampler",
      "Exhaustive over a grid of answers of the random engine on small models; frequencies are compared up to the grid step.")
check("P24", "train_model, compiled against a stand-in of the optimiser interface, with every optimiser that plays a script over "
             "{read, gradient, set two points, gradient step, go back, throw} on 2 fields and 2 conditional fields with 1, 2 and 3 "
             "threads: every parameter and gradient seen by the optimiser and the weights and marginals left in the model are "
             "those of the reference; parts of the set with every sequence of answers of rand()",
      "scripts of 4 requests (3 and 2 with 2 and 3 threads); 4 samples, parts of 1, 2 and 3", "scripts of 6 requests; all random answers",
      [dict(harness="h_train", defines=["EFG_LEARNING_ENABLED"], include=["/usr/include/eigen3", os.path.join(HERE, "harness", "stub")])],
      "exhaustive enumeration of the scripts of an optimiser driving the real adapter",
      "Exhaustive over short optimisers on small models. The optimiser library itself is absent: its interface is a stand-in.")
check("P23", "the models, values, tables and names of P18, exported to xml files and imported again, with the real exporter and "
             "importer compiled against a stand-in of the xml library",
      "graphs of up to 3 variables, half of the role combinations", "all role combinations",
      [dict(harness="h_xml", defines=["EFG_XML_IO"], include=[os.path.join(HERE, "harness", "stub")])], INP,
      "Exhaustive over small models. The xml library itself is absent: tags, printing and parsing are a stand-in.")
check("P25", "every text file of up to 3 rows out of 12 to 18 (readable, blank, of wrong length, outside the domain, negative, not "
             "numeric; all separators and line endings, with and without final newline) read into factors of 1, 2 and 3 variables, "
             "empty or holding values; files with every subset of the domain; missing files",
      "3 rows", "4 rows", [dict(harness="h_values")], INP, "Exhaustive over small files.")
check("P26", "every request (marginal, MAP, joint, samples, gradient of a random field) on 11 models (trees, parts, loops, tunable, with "
             "evidences) after every history of a menu, with every single memory allocation of the request refused, alone or "
             "with all the following ones, on fresh models and on one same model; a propagation strategy that throws at every "
             "consultation between requests of every kind: contents as before, right answers afterwards",
      "up to 6 histories", "up to 9 histories", [dict(harness="h_fault")], "exhaustive injection of allocation faults and of a throwing strategy in the real code",
      "Exhaustive over the injected fault.", level="fault_enumeration",
      rule="one case per model, history and request; every allocation of the request is refused in turn")
