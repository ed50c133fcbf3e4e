#define VF_XML
#include "h_json.cpp"
