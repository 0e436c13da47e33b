// Solver-side: the library's headers are compiled with its own streams (its
// functions stay outside and must not be reached).
#include <sstream>
#pragma push_macro("stringstream")
#pragma push_macro("ostringstream")
#pragma push_macro("istringstream")
#undef stringstream
#undef ostringstream
#undef istringstream
#include_next <yaml-cpp/yaml.h>
#pragma pop_macro("stringstream")
#pragma pop_macro("ostringstream")
#pragma pop_macro("istringstream")
