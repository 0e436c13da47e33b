// Solver-side stand-in for output streams passed by reference and for files:
// what is written to a file is kept in symx_file_text().
#ifndef SYMX_STREAMS_H_
#define SYMX_STREAMS_H_
#define SYMX_STREAM_NUMBERS 1
#include <iostream>
#include <fstream>
#include <ostream>
#include <sstream>
#include <string>
#include <cstdio>
#include <cstring>
namespace std {
inline string& symx_file_text() { static string s; return s; }
struct symx_ofstream : symx_sstream {
  explicit symx_ofstream(const string&) {}
  ~symx_ofstream() { symx_file_text() = str(); }
  bool operator!() const { return false; }
};
}
inline int symx_snprintf(char* b, size_t n, const char*, ...) { if (n > 1) std::strcpy(b, "#"); return 1; }
#define snprintf symx_snprintf
#define ostream symx_sstream
#define ofstream symx_ofstream
#endif
