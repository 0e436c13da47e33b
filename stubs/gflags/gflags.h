#ifndef SYMX_GFLAGS_STUB_
#define SYMX_GFLAGS_STUB_
#include <cstdint>
#include <string>
#define DEFINE_bool(n, v, d) bool FLAGS_##n = v
#define DEFINE_int32(n, v, d) int32_t FLAGS_##n = v
#define DEFINE_int64(n, v, d) int64_t FLAGS_##n = v
#define DEFINE_uint64(n, v, d) uint64_t FLAGS_##n = v
#define DEFINE_double(n, v, d) double FLAGS_##n = v
#define DEFINE_string(n, v, d) std::string FLAGS_##n = v
#define DECLARE_bool(n) extern bool FLAGS_##n
#define DECLARE_int32(n) extern int32_t FLAGS_##n
#define DECLARE_int64(n) extern int64_t FLAGS_##n
#define DECLARE_uint64(n) extern uint64_t FLAGS_##n
#define DECLARE_double(n) extern double FLAGS_##n
#define DECLARE_string(n) extern std::string FLAGS_##n
namespace google { inline uint32_t ParseCommandLineFlags(int*, char***, bool) { return 0; } }
namespace gflags = google;
#endif
