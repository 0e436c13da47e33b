// Solver-side stand-in for glog: a failed CHECK is a call the engine knows.
#ifndef SYMX_GLOG_STUB_
#define SYMX_GLOG_STUB_
#include <cmath>
#include <cstring>
#include <ostream>
#include <string>
#include <sstream>
#include <iostream>
extern "C" [[noreturn]] void symx_fatal(const char* what);
namespace symx_log {
struct Stream {
  template <class T> const Stream& operator<<(const T&) const { return *this; }
  const Stream& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
  const Stream& stream() const { return *this; }
};
struct Fatal {
  const char* w;
  explicit Fatal(const char* x) : w(x) {}
  [[noreturn]] ~Fatal() { symx_fatal(w); }
  template <class T> const Fatal& operator<<(const T&) const { return *this; }
  const Fatal& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
};
struct Void { void operator&(const Stream&) {} void operator&(const Fatal&) {} };
template <class T> T&& notNull(T&& t, const char* w) { if (t == nullptr) symx_fatal(w); return std::forward<T>(t); }
}
#define SYMX_STR2(x) #x
#define SYMX_STR(x) SYMX_STR2(x)
#define SYMX_NULLLOG true ? (void)0 : symx_log::Void() & symx_log::Stream()
#define CHECK(c) (__builtin_expect(!!(c), 1)) ? (void)0 : symx_log::Void() & symx_log::Fatal("CHECK(" #c ")")
#define SYMX_CHECK_OP(a, b, op, nm) ((a) op (b)) ? (void)0 : symx_log::Void() & symx_log::Fatal(nm "(" #a "," #b ")")
#define CHECK_EQ(a, b) SYMX_CHECK_OP(a, b, ==, "CHECK_EQ")
#define CHECK_NE(a, b) SYMX_CHECK_OP(a, b, !=, "CHECK_NE")
#define CHECK_LE(a, b) SYMX_CHECK_OP(a, b, <=, "CHECK_LE")
#define CHECK_LT(a, b) SYMX_CHECK_OP(a, b, <, "CHECK_LT")
#define CHECK_GE(a, b) SYMX_CHECK_OP(a, b, >=, "CHECK_GE")
#define CHECK_GT(a, b) SYMX_CHECK_OP(a, b, >, "CHECK_GT")
#define CHECK_NEAR(a, b, m) (std::abs((a) - (b)) <= (m)) ? (void)0 : symx_log::Void() & symx_log::Fatal("CHECK_NEAR(" #a "," #b ")")
#define CHECK_DOUBLE_EQ(a, b) CHECK_NEAR(a, b, 1e-12)
#define CHECK_STREQ(a, b) (std::strcmp(a, b) == 0) ? (void)0 : symx_log::Void() & symx_log::Fatal("CHECK_STREQ")
#define CHECK_NOTNULL(x) symx_log::notNull((x), "CHECK_NOTNULL(" #x ")")
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LE CHECK_LE
#define DCHECK_LT CHECK_LT
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT
#define DCHECK_NEAR CHECK_NEAR
#define DCHECK_NOTNULL CHECK_NOTNULL
#define SYMX_LOG_INFO symx_log::Stream()
#define SYMX_LOG_WARNING symx_log::Stream()
#define SYMX_LOG_ERROR symx_log::Stream()
#define SYMX_LOG_FATAL symx_log::Fatal("LOG(FATAL)")
#define LOG(s) SYMX_LOG_##s
#define DLOG(s) SYMX_NULLLOG
#define VLOG(n) SYMX_NULLLOG
#define DVLOG(n) SYMX_NULLLOG
#define VLOG_IS_ON(n) false
#define VLOG_IF(n, c) SYMX_NULLLOG
#define LOG_IF(s, c) !(c) ? (void)0 : symx_log::Void() & LOG(s)
#define LOG_FIRST_N(s, n) SYMX_LOG_##s
#define LOG_EVERY_N(s, n) SYMX_LOG_##s
#define LOG_IF_EVERY_N(s, c, n) LOG_IF(s, c)
namespace google { inline void InitGoogleLogging(const char*) {} inline void InstallFailureSignalHandler() {} }
#endif
