// Harness API of the symbolic executor.  The same harness is compiled natively
// (rt/symx_native.cc) to replay counterexamples against the real code.
#ifndef SYMX_H_
#define SYMX_H_
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
extern "C" {
uint64_t symx_u64(const char* name);
uint32_t symx_u32(const char* name);
uint16_t symx_u16(const char* name);
uint8_t symx_u8(const char* name);
double symx_f64(const char* name);
float symx_f32(const char* name);
int64_t symx_range(const char* name, int64_t lo, int64_t hi);  // inclusive
uint64_t symx_concretize(uint64_t v);
int symx_is_symbolic(uint64_t v);
int64_t symx_param(const char* name, int64_t dflt);
int symx_native(void);
int symx_is_real_mode(void);
void symx_assume_impl(bool c);
void symx_assert_impl(bool c, const char* label);
void symx_reach(const char* label);
void symx_event(const char* what, ...);
void symx_debug(const char* what, ...);
[[noreturn]] void symx_fatal(const char* what);
[[noreturn]] void symx_skip(void);
[[noreturn]] void symx_unsupported(const char* what);
int symx_try_impl(void (*f)(void*), void* p);
void symx_yield(void);
void symx_settle(void);
int symx_others_enabled(void);
int symx_num_blocked(void);
uint64_t symx_heap_bytes(void);  // bytes currently allocated
int symx_thread_id(void);
extern long symx_clock_fixed;  // not 0: what the system clock always shows
extern long symx_prev_clock;  // and the time before
extern long symx_last_clock;  // nanoseconds the system clock last showed the main thread
double symx_diff_value(double y, double x);
void symx_real_eq_impl(double a, double b, const char* label, double tol);
}
static inline void symx_assume(bool c) { symx_assume_impl(c); }
#define SYMX_ASSERT(c, label) symx_assert_impl(static_cast<bool>(c), label)
// 0: f returned; 1: f aborted (a failed CHECK); 2: f threw
template <class F>
int symx_try(F&& f) {
  typedef typename std::remove_reference<F>::type T;
  struct C { static void call(void* p) { (*static_cast<T*>(p))(); } };
  return symx_try_impl(&C::call, const_cast<void*>(static_cast<const void*>(&f)));
}
static inline int64_t symx_i64(const char* n) { return static_cast<int64_t>(symx_u64(n)); }
static inline int32_t symx_i32(const char* n) { return static_cast<int32_t>(symx_u32(n)); }
static inline bool symx_bool(const char* n) { return symx_range(n, 0, 1) != 0; }
// a small integer whose value is fixed per path
static inline int64_t symx_choose(const char* n, int64_t lo, int64_t hi) {
  return static_cast<int64_t>(symx_concretize(static_cast<uint64_t>(symx_range(n, lo, hi))));
}
static inline void symx_bytes(void* p, size_t n, const char* name) {
  for (size_t i = 0; i < n; i++) static_cast<uint8_t*>(p)[i] = symx_u8(name);
}
extern "C" void symx_main(void);
#endif
