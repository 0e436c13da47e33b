// Solver-side models of the parts of libstdc++ that live in its shared library
// (compiled to bitcode and linked with the code under test).
#include <cstdlib>
#include <cctype>
#include <atomic>
#include <memory>
#include <sstream>
#include <tuple>
#define private public
#define protected public
#include <bits/std_thread.h>
#undef private
#undef protected
#include <bits/stl_tree.h>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <vector>
#include <pthread.h>
#include "symx.h"
extern "C" {
long symx_clock_fixed = 0; long symx_last_clock = 0; long symx_prev_clock = 0;  // what the main thread was last told
void* symx_current_exception(void);
[[noreturn]] void symx_rethrow(void*);
void symx_futex_wait(unsigned*, unsigned);
}
namespace std {
// ---- errors
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
extern "C" __attribute__((used)) void symx_throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_future_error(int) { throw logic_error("future_error"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { symx_fatal(c ? c : "libstdc++ assertion"); }
#define SYMX_EXC(T) \
  T::T(const char*) {} \
  T::~T() noexcept {}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "exception"; }
logic_error::logic_error(const char*) : _M_msg() {}
logic_error::logic_error(const string&) : _M_msg() {}
logic_error::logic_error(const logic_error&) noexcept : _M_msg() {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const char*) : _M_msg() {}
runtime_error::runtime_error(const string&) : _M_msg() {}
runtime_error::runtime_error(const runtime_error&) noexcept : _M_msg() {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const char*, size_t) { _M_p = nullptr; }
__cow_string::__cow_string(const __cow_string&) noexcept { _M_p = nullptr; }
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
#define SYMX_LE(T) T::T(const char* s) : logic_error(s) {} T::T(const string& s) : logic_error(s) {} T::~T() noexcept {}
#define SYMX_RE(T) T::T(const char* s) : runtime_error(s) {} T::T(const string& s) : runtime_error(s) {} T::~T() noexcept {}
SYMX_LE(domain_error) SYMX_LE(invalid_argument) SYMX_LE(length_error) SYMX_LE(out_of_range)
SYMX_RE(range_error) SYMX_RE(overflow_error) SYMX_RE(underflow_error)
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
const nothrow_t nothrow{};

// ---- node containers (binary search tree without rebalancing: the shape of
// the tree is not observable through the container interface)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& leftmost = h._M_left; _Rb_tree_node_base*& rightmost = h._M_right;
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y->_M_color = _S_black;
    y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// every hash container keeps one bucket: hashing only affects the order of
// iteration, which no caller may rely on
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return pair<bool, size_t>(false, 0); }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* c = static_cast<const unsigned char*>(p); size_t h = seed;
  for (size_t i = 0; i < n; i++) h = (h << 1) ^ c[i];
  return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ---- clocks: any value at any call
chrono::system_clock::time_point chrono::_V2::system_clock::now() noexcept { const long t = symx_clock_fixed ? symx_clock_fixed : (long)symx_u64("clock"); if (symx_thread_id() == 0) { symx_prev_clock = symx_last_clock; symx_last_clock = t; } return time_point(duration(t)); }
chrono::steady_clock::time_point chrono::_V2::steady_clock::now() noexcept {
  return time_point(duration((long)symx_u64("clock"))); }
// ---- threads
thread::_State::~_State() = default;
static void* symxThreadMain(void* p) {
  thread::_State* s = static_cast<thread::_State*>(p);
  s->_M_run();
  delete s;
  return nullptr;
}
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  unsigned long h = 0;
  pthread_create(&h, nullptr, &symxThreadMain, st.release());
  *reinterpret_cast<unsigned long*>(&_M_id) = h;
}
void thread::join() {
  if (!joinable()) throw runtime_error("join");
  pthread_join(*reinterpret_cast<unsigned long*>(&_M_id), nullptr);
  _M_id = id();
}
void thread::detach() { if (!joinable()) throw runtime_error("detach"); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { symx_futex_wait(a, v); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { symx_futex_wait(a, v); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
__thread void* __once_callable;
__thread void (*__once_call)();
void __once_proxy(void) { __once_call(); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }
static struct FutCat : error_category { const char* name() const noexcept { return "future"; } string message(int) const { return string(); } bool equivalent(int,const error_condition&) const noexcept { return false; } bool equivalent(const error_code&,int) const noexcept { return false; } error_condition default_error_condition(int i) const noexcept { return error_condition(i, *this); } } futCat;
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
bool error_category::equivalent(const error_code&, int) const noexcept { return false; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
const error_category& future_category() noexcept { return futCat; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {}
void exception_ptr::_M_addref() noexcept {}
void exception_ptr::_M_release() noexcept {}
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept { exception_ptr p; void* e = symx_current_exception(); memcpy(static_cast<void*>(&p), &e, sizeof e); return p; }
void rethrow_exception(exception_ptr p) { void* e; memcpy(&e, static_cast<void*>(&p), sizeof e); symx_rethrow(e); }
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
}  // namespace std
extern "C" int pthread_once(pthread_once_t* o, void (*f)(void)) {
  static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_mutex_lock(&m);
  int run = *o == 0; if (run) *o = 1;
  pthread_mutex_unlock(&m);
  if (run) f();
  return 0;
}
// ---- C library pieces with symbolic inputs
extern "C" {
int* __errno_location(void) { static __thread int e; return &e; }
static inline unsigned digitOf(int c) { unsigned a = (unsigned)c - '0', b = ((unsigned)c | 32u) - 'a'; unsigned r = 99; r = b < 26u ? b + 10 : r; r = a < 10u ? a : r; return r; }
static inline bool spaceCh(int c) { return (c == ' ') | ((unsigned)c - 9u < 5u); }
static unsigned long parseNum(const char* s, char** end, int base, bool* negOut, bool* ovfOut) {
  const char* p = s;
  while (spaceCh(*p)) p++;
  bool sign = (*p == '+') | (*p == '-'), neg = false;
  if (sign) { neg = *p == '-'; p++; }
  if (base == 16 || base == 0) {
    if (*p != 0) if ((*p == '0') & ((p[1] | 32) == 'x')) if (digitOf(p[2]) < 16) { p += 2; base = 16; }
  }
  if (base == 0) base = *p == '0' ? 8 : 10;
  const char* st = p; unsigned long v = 0; bool ovf = false;
  for (;;) {
    unsigned d = digitOf(*p);
    if (!(d < (unsigned)base)) break;
    if (p - st >= (base == 16 ? 16 : 10)) ovf |= v > (~0ul - d) / (unsigned long)base;
    v = v * base + d; p++;
  }
  if (end) *end = const_cast<char*>(p == st ? s : p);
  *negOut = neg; *ovfOut = ovf; return v;
}
unsigned long strtoul(const char* s, char** end, int base) {
  bool neg, ovf; unsigned long v = parseNum(s, end, base, &neg, &ovf);
  if (ovf) { *__errno_location() = 34; return ~0ul; }
  return neg ? -v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long strtol(const char* s, char** end, int base) {
  bool neg, ovf; unsigned long v = parseNum(s, end, base, &neg, &ovf);
  unsigned long lim = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
  if (ovf || v > lim) { *__errno_location() = 34; return neg ? (long)0x8000000000000000ul : 0x7fffffffffffffffl; }
  return neg ? (long)-v : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
int rand(void) { return (int)(symx_u32("rand") & 0x7fffffffu); }
void srand(unsigned) {}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return digitOf(c) < 16; }
int isalnum(int c) { return digitOf(c) < 36; }
int isalpha(int c) { return digitOf(c) >= 10 && digitOf(c) < 36; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
extern "C" { extern char __libc_single_threaded; char __libc_single_threaded = 0; }
