// Native side of the harness API: replays one counterexample file
// (environment variable SYMX_CEX).
#include "symx.h"
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
namespace {
size_t allocated() { return &__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
size_t g_own = 0;  // allocated by this file
struct Own { size_t before = allocated(); ~Own() { g_own += allocated() - before; } };
std::map<std::string, unsigned long long>& vals() { static std::map<std::string, unsigned long long> m; return m; }
std::map<std::string, long long>& params() { static std::map<std::string, long long> m; return m; }
std::map<std::string, int>& counts() { static std::map<std::string, int> m; return m; }
bool g_in_try = false;
std::string uniq(const char* n) { return std::string(n) + "#" + std::to_string(counts()[n]++); }
bool find(const std::string& k, unsigned long long* v) { auto i = vals().find(k); if (i == vals().end()) return false; *v = i->second; return true; }
unsigned long long get(const char* n) { Own o; unsigned long long v = 0; find(uniq(n), &v); return v; }
void load() {
  const char* f = getenv("SYMX_CEX"); if (!f) return;
  FILE* fp = fopen(f, "r"); if (!fp) return;
  char line[4096];
  while (fgets(line, sizeof line, fp)) {
    char a[4000], b[200];
    if (sscanf(line, "in %3999s %199s", a, b) == 2) vals()[a] = strtoull(b, nullptr, 16);
    else if (sscanf(line, "param %3999s %199s", a, b) == 2) params()[a] = strtoll(b, nullptr, 10);
  }
  fclose(fp);
}
void out(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
}  // namespace
extern "C" {
uint64_t symx_u64(const char* n) { return get(n); }
uint32_t symx_u32(const char* n) { return (uint32_t)get(n); }
uint16_t symx_u16(const char* n) { return (uint16_t)get(n); }
uint8_t symx_u8(const char* n) { return (uint8_t)get(n); }
double symx_f64(const char* n) { uint64_t b = get(n); double d; memcpy(&d, &b, 8); return d; }
float symx_f32(const char* n) { uint32_t b = (uint32_t)get(n); float d; memcpy(&d, &b, 4); return d; }
int64_t symx_range(const char* n, int64_t lo, int64_t hi) {
  Own o;
  std::string k = uniq(n); unsigned long long v;
  if (find(k + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]", &v)) return (int64_t)v;
  return lo;
}
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_symbolic(uint64_t) { return 0; }
int64_t symx_param(const char* n, int64_t d) { Own o; auto i = params().find(n); return i == params().end() ? d : i->second; }
int symx_native(void) { return 1; }
int symx_is_real_mode(void) { return (int)symx_param("symx_real", 0); }
void symx_assume_impl(bool c) { if (!c) { out("SYMX-ASSUME-FAILED\n"); _exit(3); } }
void symx_assert_impl(bool c, const char* label) {
  if (!c) { out("SYMX-VIOLATION assert "); out(label); out("\n"); _exit(77); }
}
void symx_reach(const char*) {}
void symx_event(const char*, ...) {}
void symx_debug(const char* w, ...) { (void)w; }
void symx_fatal(const char* what) { out("SYMX-FATAL "); out(what); out("\n"); abort(); }
void symx_skip(void) { _exit(0); }
void symx_unsupported(const char*) { _exit(0); }
int symx_try_impl(void (*f)(void*), void* p) {
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c == 0) {
    g_in_try = true;
    signal(SIGABRT, SIG_DFL);
    if (freopen("/dev/null", "w", stderr) == nullptr) _exit(5);
    try { f(p); } catch (...) { _exit(2); }
    _exit(0);
  }
  int stt = 0; waitpid(c, &stt, 0);
  if (WIFSIGNALED(stt)) {
    if (WTERMSIG(stt) == SIGABRT) return 1;
    out("SYMX-VIOLATION crash in child\n"); _exit(77);
  }
  int rc = WEXITSTATUS(stt);
  if (rc == 0) { f(p); return 0; }
  if (rc == 2) { try { f(p); } catch (...) { return 2; } return 0; }
  if (rc == 77 || rc == 99) { out("SYMX-VIOLATION in child\n"); _exit(rc); }
  _exit(rc);
}
__attribute__((weak)) void symx_yield(void) { usleep(rand() % 50); }
__attribute__((weak)) void symx_settle(void) { usleep(3000); }
__attribute__((weak)) int symx_others_enabled(void) { return 0; }
uint64_t symx_heap_bytes(void) { return allocated() - g_own; }
__attribute__((weak)) int symx_num_blocked(void) { return 0; }
__attribute__((weak)) int symx_thread_id(void) { return 0; }
double symx_diff_value(double, double) { return 0; }
void symx_real_eq_impl(double a, double b, const char* label, double tol) {
  double scale = 1.0 + std::fabs(a) + std::fabs(b);
  if (!(std::fabs(a - b) <= (tol < 1e-5 ? 1e-5 : tol) * scale)) { 
    char buf[200]; snprintf(buf, sizeof buf, "values %.17g %.17g\n", a, b); out(buf);
    symx_assert_impl(false, label); }
}
}
int main() {
  load();
  symx_main();
  out("SYMX-OK\n");
  return 0;
}
// The clocks show what the counterexample says.
bool g_symx_clock_still = false;
extern "C" { long symx_last_clock = 0, symx_clock_fixed = 0, symx_prev_clock = 0; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { symx_prev_clock = symx_last_clock; symx_last_clock = g_symx_clock_still ? 0L : symx_clock_fixed ? symx_clock_fixed : (long)symx_u64("clock"); return time_point(duration(symx_last_clock)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_symx_clock_still ? 0L : (long)symx_u64("clock"))); }
} } }
