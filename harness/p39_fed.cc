// Fast explicit diffusion: primality, time steps and their order.
#include "symx.h"
#include <cmath>
#include <cstdint>
#include <vector>
#include "kaze/fed.h"
extern int fed_tau_internal(const int n, const float scale, const float tau_max, const bool reordering, std::vector<float>& tau);
extern bool fed_is_prime_internal(const int number);
namespace {
void prime() {
  const int n = symx_i32("n"), lo = (int)symx_param("lo", 0), hi = (int)symx_param("hi", 100);
  symx_assume((n >= lo) & (n <= hi));
  const bool is = fed_is_prime_internal(n);
  bool composite = n < 2;
  for (int d = 2; d * d <= hi; d++) composite = composite | ((n > d) & ((uint32_t)n % (uint32_t)d == 0));
  SYMX_ASSERT(is == !composite, "a number is reported prime exactly if it has no divisor other than one and itself");
  symx_reach("prime");
}
float positive(const char* n, float lo, float hi) { const float f = (float)symx_f64(n); symx_assume((f >= lo) & (f <= hi)); return f; }
// the steps as the scheme defines them, up to rounding
void steps() {
  const int n = (int)symx_param("n", 1);
  const float scale = positive("scale", 0.01f, 1), tmax = symx_param("order", 0) ? 0.25f : positive("tmax", 0.01f, 10);
  std::vector<float> a(2, 7.f), b;
  SYMX_ASSERT(fed_tau_internal(n, scale, tmax, false, a) == n && (int)a.size() == n, "as many steps as asked for");
  SYMX_ASSERT(fed_tau_internal(n, scale, tmax, true, b) == n && (int)b.size() == n, "as many steps as asked for");
  double sum = 0; const double d = (double)scale * (double)tmax, all = d * n * (n + 1) / 3;
  for (int k = 0; k < n; k++) {
    const double c = std::cos(M_PI * (2 * k + 1) / (4 * n + 2)), ref = d / (2 * c * c);
    SYMX_ASSERT(((double)a[k] >= ref * 0.9999) & ((double)a[k] <= ref * 1.0001), "the steps are those of the scheme");
    sum += (double)a[k];
  }
  SYMX_ASSERT((sum >= all * 0.9999) & (sum <= all * 1.0001), "the steps add up to the time of the cycle");
  symx_reach("steps");
  if (!symx_param("order", 0)) return;
  bool same = true, up = true;
  for (int k = 0; k < n; k++) {
    bool used = false;
    for (int i = 0; i < n; i++) used = used | (b[i] == a[k]);
    same = same & used;
    if (k) up = up & (a[k] > a[k - 1]);
  }
  SYMX_ASSERT(up, "without reordering the steps grow");
  SYMX_ASSERT(same, "reordering the steps uses every step exactly once");
  symx_reach("reordered");
}
void cycle() {
  const int max = (int)symx_param("max", 4);
  const bool order = symx_param("order", 0) != 0; const int cycles = (int)symx_param("cycles", 0);
  const float tmax = symx_param("unit", 0) ? 0.25f : positive("tmax", 0.01f, 10), t = positive("t", 1e-4f, 1000);
  symx_assume(3 * (double)t <= (double)tmax * (max * (max + 1)) * (cycles ? cycles : 1));
  std::vector<float> a;
  const int n = cycles ? fed_tau_by_process_time(t, cycles, tmax, order, a) : fed_tau_by_cycle_time(t, tmax, order, a);
  SYMX_ASSERT((n >= 1) & (n <= max) & ((int)a.size() == n), "a positive time takes at least one step, and as many steps as reported");
  double sum = 0; bool pos = true;
  for (int k = 0; k < n; k++) { sum += (double)a[k]; pos = pos & (a[k] > 0); }
  const double all = cycles ? (double)t / cycles : (double)t;
  SYMX_ASSERT(pos, "every step is positive");
  SYMX_ASSERT((sum >= all * 0.9999) & (sum <= all * 1.0001), "the steps add up to the time of the cycle");
  SYMX_ASSERT(3 * all <= (double)tmax * (n * (n + 1)) * 1.0001, "enough steps for the scheme to be stable");
  SYMX_ASSERT(3 * all >= (double)tmax * (n * (n - 1)) * 0.9999, "no more steps than needed");
  symx_reach("cycle");
}
void none() {
  std::vector<float> a(3, 1.f);
  const int n = (int)symx_range("n", -3, 0);
  SYMX_ASSERT(fed_tau_internal(n, 1, 1, symx_bool("order"), a) == 0, "no steps if none are asked for");
  symx_reach("none");
}
}  // namespace
extern "C" void symx_main(void) {
  switch (symx_param("case", 0)) {
    case 0: prime(); break;
    case 1: steps(); break;
    case 2: cycle(); break;
    case 3: none(); break;
  }
}
