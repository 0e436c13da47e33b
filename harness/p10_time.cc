// Timestamps: unit conversion, validity, text.
#include "symx.h"
#include <cmath>
#include <limits>
#include <string>
#include <aslam/common/time.h>
namespace t = aslam::time;
namespace {
__int128 wide(int64_t v) { return v; }
void compileTime() {
  const int64_t v = symx_i64("v");
  const int64_t L = std::numeric_limits<int64_t>::max();
  switch (symx_choose("unit", 0, 3)) {
    case 0: symx_assume((v <= L / 1000000000) & (v >= -(L / 1000000000))); SYMX_ASSERT(wide(t::seconds(v)) == wide(v) * 1000000000, "a second has 10^9 nanoseconds"); break;
    case 1: symx_assume((v <= L / 1000000) & (v >= -(L / 1000000))); SYMX_ASSERT(wide(t::milliseconds(v)) == wide(v) * 1000000, "a millisecond has 10^6 nanoseconds"); break;
    case 2: symx_assume((v <= L / 1000) & (v >= -(L / 1000))); SYMX_ASSERT(wide(t::microseconds(v)) == wide(v) * 1000, "a microsecond has 10^3 nanoseconds"); break;
    case 3: SYMX_ASSERT(t::nanoseconds(v) == v, "a nanosecond is a nanosecond"); break;
  }
  symx_reach("compileTime");
}
void fromNano() {
  const int64_t v = symx_i64("v");
  const double d = static_cast<double>(v);
  double got = 0, want = 0;
  switch (symx_choose("unit", 0, 3)) {
    case 0: got = t::to_seconds(v); want = d / 1e9; break;
    case 1: got = t::to_milliseconds(v); want = d / 1e6; break;
    case 2: got = t::to_microseconds(v); want = d / 1e3; break;
    case 3: got = t::nanoSecondsToSeconds(v); want = d / 1e9; break;
  }
  SYMX_ASSERT(got == want, "nanoseconds convert to the nearest value in the other unit");
  symx_reach("fromNano");
}
void toNano() {
  const double x = symx_f64("x");
  double f = 0; int64_t got = 0;
  const int unit = (int)symx_choose("unit", 0, 3);
  f = unit == 1 ? 1e6 : unit == 2 ? 1e3 : 1e9;
  const double n = x * f;
  symx_assume((n < 9.2e18) & (n > -9.2e18));
  switch (unit) {
    case 0: got = t::from_seconds(x); break;
    case 1: got = t::from_milliseconds(x); break;
    case 2: got = t::from_microseconds(x); break;
    case 3: got = t::secondsToNanoSeconds(x); break;
  }
  SYMX_ASSERT(got == static_cast<int64_t>(n), "a time in another unit converts to the whole nanoseconds it contains");
  symx_reach("toNano");
}
// whole numbers of a unit convert there and back without loss
void wholeUnits() {
  const int64_t lim = symx_param("lim", 1000);
  const int64_t k = symx_range("k", -lim, lim);
  const int unit = (int)symx_choose("unit", 0, 2);
  const double x = static_cast<double>(k);
  const int64_t f = unit == 1 ? 1000000 : unit == 2 ? 1000 : 1000000000;
  const int64_t n = unit == 1 ? t::from_milliseconds(x) : unit == 2 ? t::from_microseconds(x) : t::from_seconds(x);
  SYMX_ASSERT(n == k * f, "whole numbers of a unit convert exactly");
  const double back = unit == 1 ? t::to_milliseconds(n) : unit == 2 ? t::to_microseconds(n) : t::to_seconds(n);
  SYMX_ASSERT(back == x, "whole numbers of a unit survive the round trip");
  symx_reach("wholeUnits");
}
void text() {
  const int64_t v = symx_i64("v");
  const int n0 = (int)symx_param("digits", 0), neg = (int)symx_param("negative", 0);
  if (n0) {
    uint64_t lo = 1;
    for (int i = 1; i < n0; i++) lo *= 10;
    const uint64_t m = neg ? 0 - (uint64_t)v : (uint64_t)v;
    symx_assume(((v < 0) == (neg != 0)) & (m >= (n0 == 1 ? 0 : lo)) & (n0 >= 19 ? m <= (1ull << 63) : m < lo * 10));
  }
  const std::string s = t::timeNanosecondsToString(v);
  std::string digits = std::to_string(v), sign;
  if (digits[0] == '-') { sign = "-"; digits = digits.substr(1); }
  std::string want = sign;
  const size_t n = digits.size();
  if (n < 10) want += digits + "ns";
  else want += digits.substr(0, n - 9) + "s " + digits.substr(n - 9) + "ns";
  SYMX_ASSERT(s.size() == want.size(), "the text splits a timestamp into seconds and nanoseconds");
  bool same = true;
  for (size_t i = 0; i < want.size() && i < s.size(); i++) same = same & (s[i] == want[i]);
  SYMX_ASSERT(same, "the text splits a timestamp into seconds and nanoseconds");
  symx_reach("text");
}
void validity() {
  const int64_t v = symx_i64("v");
  SYMX_ASSERT(t::isValidTime(v) == (v != std::numeric_limits<int64_t>::min()), "every timestamp but the invalid one is valid");
  SYMX_ASSERT(!t::isValidTime(t::getInvalidTime()), "the invalid timestamp is invalid");
  const int64_t now = t::nanoSecondsSinceEpoch();
  (void)now;
  symx_reach("validity");
}
}
extern "C" void symx_main() {
  switch (symx_param("case", 0)) { case 0: compileTime(); break; case 1: fromNano(); break; case 2: toNano(); break; case 3: wholeUnits(); break; case 4: text(); break; case 5: validity(); break; }
}
