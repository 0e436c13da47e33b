// Accumulators, the registries of statistics and timers.
#include "symx.h"
#include <cmath>
#include <cstdint>
#include <limits>
#include <map>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <stdlib.h>
#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>
namespace {
double number() { double d; if (symx_is_real_mode()) d = symx_f64("x"); else symx_bytes(&d, 8, "x"); symx_assume(std::fabs(d) <= 1e100); return d; }
template <class A> void accumulator(size_t window) {
  A a;
  SYMX_ASSERT(a.total_samples() == 0 && a.sum() == 0 && a.Mean() == 0 && a.LazyVariance() == 0 && a.GetSamples().empty(), "an accumulator starts empty");
  const int n = (int)symx_param("n", 4);
  std::vector<double> x;
  for (int i = 0; i < n; i++) {
    x.push_back(number()); a.Add(x.back());
    SYMX_ASSERT(a.total_samples() == i + 1, "every sample is counted");
    SYMX_ASSERT(a.GetMostRecent() == x.back(), "the most recent sample is the last one added");
    double sum = 0, last = 0; const size_t k = std::min(window, x.size());
    bool lo = true, hi = true, loIs = false, hiIs = false;
    for (double v : x) { sum += v; lo = lo & (a.min() <= v); hi = hi & (a.max() >= v); loIs = loIs | (a.min() == v); hiIs = hiIs | (a.max() == v); }
    SYMX_ASSERT(lo & hi, "no sample lies outside the recorded extremes");
    SYMX_ASSERT(loIs & hiIs, "the recorded extremes are samples");
    for (size_t j = x.size() - k; j < x.size(); j++) last += x[j];
    const auto& kept = a.GetSamples();
    SYMX_ASSERT(kept.size() == k, "the window holds the most recent samples");
    if (!symx_is_real_mode()) for (size_t j = x.size() - k; j < x.size(); j++) {
      uint32_t in = 0, should = 0;
      for (size_t q = 0; q < k; q++) in += kept[q] == x[j];
      for (size_t q = x.size() - k; q < x.size(); q++) should += x[q] == x[j];
      SYMX_ASSERT(in == should, "the window holds the most recent samples");
    }
    if (!symx_is_real_mode()) { SYMX_ASSERT(a.sum() == sum, "the sum is the sum of all samples"); continue; }
    symx_real_eq_impl(a.sum(), sum, "the sum is the sum of all samples", 1e-9);
    symx_real_eq_impl(a.Mean() * (i + 1), sum, "the mean is the sum over the number of samples", 1e-9);
    symx_real_eq_impl(a.RollingMean() * (double)k, last, "the rolling mean covers the most recent samples", 1e-9);
    double var = 0; for (size_t j = x.size() - k; j < x.size(); j++) var += (x[j] * (double)k - last) * (x[j] * (double)k - last);
    if (k > 1) { symx_real_eq_impl(a.LazyVariance() * (double)(k * k * (k - 1)), var, "the variance is the mean squared deviation from the rolling mean", 1e-6);
      if (i + 1 == n) { const double sd = a.StandardDeviation(); SYMX_ASSERT(sd >= 0, "a deviation is not negative"); symx_real_eq_impl(sd * sd, a.LazyVariance(), "the deviation is the root of the variance", 1e-6); } }
    else SYMX_ASSERT(a.LazyVariance() == 0, "a single sample has no variance");
  }
  symx_reach("accumulator");
}
struct Expected { size_t handle; std::vector<double> samples, deltas; long last; };
const char* const kTags[3] = {"a", "bb", "c#:"};
void checkStatistics(const std::map<std::string, Expected>& reg, const std::vector<Expected>& all, bool values) {
  typedef statistics::Statistics S;
  for (const char* t : kTags) SYMX_ASSERT(S::HasHandle(t) == (reg.count(t) == 1), "a name is known exactly if it was used since the last reset");
  for (auto& r : reg) {
    SYMX_ASSERT(S::GetHandle(r.first) == r.second.handle, "a name keeps its handle");
    SYMX_ASSERT(S::GetTag(r.second.handle) == r.first, "a handle leads back to its name");
    for (auto& q : reg) SYMX_ASSERT((q.second.handle == r.second.handle) == (q.first == r.first), "different names have different handles");
    const Expected& e = r.second;
    SYMX_ASSERT(S::GetNumSamples(r.first) == e.samples.size() && S::GetNumSamples(e.handle) == e.samples.size(), "every sample is counted under its name only");
    if (!values) continue;
    double sum = 0; for (double v : e.samples) sum += v;
    SYMX_ASSERT(S::GetTotal(r.first) == sum, "the total is the sum of the samples of that name");
    SYMX_ASSERT(S::GetLastValue(e.handle) == (e.samples.empty() ? 0.0 : e.samples.back()), "the last value is the most recent sample of that name");
    SYMX_ASSERT(S::GetLastDeltaTime(r.first) == (e.deltas.empty() ? 0.0 : e.deltas.back()), "the time between samples is the difference of the clock");
    if (e.samples.size() == 1) SYMX_ASSERT((S::GetMean(r.first) == sum) & (S::GetMin(e.handle) == sum) & (S::GetMax(r.first) == sum) & (S::GetVariance(r.first) == 0.0), "one sample is its own mean and extreme");
    if (e.samples.size() == 2) { const double x = e.samples[0], y = e.samples[1]; SYMX_ASSERT((S::GetMin(e.handle) == (y < x ? y : x)) & (S::GetMax(e.handle) == (y > x ? y : x)), "extremes are those of the samples of that name"); SYMX_ASSERT(S::GetMean(r.first) == sum / 2, "the mean is the sum over the number of samples"); }
  }
}
void registry() {
  typedef statistics::Statistics S;
  std::map<std::string, Expected> reg; std::vector<Expected> all;
  const bool values = symx_param("values", 1);
  for (int s = 0; s < (int)symx_param("steps", 3); s++) {
    const int op = (int)symx_choose("op", 0, 2);
    if (op == 2) { S::Reset(); reg.clear(); continue; }
    const std::string tag = kTags[symx_choose("tag", 0, (int)symx_param("tags", 1))];
    statistics::StatsCollectorImpl c(tag);
    if (!reg.count(tag)) { Expected e; e.handle = c.GetHandle(); e.last = 0; reg[tag] = e; }
    SYMX_ASSERT(c.GetHandle() == reg[tag].handle, "a name keeps its handle");
    Expected& e = reg[tag];
    if (op == 1) {
      const bool one = values ? symx_choose("one", 0, 1) : false;
      const double v = one ? 1.0 : values ? number() : 2.0;
      if (one) c.IncrementOne(); else c.AddSample(v);
      const long now = symx_last_clock;
      symx_assume((now > 0) & (now < (1L << 62)));
      if (!e.samples.empty()) e.deltas.push_back((double)(now - e.last) * 1.e-9);
      e.last = now; e.samples.push_back(v);
    }
    checkStatistics(reg, all, values);
  }
  checkStatistics(reg, all, values);
  symx_reach("registry");
}
// every sequence of starting, stopping, discarding and destroying two timers
void timers() {
  typedef timing::Timing T;
  struct One { size_t handle; size_t samples; };
  std::map<std::string, One> reg;
  timing::TimerImpl* live[2] = {nullptr, nullptr}; std::string name[2]; bool running[2] = {false, false};
  for (int s = 0; s < (int)symx_param("steps", 3); s++) {
    const int i = (int)symx_choose("timer", 0, 1), op = (int)symx_choose("op", 0, 4);
    if ((op == 0) != (live[i] == nullptr)) symx_skip();
    if (op == 0) {
      name[i] = kTags[symx_choose("tag", 0, 1)];
      const bool still = symx_choose("stopped", 0, 1);
      live[i] = new timing::TimerImpl(name[i], still);
      if (!reg.count(name[i])) { reg[name[i]].handle = live[i]->GetHandle(); reg[name[i]].samples = 0; }
      running[i] = !still;
    } else if (op == 1) { live[i]->Start(); running[i] = true; }
    else if (op == 2) {
      const double d = live[i]->Stop();
      if (running[i]) reg[name[i]].samples++; else SYMX_ASSERT(d == 0.0, "stopping a timer that is not running measures nothing");
      running[i] = false;
    } else if (op == 3) { live[i]->Discard(); running[i] = false; }
    else { delete live[i]; live[i] = nullptr; if (running[i]) reg[name[i]].samples++; running[i] = false; }
    if (live[i]) SYMX_ASSERT(live[i]->IsTiming() == running[i] && live[i]->GetHandle() == reg[name[i]].handle, "a timer knows whether it runs and where it reports");
    for (auto& r : reg) {
      SYMX_ASSERT(T::GetHandle(r.first) == r.second.handle && T::GetTag(r.second.handle) == r.first, "a name keeps its handle and a handle its name");
      for (auto& q : reg) SYMX_ASSERT((q.second.handle == r.second.handle) == (q.first == r.first), "different names have different handles");
      SYMX_ASSERT(T::GetNumSamples(r.first) == r.second.samples, "each completed measurement is recorded once, discarded ones never");
    }
  }
  for (auto* t : live) delete t;
  symx_reach("timers");
}
// elapsed times: what one timer measures
void elapsed() {
  timing::TimerImpl t("x");
  const long a = symx_last_clock;
  symx_assume((a > 0) & (a < (1L << 61)));
  const bool again = symx_choose("again", 0, 1);
  if (again) t.Start();
  const long b = symx_last_clock;
  symx_assume((b > 0) & (b < (1L << 61)));
  symx_reach("elapsed");
  const double d = t.Stop();
  SYMX_ASSERT(timing::Timing::GetTotalSeconds("x") == d && timing::Timing::GetMeanSeconds("x") == d && timing::Timing::GetMinSeconds("x") == d && timing::Timing::GetMaxSeconds("x") == d, "what a timer measures is what is recorded");
  // the clock is read once to measure and once more when the sample is recorded
  const double e = (double)(symx_prev_clock - b) * 1e-9, e1 = (double)(symx_last_clock - b) * 1e-9;
  SYMX_ASSERT(d == e || d == e1 || std::fabs(d - e) <= 1e-12 * std::fabs(e) || std::fabs(d - e1) <= 1e-12 * std::fabs(e1), "a timer measures the time between its start and its stop");
  SYMX_ASSERT(timing::Timing::GetTotalSeconds(t.GetHandle()) == d, "what a timer measures is what is recorded");
}
// reports name every known entry once, in the text and in the file
std::string writtenFile(bool tm) {
#ifdef SYMX_STREAMS_H_
  if (tm) timing::Timing::WriteToYamlFile("f"); else statistics::Statistics::WriteToYamlFile("f");
  return std::symx_file_text();
#else
  char path[] = "/tmp/symx-report-XXXXXX"; const int fd = mkstemp(path);
  if (tm) timing::Timing::WriteToYamlFile(path); else statistics::Statistics::WriteToYamlFile(path);
  std::string s; char b[256]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  close(fd); unlink(path);
  return s;
#endif
}
size_t occurrences(const std::string& s, const std::string& w) { size_t n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) n++; return n; }
void report() {
  const bool tm = symx_param("timing", 0);
  static const char* const labels[3] = {"a", "bb", "c__"};
  uint32_t known = 0; size_t count[3] = {0, 0, 0};
  for (int i = 0; i < 3; i++) {
    const int n = (int)symx_choose("samples", 0, 3) - 1;
    if (n < 0) continue;
    known |= 1u << i; count[i] = n;
    if (tm) timing::Timing::GetHandle(kTags[i]); else statistics::Statistics::GetHandle(kTags[i]);
    for (int k = 0; k < n; k++) { if (tm) timing::TimerImpl t(kTags[i]); else statistics::StatsCollectorImpl(kTags[i]).AddSample(2.5); }
  }
  std::string text = tm ? timing::Timing::Print() : statistics::Statistics::Print(), compact = "\n", file = "\n" + writtenFile(tm);
  for (char ch : text) if (ch != ' ') compact += ch;
  for (int i = 0; i < 3; i++) {
    const bool here = known >> i & 1;
    SYMX_ASSERT(occurrences(compact, "\n" + std::string(kTags[i]) + "\t" + std::to_string(count[i]) + "\t") == (here ? 1u : 0u), "the printed report has one line per known name with its number of samples");
    SYMX_ASSERT(occurrences(file, "\n" + std::string(labels[i]) + ":\n") == (here && count[i] ? 1u : 0u), "the written report has one entry per name with samples");
    SYMX_ASSERT(occurrences(file, "\n" + std::string(labels[i]) + ":\n  " + (tm ? "num_samples: " : "samples: ") + std::to_string(count[i]) + "\n") == (here && count[i] ? 1u : 0u), "the written report gives the number of samples of each name");
  }
  if (!known) SYMX_ASSERT(text.empty() && file == "\n", "nothing known, nothing reported");
  symx_reach("report");
}
void threads() {
  typedef statistics::Statistics S;
  typedef timing::Timing T;
  const int how = (int)symx_param("how", 0);
  const bool tm = symx_param("timing", 0);
  if (tm) T::GetHandle("z"); else S::GetHandle("z");
  size_t h[2] = {99, 99};
  auto reader = [&] {
    switch (how) {
      case 0: h[1] = tm ? T::GetHandle("a") : S::GetHandle("a"); if (tm) { timing::TimerImpl t("a"); } else statistics::StatsCollectorImpl("a").IncrementOne(); break;
      case 1: if (tm) T::WriteToYamlFile("/dev/null"); else S::WriteToYamlFile("/dev/null"); break;
      case 2: if (tm) T::Print(); else S::Print(); break;
      case 3: if (tm) T::GetTag(0); else { S::GetTag(0); S::HasHandle("a"); } break;
      case 4: if (tm) T::GetNumSamples("z"); else { S::GetNumSamples("z"); S::GetTotal("z"); S::GetMean("z"); S::GetHz("z"); S::GetVariance("z"); } break;
      case 5: if (tm) T::Reset(); else S::Reset(); break;
    }
  };
  std::thread t(reader);
  h[0] = tm ? T::GetHandle("a") : S::GetHandle("a");
  if (tm) { timing::TimerImpl q("a"); } else statistics::StatsCollectorImpl("a").IncrementOne();
  t.join();
  if (how == 0) {
    SYMX_ASSERT(h[0] == h[1], "two threads get the same handle for the same name");
    SYMX_ASSERT((tm ? T::GetNumSamples("a") : S::GetNumSamples("a")) == 2, "samples of different threads are all counted");
  } else if (how == 5) SYMX_ASSERT((tm ? T::GetNumSamples("a") : S::GetNumSamples("a")) <= 1, "a reset leaves at most what came after it");
  else SYMX_ASSERT((tm ? T::GetNumSamples("a") : S::GetNumSamples("a")) == 1, "samples of different threads are all counted");
  symx_reach("statThreads");
}
}  // namespace
void symx_main(void) {
  if (symx_param("still", 0)) symx_clock_fixed = 1700000000000000000L;
  switch (symx_param("case", 0)) {
    case 0: accumulator<statistics::Accumulator<double, double, 3>>(3); break;
    case 1: accumulator<statistics::Accumulatord>(1000); break;
    case 2: registry(); break;
    case 3: timers(); break;
    case 4: elapsed(); break;
    case 5: threads(); break;
    case 7: report(); break;
    case 6: accumulator<statistics::Accumulator<double, double, 1>>(1); break;
  }
}
