// Thread pool: execution, results, shutdown, group order, draining.
#include "symx.h"
#include <atomic>
#include <future>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include <aslam/common/thread-pool.h>
using aslam::ThreadPool;
namespace {
const auto RX = std::memory_order_relaxed;
struct Task { int runs = 0; int seq = -1; };
struct World {
  Task task[6];                       // plain: also checks that results are visible
  std::atomic<int> inGroup[4], order{0};
  World() { for (auto& g : inGroup) g.store(0, RX); }
};
const size_t kNone = std::numeric_limits<size_t>::max();
size_t groupOf(int g) { return g == 0 ? kNone : g == 1 ? size_t(0) : kNone - 1; }
uint32_t body(World* w, int i, int g, uint32_t x) {
  if (g) SYMX_ASSERT(w->inGroup[g].fetch_add(1, RX) == 0, "two tasks of one group run at the same time");
  if (symx_param("yield", 1)) symx_yield();
  w->task[i].runs++;
  w->task[i].seq = w->order.fetch_add(1, RX);
  if (g) w->inGroup[g].fetch_sub(1, RX);
  return x ^ 0x5a5a5a5au;
}
// every accepted task runs exactly once, its result arrives, groups stay in order
void execution() {
  const int W = (int)symx_param("workers", 2), K = (int)symx_param("tasks", 2), end = (int)symx_param("end", 0);
  World w; uint32_t x[6]; int g[6];
  for (int i = 0; i < K; i++) { x[i] = symx_u32("x"); g[i] = (int)symx_choose("group", 0, (int)symx_param("groups", 1)); }
  // group numbers are interchangeable
  if (symx_param("groups", 1) == 2) { bool seen = false; for (int i = 0; i < K; i++) { if (g[i] == 1) seen = true; if (g[i] == 2 && !seen) symx_skip(); } }
  std::vector<std::future<uint32_t>> f;
  {
    ThreadPool pool(W);
    for (int i = 0; i < K; i++) {
      f.push_back(g[i] ? pool.enqueueOrdered(groupOf(g[i]), &body, &w, i, g[i], x[i]) : pool.enqueue(&body, &w, i, g[i], x[i]));
      SYMX_ASSERT(f.back().valid(), "a running pool accepts work");
    }
    if (end == 1) for (int i = 0; i < K; i++) { SYMX_ASSERT(f[i].get() == (x[i] ^ 0x5a5a5a5au), "the future delivers the result of its task"); SYMX_ASSERT(w.task[i].runs == 1, "a task has run once when its result is there"); }
    if (end == 2) {
      pool.waitForEmptyQueue();
      for (int i = 0; i < K; i++) SYMX_ASSERT(w.task[i].runs == 1, "waiting for an empty queue returns before every task is finished");
      SYMX_ASSERT(pool.numActiveThreads() == 0, "a drained pool has no active worker");
    }
    if (end == 3) {
      pool.stop();
      auto r = pool.enqueue(&body, &w, 5, 0, 1u);
      SYMX_ASSERT(!r.valid(), "a stopped pool rejects work");
    }
  }
  for (int i = 0; i < K; i++) {
    SYMX_ASSERT(w.task[i].runs == 1, "every accepted task runs exactly once");
    if (end != 1) SYMX_ASSERT(f[i].get() == (x[i] ^ 0x5a5a5a5au), "the future delivers the result of its task");
    for (int j = 0; j < i; j++) if (g[i] && g[i] == g[j]) SYMX_ASSERT(w.task[j].seq < w.task[i].seq, "tasks of one group run in the order they were enqueued");
  }
  SYMX_ASSERT(w.task[5].runs == 0, "rejected work does not run");
  symx_reach("execution");
}
// two clients enqueue concurrently
void twoClients() {
  World w; std::future<uint32_t> f[2]; uint32_t x = symx_u32("x");
  int g0 = (int)symx_choose("group", 0, 1), g1 = (int)symx_choose("group", 0, 1);
  {
    ThreadPool pool((size_t)symx_param("workers", 2));
    std::thread c([&] { f[1] = pool.enqueueOrdered(groupOf(g1), &body, &w, 1, g1, x); if (symx_param("wait", 0)) { pool.waitForEmptyQueue(); SYMX_ASSERT(w.task[1].runs == 1, "waiting for an empty queue returns before every task is finished"); } });
    f[0] = pool.enqueueOrdered(groupOf(g0), &body, &w, 0, g0, x + 1u);
    if (symx_param("wait", 0)) { pool.waitForEmptyQueue(); SYMX_ASSERT(w.task[0].runs == 1, "waiting for an empty queue returns before every task is finished"); }
    c.join();
  }
  for (int i = 0; i < 2; i++) { SYMX_ASSERT(w.task[i].runs == 1, "every accepted task runs exactly once"); SYMX_ASSERT(f[i].get() == ((x + 1u - i) ^ 0x5a5a5a5au), "the future delivers the result of its task"); }
  symx_reach("twoClients");
}
// a task that throws hands the exception to its future and harms nobody else
void throwing() {
  World w; int g = (int)symx_choose("group", 0, 1);
  {
    ThreadPool pool((size_t)symx_param("workers", 1));
    auto bad = pool.enqueueOrdered(groupOf(g), [](int v) -> int { if (v >= 0) throw std::runtime_error("task"); return v; }, 3);
    auto good = pool.enqueueOrdered(groupOf(g), &body, &w, 0, g, 9u);
    bool thrown = false;
    try { bad.get(); } catch (const std::runtime_error&) { thrown = true; }
    SYMX_ASSERT(thrown, "an exception reaches the future of its task");
    SYMX_ASSERT(good.get() == (9u ^ 0x5a5a5a5au), "the pool survives a throwing task");
  }
  SYMX_ASSERT(w.task[0].runs == 1, "every accepted task runs exactly once");
  symx_reach("throwing");
}
// a runnable task is not left waiting while a worker is idle: the first task
// only ends once the second one has run
void concurrency() {
  World w; int ga = (int)symx_range("group", 0, 1), gb = (int)symx_range("group", 0, 2); const int waiter = (int)symx_param("waiter", 0);
  symx_assume((ga == 0) | (ga != gb)); symx_assume((ga == 1) | (gb < 2));
  ga = (int)symx_concretize(ga); gb = (int)symx_concretize(gb);
  std::promise<int> p; std::shared_future<int> go = p.get_future().share();
  ThreadPool pool(2);
  auto a = pool.enqueueOrdered(groupOf(ga), [&w, go] { int v = go.get(); w.task[0].runs++; return v; });
  std::thread c;
  if (waiter) { symx_settle(); c = std::thread([&] { pool.waitForEmptyQueue(); SYMX_ASSERT(w.task[0].runs == 1, "waiting for an empty queue returns before every task is finished"); }); if (waiter == 2) symx_settle(); }
  if (symx_param("settle", 0)) symx_settle();
  auto b = pool.enqueueOrdered(groupOf(gb), [&w, &p] { w.task[1].runs++; p.set_value(4); });
  b.get(); SYMX_ASSERT(a.get() == 4, "the future delivers the result of its task");
  if (waiter) c.join();
  symx_reach("concurrency");
}
// tasks of a blocked group do not hold up others
void blockedGroup() {
  World w;
  std::promise<int> p; std::shared_future<int> go = p.get_future().share();
  {
    ThreadPool pool(2);
    auto a1 = pool.enqueueOrdered(groupOf(1), [go] { return go.get(); });
    auto a2 = pool.enqueueOrdered(groupOf(1), &body, &w, 0, 1, 1u);
    const int gb = (int)symx_choose("group", 0, 1);
    auto b = pool.enqueueOrdered(gb ? groupOf(2) : kNone, [&w, &p] { SYMX_ASSERT(w.task[0].seq == -1, "tasks of one group run in the order they were enqueued"); w.task[1].runs++; p.set_value(4); });
    b.get(); a2.get();
    SYMX_ASSERT(w.task[0].runs == 1 && w.task[1].runs == 1, "every accepted task runs exactly once");
  }
  symx_reach("blockedGroup");
}
// work enqueued from inside a task
void nested() {
  World w; const int g = (int)symx_choose("group", 0, 1);
  {
    ThreadPool pool((size_t)symx_param("workers", 1));
    ThreadPool* q = &pool;
    auto a = pool.enqueueOrdered(groupOf(g), [q, &w, g] { q->enqueueOrdered(groupOf(g), &body, &w, 0, g, 1u); w.task[1].runs++; });
    pool.waitForEmptyQueue();
    SYMX_ASSERT(w.task[0].runs == 1 && w.task[1].runs == 1, "waiting for an empty queue returns before every task is finished");
  }
  symx_reach("nested");
}
// the same, with the client already waiting when the further work arrives
void nestedLate() {
  World w; const int g = (int)symx_choose("group", 0, 1);
  {
    ThreadPool pool((size_t)symx_param("workers", 1));
    ThreadPool* q = &pool; std::promise<void> started; std::future<void> s = started.get_future();
    auto a = pool.enqueueOrdered(groupOf(g), [q, &w, g, &started] { started.set_value(); symx_settle(); q->enqueueOrdered(groupOf(g), &body, &w, 0, g, 1u); w.task[1].runs++; });
    s.get();
    pool.waitForEmptyQueue();
    SYMX_ASSERT(w.task[0].runs == 1 && w.task[1].runs == 1, "waiting for an empty queue returns before every task is finished");
  }
  symx_reach("nestedLate");
}
// a backlog of tasks builds up behind a busy group and two busy workers
void backlog() {
  World w; const int K = (int)symx_param("tasks", 4); int g[6]; int before;
  for (int i = 0; i < K; i++) g[i] = (int)symx_choose("group", 0, 2);
  std::promise<int> p1, p2; std::shared_future<int> go1 = p1.get_future().share(), go2 = p2.get_future().share();
  {
    ThreadPool pool(2);
    pool.enqueueOrdered(groupOf(1), [go1] { return go1.get(); });
    pool.enqueueOrdered(symx_param("gate", 0) ? groupOf(2) : kNone, [go2] { return go2.get(); });
    symx_settle();
    SYMX_ASSERT(pool.numActiveThreads() == 2, "a runnable task is taken by a free worker");
    for (int i = 0; i < K; i++) pool.enqueueOrdered(groupOf(g[i]), &body, &w, i, g[i], 1u);
    p2.set_value(1);
    symx_settle();
    SYMX_ASSERT(pool.numActiveThreads() == 1, "the busy worker is counted as active");
    int last = -1; before = 0;
    for (int i = 0; i < K; i++) {
      if (g[i] == 1) { SYMX_ASSERT(w.task[i].runs == 0, "two tasks of one group run at the same time"); continue; }
      before++;
      SYMX_ASSERT(w.task[i].runs == 1, "a busy group holds up tasks of other groups");
      SYMX_ASSERT(w.task[i].seq > last, "tasks that may run are started in the order they were enqueued"); last = w.task[i].seq;
    }
    p1.set_value(1);
    pool.waitForEmptyQueue();
  }
  for (int i = 0; i < K; i++) {
    SYMX_ASSERT(w.task[i].runs == 1, "every accepted task runs exactly once");
    for (int j = 0; j < i; j++) if (g[i] && g[i] == g[j]) SYMX_ASSERT(w.task[j].seq < w.task[i].seq, "tasks of one group run in the order they were enqueued");
  }
  symx_reach("backlog");
}
}
extern "C" void symx_main() {
  switch (symx_param("case", 0)) { case 0: execution(); break; case 1: twoClients(); break; case 2: throwing(); break; case 3: concurrency(); break; case 4: blockedGroup(); break; case 5: nested(); break; case 6: nestedLate(); break; case 7: backlog(); break; }
}
