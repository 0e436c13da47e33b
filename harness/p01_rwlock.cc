// Reader-writer locks: exclusion, upgrade, progress, usage report.
#include "symx.h"
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
#include <aslam/common/reader-first-reader-writer-lock.h>
#include <aslam/common/reader-writer-lock.h>
using namespace aslam;
namespace {
struct Shared {
  std::unique_ptr<ReaderWriterMutex> m;
  int data = 0;                       // plain: unordered accesses are races
  std::atomic<int> readers{0}, writers{0}, upgradesOk{0}, upgradesTried{0}, writes{0};
  int numUpgraders = 0;
};
const auto RX = std::memory_order_relaxed;
void writeBody(Shared& s) {
  SYMX_ASSERT(s.writers.exchange(1, RX) == 0, "two writers hold the lock");
  SYMX_ASSERT(s.readers.load(RX) == 0, "a writer holds the lock together with a reader");
  int v = s.data; s.data = v + 1;
  symx_yield();
  SYMX_ASSERT(s.data == v + 1, "protected data changes under a writer");
  SYMX_ASSERT(s.readers.load(RX) == 0, "a reader enters while a writer holds the lock");
  s.writes.fetch_add(1, RX);
  s.writers.store(0, RX);
}
void readBody(Shared& s) {
  s.readers.fetch_add(1, RX);
  SYMX_ASSERT(s.writers.load(RX) == 0, "a reader holds the lock together with a writer");
  int v = s.data;
  symx_yield();
  SYMX_ASSERT(s.data == v, "protected data changes under a reader");
  SYMX_ASSERT(s.writers.load(RX) == 0, "a writer enters while a reader holds the lock");
  s.readers.fetch_sub(1, RX);
}
void op(Shared& s, int kind) {
  switch (kind) {
    case 0: { ScopedReadLock l(s.m.get()); ScopedReadLock k(std::move(l)); readBody(s); break; }
    case 1: { ScopedWriteLock l(s.m.get()); ScopedWriteLock k(std::move(l)); writeBody(s); break; }
    case 2: {
      s.m->acquireReadLock();
      s.readers.fetch_add(1, RX);
      int v = s.data;
      SYMX_ASSERT(s.writers.load(RX) == 0, "a reader holds the lock together with a writer");
      symx_yield();
      s.readers.fetch_sub(1, RX);
      s.upgradesTried.fetch_add(1, RX);
      if (s.m->upgradeToWriteLock()) {
        s.upgradesOk.fetch_add(1, RX);
        SYMX_ASSERT(s.data == v, "another writer gets in between reading and the upgrade");
        writeBody(s);
        s.m->releaseWriteLock();
      } else {
        SYMX_ASSERT(s.numUpgraders > 1, "an upgrade fails although nobody else upgrades");
      }
      break;
    }
    case 3: SYMX_ASSERT(s.m->isInUse() | true, ""); break;
  }
}
std::unique_ptr<ReaderWriterMutex> make() {
  return std::unique_ptr<ReaderWriterMutex>(symx_param("first", 0) ? static_cast<ReaderWriterMutex*>(new ReaderFirstReaderWriterMutex) : new ReaderWriterMutex);
}
// programs of all threads are symbolic
void exclusion() {
  Shared s; s.m = make();
  const int T = (int)symx_param("threads", 3), O = (int)symx_param("ops", 1), lo = (int)symx_param("lo", 0), hi = (int)symx_param("hi", 2);
  int prog[4][4], writers = 0;
  for (int t = 0; t < T; t++) for (int o = 0; o < O; o++) prog[t][o] = (int)symx_range("op", lo, hi);
  // threads are interchangeable: order them by their first operation
  for (int t = 0; t + 1 < T; t++) symx_assume(prog[t][0] <= prog[t + 1][0]);
  for (int t = 0; t < T; t++) for (int o = 0; o < O; o++) {
    prog[t][o] = (int)symx_concretize(prog[t][o]);
    s.numUpgraders += prog[t][o] == 2; writers += prog[t][o] == 1;
  }
  std::vector<std::thread> th;
  for (int t = 1; t < T; t++) th.emplace_back([&s, &prog, O, t] { for (int o = 0; o < O; o++) op(s, prog[t][o]); });
  for (int o = 0; o < O; o++) op(s, prog[0][o]);
  for (auto& t : th) t.join();
  SYMX_ASSERT(s.data == writers + s.upgradesOk.load(), "every exclusive section took effect exactly once");
  SYMX_ASSERT(s.numUpgraders == 0 || s.upgradesOk.load() >= 1, "at least one upgrade succeeds");
  SYMX_ASSERT(!s.m->isInUse(), "the lock is reported in use after everybody is done");
  // still usable
  s.m->acquireWriteLock(); SYMX_ASSERT(s.m->isInUse(), "a held write lock is not reported"); s.m->releaseWriteLock();
  s.m->acquireReadLock(); SYMX_ASSERT(s.m->isInUse(), "a held read lock is not reported"); s.m->releaseReadLock();
  symx_reach("exclusion");
}
// concurrent readers: none of them waits for another
void sharing() {
  Shared s; s.m = make();
  s.m->acquireReadLock();
  int in = 0;
  std::thread t([&] { s.m->acquireReadLock(); in = 1; s.m->releaseReadLock(); });
  t.join();   // deadlocks if readers exclude each other
  SYMX_ASSERT(in == 1, "a second reader gets in");
  s.m->releaseReadLock();
  symx_reach("sharing");
}
// who waits for whom while a writer waits for a reader
void preference() {
  Shared s; s.m = make();
  std::atomic<int> wGot{0}, rGot{0};
  s.m->acquireReadLock();
  std::thread w([&] { s.m->acquireWriteLock(); SYMX_ASSERT(s.readers.load() == 0, "the writer gets in before the reader leaves"); wGot = 1; s.m->releaseWriteLock(); });
  symx_settle();
  SYMX_ASSERT(wGot == 0, "the writer gets in before the reader leaves");
  SYMX_ASSERT(s.m->isInUse(), "a held lock is not reported");
  std::thread r([&] { s.m->acquireReadLock(); rGot = wGot + 1; s.m->releaseReadLock(); });
  symx_settle();
  if (symx_param("first", 0)) SYMX_ASSERT(rGot == 1, "a reader-first lock lets a reader in while a writer is waiting");
  else SYMX_ASSERT(rGot == 0, "a waiting writer keeps new readers out");
  s.m->releaseReadLock();
  w.join(); r.join();
  if (!symx_param("first", 0)) SYMX_ASSERT(rGot == 2, "the waiting writer goes before later readers");
  SYMX_ASSERT(!s.m->isInUse(), "the lock is reported in use after everybody is done");
  symx_reach("preference");
}
// a lock somebody waits for is in use
void inUse() {
  Shared s; s.m = make();
  const int kind = (int)symx_choose("kind", 0, 1), held = (int)symx_choose("held", 0, 1);
  symx_assume(kind == 1 || held == 1);
  std::atomic<int> done{0}, leave{0};
  if (held) s.m->acquireWriteLock(); else s.m->acquireReadLock();
  std::mutex gate; gate.lock();
  std::thread t([&] {
    if (kind) s.m->acquireWriteLock(); else s.m->acquireReadLock();
    gate.lock(); gate.unlock();
    if (kind) s.m->releaseWriteLock(); else s.m->releaseReadLock(); });
  symx_settle();   // the other thread waits now
  if (held) s.m->releaseWriteLock(); else s.m->releaseReadLock();
  SYMX_ASSERT(s.m->isInUse(), "a lock with a waiting thread is reported as unused");
  gate.unlock();
  t.join();
  SYMX_ASSERT(!s.m->isInUse(), "the lock is reported in use after everybody is done");
  symx_reach("inUse");
}
}
extern "C" void symx_main() {
  switch (symx_param("case", 0)) { case 0: exclusion(); break; case 1: sharing(); break; case 2: preference(); break; case 3: inUse(); break; }
}
