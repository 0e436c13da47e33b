SEEDS = []
CH = '#include <cstdio>\n#define CHK(c) do { if (!(c)) { std::printf("FAIL line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)\n#include <cstdlib>\n'
LIBC = '-L"$PWD/_build" -laslam_cv_common -Wl,-rpath,"$PWD/_build"'
def seed(**k): SEEDS.append(k)
C, CI = "aslam_cv_common/src/", "aslam_cv_common/include/aslam/common/"
seed(id="rw_first_recheck", prop="P01", libs=LIBC, needs="reader-first lock: a reader and a second writer both wait for a writer; when it leaves, the reader gets in before the second writer wakes up",
  breaks="the second writer no longer re-checks the readers after waiting for the first writer, so it shares the lock with the reader",
  edits=[(C + "reader-first-reader-writer-lock.cc", """  while (true) {
    while (num_readers_ > (pending_upgrade_ ? 1 : 0)) {
      cv_readers_.wait(lock);
    }
    if (!current_writer_ && !pending_upgrade_) {
      break;
    } else {
      while (current_writer_ || pending_upgrade_) {
        cv_writer_finished_.wait(lock);
      }
    }
  }
""", """  while (num_readers_ > (pending_upgrade_ ? 1 : 0)) {
    cv_readers_.wait(lock);
  }
  while (current_writer_ || pending_upgrade_) {
    cv_writer_finished_.wait(lock);
  }
""")], demo=CH + r"""#include <atomic>
#include <chrono>
#include <thread>
#include <aslam/common/reader-first-reader-writer-lock.h>
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
int main() {
  for (int round = 0; round < 40; ++round) {
    aslam::ReaderFirstReaderWriterMutex m;
    std::atomic<int> readers(0); std::atomic<bool> bad(false);
    m.acquireWriteLock();
    std::thread r1([&] { m.acquireReadLock(); ++readers; ms(60); --readers; m.releaseReadLock(); });
    std::thread w([&] { m.acquireWriteLock(); if (readers != 0) bad = true; ms(5); if (readers != 0) bad = true; m.releaseWriteLock(); });
    ms(20);
    m.releaseWriteLock();
    r1.join(); w.join();
    CHK(!bad);
  }
  return 0;
}
""")
seed(id="rw_upgrade_nowait", prop="P02", libs=LIBC, needs="a writer asks for the lock while an upgrade waits for the last other reader to leave",
  breaks="a writer waiting for the current writer no longer waits for a pending upgrade, so it slips in between the read and the upgraded write lock",
  edits=[(C + "reader-writer-lock.cc", """  while (current_writer_ || pending_upgrade_) {
    cv_writer_finished_.wait(lock);
  }
  --num_pending_writers_;""", """  while (current_writer_) {
    cv_writer_finished_.wait(lock);
  }
  --num_pending_writers_;""")], demo=CH + r"""#include <atomic>
#include <chrono>
#include <thread>
#include <aslam/common/reader-writer-lock.h>
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
int main() {
  for (int round = 0; round < 60; ++round) {
    aslam::ReaderWriterMutex m; int value = 0; bool lost = false; std::atomic<bool> in(false), done(false);
    m.acquireReadLock();  // the other reader
    std::thread up([&] { m.acquireReadLock(); int seen = value; in = true; if (m.upgradeToWriteLock()) { if (value != seen) lost = true; value = seen + 1; m.releaseWriteLock(); } });
    while (!in) ms(1);
    ms(5);
    std::thread w1([&] { m.acquireWriteLock(); ++value; m.releaseWriteLock(); });
    std::thread w2([&] { m.acquireWriteLock(); ++value; m.releaseWriteLock(); });
    ms(5);
    m.releaseReadLock();
    up.join(); w1.join(); w2.join();
    CHK(!lost); CHK(value == 3);
  }
  return 0;
}
""")
seed(id="id_counter_race", prop="P09", libs=LIBC, needs="two threads generate an identifier between the same two increments, at equal clock readings",
  breaks="the counter is read and incremented in two steps, so two threads can get the same identifier",
  edits=[(C + "internal/unique-id.cc", "  hash[1] = std::hash<uint64_t>()(++counter);\n", "  ++counter;\n  hash[1] = std::hash<uint64_t>()(counter.load());\n")],
  demo=CH + r"""#include <atomic>
#include <set>
#include <thread>
#include <time.h>
#include <vector>
#include <aslam/common/internal/unique-id.h>
// a coarse clock: all threads see the same time
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
int main() {
  const int T = 8, N = 200000;
  std::vector<std::vector<std::pair<uint64_t, uint64_t>>> ids(T);
  std::atomic<int> go(0); std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ++go; while (go < T) {} for (int i = 0; i < N; ++i) { uint64_t h[2]; aslam::internal::generateUnique128BitHash(h); ids[t].push_back({h[0], h[1]}); } });
  for (auto& t : th) t.join();
  std::set<std::pair<uint64_t, uint64_t>> all;
  for (auto& v : ids) for (auto& p : v) CHK(all.insert(p).second);
  return 0;
}
""")
seed(id="id_greater_mixed", prop="P08", libs=LIBC, needs="two identifiers with equal first words", breaks="the greater-than comparison of identifiers with equal first words compares the first words again",
  edits=[(CI + "hash-id.h", "      return val_.u64[1] > other.val_.u64[1];", "      return val_.u64[0] > other.val_.u64[1];")],
  demo=CH + r"""#include <aslam/common/hash-id.h>
int main() {
  uint64_t a[2] = {5, 1}, b[2] = {5, 2}, c[2] = {5, 9};
  aslam::HashId x(a), y(b), z(c);
  CHK(y > x); CHK(!(x > y)); CHK(z > y); CHK(!(y > z)); CHK(!(x > x)); CHK((y > x) == (x < y));
  return 0;
}
""")
seed(id="id_hex_longer", prop="P07", libs=LIBC, needs="a text with more than 32 digits", breaks="texts longer than an identifier are accepted and cut off",
  edits=[(CI + "hash-id.h", "    if (hexString.size() != 2*sizeof(val_)){", "    if (hexString.size() < 2*sizeof(val_)){")],
  demo=CH + r"""#include <aslam/common/hash-id.h>
int main() {
  aslam::HashId id; std::string s(32, 'a');
  CHK(id.fromHexString(s)); aslam::HashId before = id;
  CHK(!id.fromHexString(std::string(34, 'b'))); CHK(id == before);
  CHK(!id.fromHexString(std::string(33, 'b'))); CHK(!id.fromHexString(std::string(30, 'b')));
  return 0;
}
""")
seed(id="pool_stop_empty_first", prop="P04", libs=LIBC, needs="a running task enqueues nothing, but tasks are still queued when the pool is destroyed and the only worker finishes a task",
  breaks="a worker that finishes a task after the pool was stopped leaves at once although tasks it alone could run are queued",
  edits=[(C + "thread-pool.cc", "    tasks_queue_change_.notify_all();\n  }\n}\n\nsize_t ThreadPool::numActive", """    tasks_queue_change_.notify_all();

    // No need to check the queue again if nothing but finished groups is left.
    if (this->stop_ && num_queued_nonexclusive_tasks == 0u &&
        group_id == kGroupdIdNonExclusiveTask) {
      return;
    }
  }
}

size_t ThreadPool::numActive""")], demo=CH + r"""#include <atomic>
#include <chrono>
#include <thread>
#include <aslam/common/thread-pool.h>
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
int main() {
  std::atomic<int> done(0);
  {
    aslam::ThreadPool pool(1);
    pool.enqueue([&] { ms(50); ++done; });
    pool.enqueueOrdered(3, [&] { ++done; });
    pool.enqueueOrdered(4, [&] { ++done; });
    ms(5);
  }
  CHK(done == 3);
  return 0;
}
""")
seed(id="pool_nested_snapshot", prop="P06", libs=LIBC, needs="a running task enqueues further work while another thread is already waiting for the queue to drain",
  breaks="waiting for an empty queue only looks at the queue again once no worker is active, and gives up the queue check after the first pass",
  edits=[(C + "thread-pool.cc", """  while (active_threads_ > 0u || groupid_tasks_.size() > 0u) {
    this->tasks_queue_change_.wait(lock);
  }
""", """  const size_t num_workers = workers_.size();
  while (groupid_tasks_.size() > 0u ||
         (active_threads_ > 0u && active_threads_ <= num_workers)) {
    this->tasks_queue_change_.wait(lock);
    if (groupid_tasks_.size() > 0u && active_threads_ == num_workers) {
      // All workers are busy: wait for the running tasks.
      const size_t num_queued = groupid_tasks_.size();
      while (groupid_tasks_.size() >= num_queued) {
        this->tasks_queue_change_.wait(lock);
      }
      if (num_queued == 1u) {
        break;
      }
    }
  }
""")], demo=CH + r"""#include <atomic>
#include <chrono>
#include <thread>
#include <aslam/common/thread-pool.h>
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
int main() {
  for (int round = 0; round < 10; ++round) {
    aslam::ThreadPool pool(1); std::atomic<int> done(0);
    pool.enqueue([&] { ms(20); pool.enqueue([&] { ms(20); ++done; }); ms(10); ++done; });
    ms(5);
    pool.waitForEmptyQueue();
    CHK(done == 2);
  }
  return 0;
}
""")
