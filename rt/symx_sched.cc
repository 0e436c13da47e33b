// Deterministic replay of a recorded schedule on the native build: the pthread
// entry points are interposed by a cooperative scheduler with the same
// scheduling points as the executor; "sched SEQ KIND A B" lines say what
// happened at the points where there was a choice.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <future>
#include <map>
#include <vector>
namespace {
enum St { Run, Lock, Cond, CondTimed, Join, Futex, Settle, Done };
struct Th { St st = Run; void* addr = nullptr; void* mtx = nullptr; unsigned val = 0; int join = -1; bool timeout = false; sem_t sem; pthread_t h; };
struct Mtx { int owner = -1; int count = 0; };
struct Ev { char kind; int a, b; };
std::vector<Th*> th;
std::map<void*, Mtx>* mtx;
std::multimap<unsigned, Ev>* log_;
int cur = 0; unsigned seq = 0; bool active = false; bool lost = false;
__thread int me = 0;
void say(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
void init() {
  if (!th.empty()) return;
  Th* t = new Th; sem_init(&t->sem, 0, 0); th.push_back(t);
  mtx = new std::map<void*, Mtx>; log_ = new std::multimap<unsigned, Ev>;
  if (const char* f = getenv("SYMX_CEX")) if (FILE* fp = fopen(f, "r")) {
    char line[4096]; unsigned q; char k; int a, b;
    while (fgets(line, sizeof line, fp)) if (sscanf(line, "sched %u %c %d %d", &q, &k, &a, &b) == 4) log_->insert({q, Ev{k, a, b}});
    fclose(fp);
  }
}
bool logged(char kind, Ev* e) {
  auto r = log_->equal_range(seq);
  for (auto i = r.first; i != r.second; ++i) if (i->second.kind == kind) { *e = i->second; return true; }
  return false;
}
bool enabled(int i) {
  Th& t = *th[i];
  switch (t.st) {
    case Run: return true;
    case Lock: { auto it = mtx->find(t.addr); return it == mtx->end() || it->second.owner < 0; }
    case Cond: return false;
    case CondTimed: return true;
    case Join: return th[t.join]->st == Done;
    case Futex: return __atomic_load_n((unsigned*)t.addr, __ATOMIC_SEQ_CST) != t.val;
    case Settle: for (size_t j = 0; j < th.size(); j++) if ((int)j != i && th[j]->st != Settle && enabled(j)) return false; return true;
    case Done: return false;
  }
  return false;
}
void activate(int i) {
  Th& t = *th[i];
  cur = i;
  if (t.st == Lock || t.st == Join || t.st == Futex || t.st == Settle) t.st = Run;
  else if (t.st == CondTimed) { t.st = Run; t.timeout = true; }
}
void handOver(int to, bool exiting) {
  int from = me;
  activate(to);
  if (to == from) return;
  sem_post(&th[to]->sem);
  if (!exiting) while (sem_wait(&th[from]->sem) != 0) {}
}
void switchAway(bool exiting = false) {
  seq++;
  std::vector<int> en;
  for (size_t i = 0; i < th.size(); i++) if (enabled(i)) en.push_back(i);
  if (en.empty()) { say("SYMX-VIOLATION deadlock\n"); _exit(77); }
  Ev e; int to = en[0];
  if (logged('S', &e)) { to = e.b; if (to >= (int)th.size() || !enabled(to)) { say("SYMX-SCHEDULE-LOST\n"); lost = true; to = en[0]; } }
  handOver(to, exiting);
}
void schedPoint() {
  if (th.size() < 2) return;
  seq++;
  Ev e;
  if (logged('P', &e)) {
    if (e.b < (int)th.size() && e.b != me && enabled(e.b)) handOver(e.b, false);
    else { say("SYMX-SCHEDULE-LOST\n"); lost = true; }
  }
}
struct Start { void* (*f)(void*); void* p; int id; };
void* threadMain(void* q) {
  Start s = *(Start*)q; delete (Start*)q;
  me = s.id;
  while (sem_wait(&th[me]->sem) != 0) {}
  void* r = s.f(s.p);
  th[me]->st = Done;
  switchAway(true);
  return r;
}
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}  // namespace
extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* p) {
  init();
  static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  Th* t = new Th; sem_init(&t->sem, 0, 0);
  int id = th.size(); th.push_back(t);
  int r = rc(&t->h, a, &threadMain, new Start{f, p, id});
  *h = t->h; return r;
}
int pthread_join(pthread_t h, void** ret) {
  init();
  static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
  int j = -1;
  for (size_t i = 1; i < th.size(); i++) if (pthread_equal(th[i]->h, h)) j = i;
  if (j >= 0) while (th[j]->st != Done) { th[me]->st = Join; th[me]->join = j; switchAway(); }
  return rj(h, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  init(); schedPoint();
  for (;;) {
    Mtx& x = (*mtx)[m];
    if (x.owner == me) {
      if (m->__data.__kind == 1) { x.count++; return 0; }
      say("SYMX-VIOLATION deadlock\n"); _exit(77);
    }
    if (x.owner < 0) { x.owner = me; x.count = 1; return 0; }
    th[me]->st = Lock; th[me]->addr = m; switchAway();
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  init(); schedPoint();
  Mtx& x = (*mtx)[m];
  if (x.owner >= 0) return EBUSY;
  x.owner = me; x.count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  init();
  Mtx& x = (*mtx)[m];
  if (x.owner != me) { say("SYMX-VIOLATION unlock-not-owner\n"); _exit(77); }
  if (--x.count == 0) x.owner = -1;
  return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  init();
  Mtx& x = (*mtx)[m];
  if (x.owner != me) { say("SYMX-VIOLATION wait-without-lock\n"); _exit(77); }
  Th& t = *th[me];
  seq++;
  Ev e;
  x.owner = -1; x.count = 0; t.timeout = false;
  if (logged('X', &e)) { t.st = Lock; t.addr = m; }
  else { t.st = timed ? CondTimed : Cond; t.addr = c; t.mtx = m; }
  switchAway();
  for (;;) {
    Mtx& y = (*mtx)[m];
    if (y.owner < 0) { y.owner = me; y.count = 1; break; }
    t.st = Lock; t.addr = m; switchAway();
  }
  bool to = t.timeout; t.timeout = false;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c, m, true); }
static void wakeUp(int i) { Th& t = *th[i]; t.st = Lock; t.addr = t.mtx; }
int pthread_cond_signal(pthread_cond_t* c) {
  init(); schedPoint(); seq++;
  std::vector<int> ws;
  for (size_t i = 0; i < th.size(); i++) if ((th[i]->st == Cond || th[i]->st == CondTimed) && th[i]->addr == c) ws.push_back(i);
  if (ws.empty()) return 0;
  Ev e; int w = ws[0];
  if (logged('W', &e)) { w = e.b; bool ok = false; for (int k : ws) ok |= k == w; if (!ok) { say("SYMX-SCHEDULE-LOST\n"); lost = true; w = ws[0]; } }
  wakeUp(w);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  init(); schedPoint();
  for (size_t i = 0; i < th.size(); i++) if ((th[i]->st == Cond || th[i]->st == CondTimed) && th[i]->addr == c) wakeUp(i);
  return 0;
}
static pthread_mutex_t onceM = PTHREAD_MUTEX_INITIALIZER;
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  pthread_mutex_lock(&onceM);
  bool run = *(int*)o == 0; if (run) *(int*)o = 1;
  pthread_mutex_unlock(&onceM);
  if (run) f();
  return 0;
}
int sched_yield(void) { init(); schedPoint(); return 0; }
int usleep(useconds_t) { init(); schedPoint(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { init(); schedPoint(); return 0; }
void symx_yield(void) { init(); schedPoint(); }
void symx_settle(void) {
  init();
  bool any = false; for (size_t i = 0; i < th.size(); i++) if ((int)i != me && enabled(i)) any = true;
  while (any) {
    th[me]->st = Settle; switchAway();
    any = false; for (size_t i = 0; i < th.size(); i++) if ((int)i != me && enabled(i)) any = true;
  }
}
int symx_others_enabled(void) { init(); int n = 0; for (size_t i = 0; i < th.size(); i++) if ((int)i != me && enabled(i)) n++; return n; }
int symx_num_blocked(void) { init(); int n = 0; for (auto t : th) if (t->st != Run && t->st != Done) n++; return n; }
int symx_thread_id(void) { return me; }
void symx_block_until(unsigned* p) { init(); schedPoint(); while (*p == 0) { th[me]->st = Futex; th[me]->addr = p; th[me]->val = 0; switchAway(); } }
}
static void futexWait(unsigned* a, unsigned v) {
  init();
  while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) { th[me]->st = Futex; th[me]->addr = a; th[me]->val = v; switchAway(); }
}
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { futexWait(a, v); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { futexWait(a, v); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
}
