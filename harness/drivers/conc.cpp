// Concurrent helpers under a scheduler that owns every lock, condition and
// thread of the process: one thread runs at a time and every operation on a
// lock, condition or thread is a point where another may go on.  Waits with a
// time limit may end at any point.  When nothing can go on the run hangs.
//
//   t K op args          add an operation to thread K (0: the main one)
//   run STRAT seed       do it all in a process of its own, under one schedule (any number of times)
//
// queue:  new | start n | sched j y child | fut j y throw | get j | stop | join | empty | wait | del
// mutex:  mnew M rec | lock M | trylock M | tlock M | unlock M | wunlock M | locks M | cnew C | cwait C M | ctwait C M | signal C | bcast C
// thread: tnew cycle(-1 0 inf) y | tstart | tint | tint0 | twait | tbusy | texists | ttrig | tdel
// any:    spawn K | reap K | yield n
#include "vt.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <random>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <sm_boost/JobQueue.hpp>
#include "aslam_incremental_calibration/base/Condition.h"
#include "aslam_incremental_calibration/base/Mutex.h"
#include "aslam_incremental_calibration/base/Thread.h"
#include "aslam_incremental_calibration/base/Threads.h"
#include "aslam_incremental_calibration/base/Timer.h"
#include "aslam_incremental_calibration/exceptions/InvalidOperationException.h"
using namespace vt;
namespace ac = aslam::calibration;

// ---------------------------------------------------------------- scheduler
namespace sch {
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
struct Th {
  int id; sem_t sem; bool done = false; const void* on = 0; int kind = 0; bool timed = false, out = false; int prio = 0;
  pthread_t pt; void* (*fn)(void*); void* arg;
};
enum { Free, Lock, Cond, Join };
bool active = false;
std::vector<Th*> all;
thread_local Th* me = 0;
struct Mx { Th* owner = 0; int n = 0; };
std::map<const void*, Mx>* mxs;
std::pair<const char*, const char*> dead[64];
int nDead = 0;
bool deadAccess = false;
std::mt19937 rng;
std::string strat = "rand";
int points = 0;
std::vector<int> changes;

void hang();
bool runnable(Th* t) {
  if (t->done) return false;
  if (t->kind == Free) return true;
  if (t->kind == Lock) return (*mxs)[t->on].owner == 0;
  if (t->kind == Join) return ((Th*)t->on)->done;
  return false;
}
Th* choose() {
  ++points;
  if (points > 60000) hang();
  std::vector<Th*> v, w;
  for (Th* t : all) { if (runnable(t)) v.push_back(t); else if (!t->done && t->kind == Cond && t->timed) w.push_back(t); }
  if (v.empty() || (!w.empty() && rng() % 16 == 0)) {
    if (w.empty()) return 0;
    Th* t = w[rng() % w.size()];
    t->kind = Free;
    t->out = true;
    return t;
  }
  bool fair = strat == "rand" || points > 3000;
  if (!fair && strat[0] == 'p') {  // priorities, lowered at a few random points
    if (me && std::count(changes.begin(), changes.end(), points)) me->prio = -points;
    return *std::max_element(v.begin(), v.end(), [](Th* a, Th* b) { return a->prio < b->prio; });
  }
  if (!fair && me && !me->done && std::count(v.begin(), v.end(), me) && rng() % 16) return me;  // "slow": few switches
  return v[rng() % v.size()];
}
void point() {  // another thread may go on; returns when this one may
  Th* t = choose();
  if (!t) hang();
  if (t == me) return;
  sem_post(&t->sem);
  if (me->done) return;
  while (sem_wait(&me->sem)) {}
}
void check(const void* p) { for (int i = 0; i < nDead; ++i) if ((const char*)p >= dead[i].first && (const char*)p < dead[i].second) deadAccess = true; }
void block(int kind, const void* on) { me->kind = kind; me->on = on; point(); me->kind = Free; }
int lock(const void* m) {
  check(m);
  point();
  Mx& x = (*mxs)[m];
  if (x.owner == me) { ++x.n; return 0; }
  while ((*mxs)[m].owner) block(Lock, m);
  (*mxs)[m].owner = me;
  (*mxs)[m].n = 1;
  return 0;
}
int unlock(const void* m) {
  check(m);
  Mx& x = (*mxs)[m];
  if (x.owner == me && --x.n == 0) x.owner = 0;
  point();
  return 0;
}
int wait(const void* c, const void* m, bool timed) {
  check(c);
  check(m);
  Mx& x = (*mxs)[m];
  int n = x.n;
  x.owner = 0;
  x.n = 0;
  me->timed = timed;
  me->out = false;
  block(Cond, c);
  me->timed = false;
  while ((*mxs)[m].owner) block(Lock, m);
  (*mxs)[m].owner = me;
  (*mxs)[m].n = n;
  return me->out ? ETIMEDOUT : 0;
}
int wake(const void* c, bool everyone) {
  check(c);
  std::vector<Th*> v;
  for (Th* t : all) if (!t->done && t->kind == Cond && t->on == c) v.push_back(t);
  if (everyone) for (Th* t : v) t->kind = Free;
  else if (!v.empty()) v[rng() % v.size()]->kind = Free;
  point();
  return 0;
}
void* body(void* p) {
  me = (Th*)p;
  while (sem_wait(&me->sem)) {}
  void* r = me->fn(me->arg);
  return r;
}
void finish(void*) {
  if (!active || !me) return;
  me->done = true;
  Th* t = choose();
  if (t) sem_post(&t->sem); else hang();
}
pthread_key_t key;
int rounds(void* p) { return 0; }
// thread-specific data is destroyed after everything else of a thread that uses locks: come back a few times
void last(void* p) { long n = (long)p; if (n > 1) pthread_setspecific(key, (void*)(n - 1)); else finish(0); }
void* trampoline(void* p) { pthread_setspecific(key, (void*)3); return body(p); }
int create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  Th* t = new Th;
  t->id = all.size();
  t->fn = fn;
  t->arg = arg;
  t->prio = rng() % 1000;
  sem_init(&t->sem, 0, 0);
  all.push_back(t);
  int r = f(&t->pt, a, trampoline, t);
  *out = t->pt;
  point();
  return r;
}
int join(pthread_t p, void** r) {
  static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
  for (Th* t : all) if (pthread_equal(t->pt, p) && t != all[0]) { if (!t->done) block(Join, t); }
  return f(p, r);
}
}  // namespace sch

#define THROUGH(name, type, ...) { static auto f = sch::real<type>(name); return f(__VA_ARGS__); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept(true) { if (sch::active && sch::me) return sch::lock(m); THROUGH("pthread_mutex_lock", int (*)(pthread_mutex_t*), m) }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept(true) {
  if (sch::active && sch::me) { sch::check(m); sch::point(); if ((*sch::mxs)[m].owner) return EBUSY; (*sch::mxs)[m].owner = sch::me; (*sch::mxs)[m].n = 1; return 0; }
  THROUGH("pthread_mutex_trylock", int (*)(pthread_mutex_t*), m)
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(true) { if (sch::active && sch::me) return sch::unlock(m); THROUGH("pthread_mutex_unlock", int (*)(pthread_mutex_t*), m) }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept(true) {
  if (sch::active && sch::me) { bool busy = (*sch::mxs)[m].owner; sch::mxs->erase(m); return busy ? EBUSY : 0; }
  THROUGH("pthread_mutex_destroy", int (*)(pthread_mutex_t*), m)
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (sch::active && sch::me) return sch::wait(c, m, false); THROUGH("pthread_cond_wait", int (*)(pthread_cond_t*, pthread_mutex_t*), c, m) }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (sch::active && sch::me) return sch::wait(c, m, true); THROUGH("pthread_cond_timedwait", int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*), c, m, t) }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (sch::active && sch::me) return sch::wait(c, m, true); THROUGH("pthread_cond_clockwait", int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*), c, m, k, t) }
int pthread_cond_signal(pthread_cond_t* c) noexcept(true) { if (sch::active && sch::me) return sch::wake(c, false); THROUGH("pthread_cond_signal", int (*)(pthread_cond_t*), c) }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept(true) { if (sch::active && sch::me) return sch::wake(c, true); THROUGH("pthread_cond_broadcast", int (*)(pthread_cond_t*), c) }
int pthread_cond_destroy(pthread_cond_t* c) noexcept(true) { if (sch::active && sch::me) return 0; THROUGH("pthread_cond_destroy", int (*)(pthread_cond_t*), c) }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept(true) { if (sch::active && sch::me) return sch::create(p, a, fn, arg); THROUGH("pthread_create", int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*), p, a, fn, arg) }
int pthread_join(pthread_t p, void** r) { if (sch::active && sch::me) return sch::join(p, r); THROUGH("pthread_join", int (*)(pthread_t, void**), p, r) }
int nanosleep(const struct timespec* t, struct timespec* r) { if (sch::active && sch::me) { sch::point(); return 0; } THROUGH("nanosleep", int (*)(const struct timespec*, struct timespec*), t, r) }
}

// ---------------------------------------------------------------- scenario
struct Stmt { std::string f; std::vector<std::string> a; };
std::map<int, std::vector<Stmt>> prog;
std::map<int, pthread_t> clients;
sm::JobQueue* Q = 0;
std::map<int, boost::unique_future<int>> futs;
std::map<std::string, std::unique_ptr<ac::Mutex>> M;
std::map<std::string, std::unique_ptr<ac::Condition>> C;
thread_local int K = -1;
int calls = 0;
std::string text;
void put(const std::string& s) { text += s + "\n"; }
void flush() { size_t n = 0; while (n < text.size()) { ssize_t k = write(1, text.data() + n, text.size() - n); if (k <= 0) break; n += k; } text.clear(); }
int tid() { return sch::me ? sch::me->id : -1; }
void yields(int n) { for (; n > 0; --n) sch::point(); }
void* clientMain(void* p);
int working() { int n = 0; for (auto t : sch::all) if (!t->done && t->id && t->fn != clientMain) ++n; return n; }
void end(const char* how) { put(std::string("{\"op\":\"end\",\"how\":\"") + how + "\",\"dead\":" + (sch::deadAccess ? "true" : "false") + ",\"points\":" + std::to_string(sch::points) + "}"); flush(); _exit(0); }
void sch::hang() {
  if (getenv("CONC_DEBUG")) for (auto t : all) fprintf(stderr, "thread %d done %d kind %d on %p owner %d\n", t->id, t->done, t->kind, t->on, t->kind == Lock && (*mxs)[t->on].owner ? (*mxs)[t->on].owner->id : -1);
  end(points > 60000 ? "livelock" : "hang");
}

struct Tx : ac::Thread {
  int y;
  Tx(double c, int y) : Thread(c), y(y) {}
  void process() override { put("{\"op\":\"pb\",\"t\":" + std::to_string(tid()) + "}"); yields(y); put("{\"op\":\"pe\",\"t\":" + std::to_string(tid()) + "}"); }
};
Tx* X = 0;

void job(int j, int y, int child) {
  put("{\"op\":\"jb\",\"j\":" + std::to_string(j) + ",\"t\":" + std::to_string(tid()) + "}");
  yields(y);
  if (child) {
    put("{\"op\":\"call\",\"k\":" + std::to_string(100 + j) + ",\"f\":\"sched\",\"j\":" + std::to_string(child) + ",\"m\":\"\",\"a\":0}");
    Q->scheduleWork(boost::bind(&job, child, 1, 0));
    put("{\"op\":\"ret\",\"k\":" + std::to_string(100 + j) + ",\"f\":\"sched\",\"j\":" + std::to_string(child) + ",\"m\":\"\",\"a\":0,\"r\":0,\"ex\":\"\",\"live\":0}");
  }
  put("{\"op\":\"je\",\"j\":" + std::to_string(j) + ",\"t\":" + std::to_string(tid()) + "}");
}
int fjob(int j, int y, int thr) {
  job(j, y, 0);
  if (thr) throw std::runtime_error("job");
  return 1000 + j;
}
void client(int k);
void* clientMain(void* p) { client((int)(long)p); return 0; }
void client(int k) {
  K = k;
  for (Stmt& s : prog[k]) {
    auto arg = [&](size_t i) { return i < s.a.size() ? std::stoi(s.a[i]) : 0; };
    auto name = [&](size_t i) { return i < s.a.size() ? s.a[i] : std::string(); };
    const std::string& f = s.f;
    int j = (f == "sched" || f == "fut" || f == "get" || f == "start" || f == "spawn" || f == "reap") ? arg(0) : 0;
    bool named = f == "mnew" || f == "lock" || f == "trylock" || f == "tlock" || f == "unlock" || f == "wunlock" || f == "locks" || f == "cnew" || f == "cwait" || f == "ctwait" || f == "signal" || f == "bcast";
    std::string head = ",\"k\":" + std::to_string(k) + ",\"f\":\"" + f + "\",\"j\":" + std::to_string(j) + ",\"m\":\"" + (named ? name(f == "cwait" || f == "ctwait" ? 1 : 0) : "") + "\",\"a\":" + std::to_string(f == "mnew" ? arg(1) : f == "tnew" ? (name(0) == "inf" ? 1 : arg(0)) : f == "fut" ? arg(2) : 0);
    put("{\"op\":\"call\"" + head + "}");
    int r = 0;
    std::string ex;
    try {
      if (f == "new") Q = new sm::JobQueue;
      else if (f == "start") Q->start(j);
      else if (f == "sched") Q->scheduleWork(boost::bind(&job, j, arg(1), arg(2)));
      else if (f == "fut") { boost::function<int()> w = boost::bind(&fjob, j, arg(1), arg(2)); Q->scheduleFuture(w, futs[j]); }
      else if (f == "get") r = futs[j].get();
      else if (f == "stop") Q->stop();
      else if (f == "join") Q->join();
      else if (f == "empty") r = Q->empty();
      else if (f == "wait") Q->waitForEmptyQueue();
      else if (f == "del") { const char* p = (const char*)Q; Q->~JobQueue(); sch::dead[sch::nDead++] = {p, p + sizeof *Q}; Q = 0; }
      else if (f == "spawn") { sch::Th* before = sch::all.back(); (void)before; pthread_create(&clients[j], 0, clientMain, (void*)(long)j); }
      else if (f == "reap") pthread_join(clients[j], 0);
      else if (f == "yield") yields(arg(0));
      else if (f == "mnew") M[name(0)].reset(new ac::Mutex(arg(1)));
      else if (f == "lock") r = M[name(0)]->lock();
      else if (f == "trylock") r = M[name(0)]->tryLock();
      else if (f == "tlock") r = M[name(0)]->lock(1000.);
      else if (f == "unlock") M[name(0)]->unlock();
      else if (f == "wunlock") r = M[name(0)]->waitUnlock();
      else if (f == "locks") r = M[name(0)]->getNumLocks() * 2 + M[name(0)]->isLocked();
      else if (f == "cnew") C[name(0)].reset(new ac::Condition);
      else if (f == "cwait") r = C[name(0)]->wait(*M[name(1)]);
      else if (f == "ctwait") r = C[name(0)]->wait(*M[name(1)], 1000.);
      else if (f == "signal") C[name(0)]->signal();
      else if (f == "bcast") C[name(0)]->signal(ac::Condition::broadcast);
      else if (f == "tnew") X = new Tx(name(0) == "inf" ? ac::Timer::eternal() : arg(0), arg(1));
      else if (f == "tstart") r = X->start();
      else if (f == "tint") r = X->interrupt();
      else if (f == "tint0") r = X->interrupt(0.);
      else if (f == "twait") r = X->wait();
      else if (f == "tbusy") r = X->isBusy();
      else if (f == "texists") r = X->exists();
      else if (f == "ttrig") X->getTrigger().signal();
      else if (f == "tdel") { const char* p = (const char*)X; X->~Tx(); sch::dead[sch::nDead++] = {p, p + sizeof *X}; X = 0; }
      else ex = "unknown";
    } catch (const ac::InvalidOperationException&) { ex = "invalid"; }
    catch (const std::exception&) { ex = "other"; }
    put("{\"op\":\"ret\"" + head + ",\"r\":" + std::to_string(r) + ",\"ex\":\"" + ex + "\",\"live\":" + std::to_string(working()) + "}");
  }
}
void crashed(int) { text += "{\"op\":\"end\",\"how\":\"crash\",\"dead\":false,\"points\":0}\n"; flush(); _exit(0); }

int main(int argc, char** argv) {
  pthread_key_create(&sch::key, sch::last);
  return run(argc, argv, [&](Line& l) {
    if (l.op == "begin") { prog.clear(); Out("begin").s("id", l.rest()); return; }
    if (l.op == "t") {
      int k = l.i();
      Stmt s;
      s.f = l.w();
      std::istringstream in(l.rest());
      std::string w;
      while (in >> w) s.a.push_back(w);
      prog[k].push_back(s);
      return;
    }
    std::string st = l.w();
    int seed = l.i();
    std::cout.flush();
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      signal(SIGSEGV, crashed);
      signal(SIGABRT, crashed);
      signal(SIGALRM, crashed);
      alarm(20);
      if (const char* o = getenv("CONC_OUT")) { int fd = open(o, O_WRONLY | O_APPEND); dup2(fd, 1); }
      sch::mxs = new std::map<const void*, sch::Mx>;
      sch::rng.seed(seed);
      sch::strat = st;
      for (int i = 0; i < 3; ++i) sch::changes.push_back(sch::rng() % 60);
      for (int i = 0; i < 2; ++i) sch::changes.push_back(sch::rng() % 300);
      sch::Th* t = new sch::Th;
      t->id = 0;
      t->prio = sch::rng() % 1000;
      t->pt = pthread_self();
      sem_init(&t->sem, 0, 0);
      sch::all.push_back(t);
      sch::me = t;
      sch::active = true;
      put("{\"op\":\"run\",\"strat\":\"" + st + "\",\"seed\":" + std::to_string(seed) + "}");
      client(0);
      sch::strat = "rand";  // what is left goes on for a while: it must not touch what is gone
      for (int i = 0; i < 500; ++i) { bool left = false; for (auto t : sch::all) left = left || (t != sch::me && sch::runnable(t)); if (!left) break; sch::point(); }
      end("ok");
    }
    int rc;
    waitpid(p, &rc, 0);
  });
}
