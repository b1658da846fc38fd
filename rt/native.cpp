// Native replay runtime: runs one recorded path (inputs + schedule) of a
// harness against the natively compiled code of /repo.  All threads are real;
// a baton (raw futexes, invisible to the sanitizers) makes exactly one of them
// run at a time, in the recorded order.  Linked into an AddressSanitizer build
// (memory errors, aborts, assertions, deadlocks) and a ThreadSanitizer build
// (data races; happens-before edges of the program's own synchronisation are
// announced with __tsan_acquire/__tsan_release).
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <exception>
#include <fstream>
#include <map>
#include <mutex>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#ifdef SXN_TSAN
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#define ACQ(p) __tsan_acquire((void*)(p))
#define REL(p) __tsan_release((void*)(p))
#else
#define ACQ(p) ((void)0)
#define REL(p) ((void)0)
#endif

namespace {
struct Case {
  std::string entry; std::map<std::string, uint64_t> params, in; std::vector<std::pair<char, int>> sched; std::vector<uint64_t> obs;
};
Case* K; size_t decPos = 0; bool diverged = false; uint64_t now_ = 1000000000ull; size_t obsN = 0; bool obsDiff = false; bool runAtexit = false; int64_t expectLive = -1;
std::string* outPath;
void say(const char* f, ...) { char b[2048]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; ssize_t r = write(1, b, n); (void)r; }
[[noreturn]] void finish(const char* kind, const char* msg, int code) {
  say("SXN diverged=%d obs=%zu/%zu obsdiff=%d sched=%zu/%zu\n", diverged, obsN, K ? K->obs.size() : 0, obsDiff, decPos, K ? K->sched.size() : 0);
  say("SXN-RESULT %s %s\n", kind, msg);
  _exit(code);
}
[[noreturn]] void viol(const char* kind, const char* msg) { finish(kind, msg, 77); }

enum Pend { P_None, P_Start, P_Lock, P_Wake, P_Op, P_Join, P_Guard };
const int MAXT = 8;
struct Th { bool used, done, detached; Pend pend; uintptr_t pa, pm; bool signalled, timed, inWait; uint64_t deadline; int futex; std::map<std::string, unsigned>* vc; char doneTag; };
Th th[MAXT]; int nth = 1; int cur = 0;
std::map<uintptr_t, int>* owner;
thread_local int me = 0;

struct A { void* p; size_t n; int kind; };
std::atomic_flag alk = ATOMIC_FLAG_INIT; std::map<void*, std::pair<size_t, int>>* allocs; int64_t liveNew = 0; thread_local bool inAlloc = false; bool track = false;

struct Quiet { bool o; Quiet() : o(inAlloc) { inAlloc = true; } ~Quiet() { inAlloc = o; } };  // the runtime's own allocations are not counted
void own(uintptr_t m, int t) { Quiet q; (*owner)[m] = t; }
void disown(std::map<uintptr_t, int>::iterator i) { Quiet q; owner->erase(i); }
bool en(int t) {
  Th& T = th[t];
  if (!T.used || T.done) return false;
  switch (T.pend) {
    case P_Start: case P_Op: return true;
    case P_Lock: return !owner->count(T.pa);
    case P_Wake: return (T.signalled || T.timed || K->params.count("sx.spurious")) && !owner->count(T.pm);
    case P_Join: return th[T.pa].done;
    case P_Guard: return ((char*)T.pa)[1] == 0;
    default: return false;
  }
}
int alive() { int n = 0; for (int i = 0; i < nth; i++) n += !th[i].done; return n; }
void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_SEQ_CST); }
void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
void handTo(int t, bool exiting) {
  if (t == me) return;
  cur = t; fwake(&th[t].futex);
  if (!exiting) fwait(&th[me].futex);
}
void schedule(bool exiting = false) {
  int e[MAXT], n = 0; for (int t = 0; t < nth; t++) if (en(t)) e[n++] = t;
  if (!n) viol("deadlock", "every thread is blocked");
  int pick = -1;
  if (!diverged && decPos < K->sched.size()) {
    auto d = K->sched[decPos++];
    if (d.first == 's') for (int i = 0; i < n; i++) if (e[i] == d.second) pick = d.second;
    if (pick < 0) diverged = true;
  } else diverged = true;
  if (pick < 0) { pick = e[0]; for (int i = 0; i < n; i++) if (e[i] == me && !exiting) pick = me; if (pick != me || true) { static int rr = 0; (void)rr; } }
  handTo(pick, exiting);
}
void vis(Pend k, uintptr_t a) {
  Th& T = th[me]; T.pend = k; T.pa = a;
  if (alive() == 1 && en(me)) { T.pend = P_None; return; }
  schedule(); T.pend = P_None;
}
void threadDone() { Th& T = th[me]; REL(&T.doneTag); T.done = true; T.pend = P_None; schedule(true); }
struct Start { std::thread::_State* s; void* (*fn)(void*); void* arg; int tid; };
void* tramp(void* p) {
  Start st = *(Start*)p; { Quiet q; delete (Start*)p; } me = st.tid; fwait(&th[me].futex); th[me].pend = P_None;
  if (st.s) { st.s->_M_run(); delete st.s; } else st.fn(st.arg);
  threadDone(); return nullptr;
}
int spawn(std::thread::_State* s, void* (*fn)(void*), void* arg) {
  Quiet q;
  if (nth >= MAXT) viol("internal", "too many threads");
  int t = nth++; th[t].used = true; th[t].pend = P_Start; th[t].vc = new std::map<std::string, unsigned>;
  pthread_t pt; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  if (pthread_create(&pt, &at, tramp, new Start{s, fn, arg, t})) viol("internal", "pthread_create");
  return t;
}
std::string symName(const char* n) { return (me ? "t" + std::to_string(me) + ":" : std::string()) + n + "#" + std::to_string((*th[me].vc)[n]++); }
uint64_t input(const std::string& n) { auto i = K->in.find(n); return i == K->in.end() ? 0 : i->second; }
void onTerm() { viol("abort", "std::terminate"); }
void onSig(int s) { viol("signal", s == SIGABRT ? "SIGABRT" : s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGALRM ? "SIGALRM" : "signal"); }
}  // namespace

// ---------------------------------------------------------------- allocation
static void* sxAlloc(size_t n, int kind, bool nothrow) {
  if (n > (16u << 20)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = malloc(n ? n : 1);
  if (track && !inAlloc) {
    inAlloc = true; while (alk.test_and_set()) {}
    (*allocs)[p] = {n, kind}; liveNew++;
    alk.clear(); inAlloc = false;
  }
  return p;
}
static void sxFree(void* p, int kind) {
  if (!p) return;
  if (track && !inAlloc) {
    inAlloc = true; while (alk.test_and_set()) {}
    auto i = allocs->find(p); bool bad = false, mtx = false;
    if (i != allocs->end()) {
      bad = i->second.second != kind; liveNew--;
      for (auto& m : *owner) if (m.first >= (uintptr_t)p && m.first < (uintptr_t)p + i->second.first) mtx = true;
      allocs->erase(i);
    }
    alk.clear(); inAlloc = false;
    if (bad) viol("mismatch", "new/delete mismatch");
    if (mtx) viol("mutexdestroy", "a locked mutex is destroyed");
  }
  free(p);
}
void* operator new(size_t n) { return sxAlloc(n, 0, false); }
void* operator new[](size_t n) { return sxAlloc(n, 1, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sxAlloc(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sxAlloc(n, 1, true); }
void operator delete(void* p) noexcept { sxFree(p, 0); }
void operator delete[](void* p) noexcept { sxFree(p, 1); }
void operator delete(void* p, size_t) noexcept { sxFree(p, 0); }
void operator delete[](void* p, size_t) noexcept { sxFree(p, 1); }

// ---------------------------------------------------------------- harness interface
extern "C" {
uint64_t sx_sym(const char* name, unsigned bits) { Quiet q; uint64_t v = input(symName(name)); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sx_sym_bytes(void* p, size_t n, const char* name) { Quiet q; std::string f = symName(name); for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)input(f + "[" + std::to_string(i) + "]"); }
void sx_assume(bool c) { if (!c) finish("assume", "assumption does not hold", 78); }
void sx_assert(bool c, const char* m) { if (!c) viol("assert", m); }
void sx_assert_same(const void* a, const void* b, size_t n, const char* m) { if (memcmp(a, b, n)) viol("assert", m); }
void sx_fail(const char* m) { viol("assert", m); }
void sx_stop(void) { finish(obsDiff || obsN != K->obs.size() ? "pass-obsdiff" : "pass", "", 0); }
void sx_reach(const char*) {}
void sx_observe(uint64_t v) { if (getenv("SXN_VERBOSE")) say("obs %llu\n", (unsigned long long)v); if (obsN < 4096) { if (obsN >= K->obs.size() || K->obs[obsN] != v) { if (!obsDiff) say("SXN obs %zu is %llu, expected %llu\n", obsN, (unsigned long long)v, obsN < K->obs.size() ? (unsigned long long)K->obs[obsN] : 0ull); obsDiff = true; } obsN++; } }
uint64_t sx_param(const char* n, uint64_t d) { Quiet q; auto i = K->params.find(n); return i == K->params.end() ? d : i->second; }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_pick(uint64_t) { Quiet q; static unsigned n = 0; return input("pick#" + std::to_string(n++)); }
void sx_merge(void) {}
uint64_t sx_live(void) { return (uint64_t)liveNew; }
void sx_yield(void) { vis(P_Op, 0); }
uint64_t sx_threads(void) { return alive() - 1; }
uint64_t sx_tid(void) { return me; }
uint64_t sx_time(void) { return now_; }
void sx_advance_time(uint64_t ns) { now_ += ns; }
int sx_native(void) { return 1; }
void sx_run_atexit(void) { runAtexit = true; }
void sx_expect_live_at_exit(uint64_t n) { expectLive = (int64_t)n; }

// ---------------------------------------------------------------- synchronisation
int sxn_pthread_mutex_lock(pthread_mutex_t* m) { vis(P_Lock, (uintptr_t)m); own((uintptr_t)m, me); ACQ(m); return 0; }
int sxn_pthread_mutex_trylock(pthread_mutex_t* m) { vis(P_Op, (uintptr_t)m); if (owner->count((uintptr_t)m)) return EBUSY; own((uintptr_t)m, me); ACQ(m); return 0; }
int sxn_pthread_mutex_unlock(pthread_mutex_t* m) {
  auto i = owner->find((uintptr_t)m);
  if (i == owner->end()) viol("mutex", "unlock of a mutex that is not locked");
  if (i->second != me) viol("mutex", "unlock of a mutex locked by another thread");
  disown(i); REL(m); return 0;
}
int sxn_pthread_mutex_init(pthread_mutex_t*, const void*) { return 0; }
int sxn_pthread_mutex_destroy(pthread_mutex_t* m) { if (owner->count((uintptr_t)m)) viol("mutexdestroy", "a locked mutex is destroyed"); return 0; }
int sxn_pthread_cond_init(pthread_cond_t*, const void*) { return 0; }
int sxn_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, const struct timespec* ts) {
  vis(P_Op, (uintptr_t)c);
  auto i = owner->find((uintptr_t)m);
  if (i == owner->end() || i->second != me) viol("mutex", "condition wait without holding the mutex");
  disown(i); REL(m);
  Th& T = th[me]; T.inWait = true; T.signalled = false; T.timed = timed; T.deadline = timed ? (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec : 0; T.pend = P_Wake; T.pa = (uintptr_t)c; T.pm = (uintptr_t)m;
  schedule();
  T.inWait = false; T.pend = P_None; own((uintptr_t)m, me); ACQ(m);
  bool to = T.timed && !T.signalled;
  if (to && K->params.count("sx.spurious")) {
    if (!diverged && decPos < K->sched.size() && K->sched[decPos].first == 'w') { if (K->sched[decPos].second == 2) to = false; decPos++; } else diverged = true;
  }
  if (to && T.deadline > now_) now_ = T.deadline;
  T.signalled = false; T.timed = false;
  return to ? ETIMEDOUT : 0;
}
int sxn_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false, nullptr); }
int sxn_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return condWait(c, m, true, t); }
int sxn_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return condWait(c, m, true, t); }
static int condSignal(pthread_cond_t* c, bool all) {
  vis(P_Op, (uintptr_t)c);
  int w[MAXT], n = 0; for (int t = 0; t < nth; t++) if (th[t].inWait && th[t].pend == P_Wake && th[t].pa == (uintptr_t)c && !th[t].signalled) w[n++] = t;
  if (all) { for (int i = 0; i < n; i++) th[w[i]].signalled = true; return 0; }
  if (!n) return 0;
  int pick = w[0];
  if (n > 1) {
    bool ok = false;
    if (!diverged && decPos < K->sched.size()) { auto d = K->sched[decPos++]; if (d.first == 'n') for (int i = 0; i < n; i++) if (w[i] == d.second) { pick = w[i]; ok = true; } }
    if (!ok) diverged = true;
  }
  th[pick].signalled = true; return 0;
}
int sxn_pthread_cond_signal(pthread_cond_t* c) { return condSignal(c, false); }
int sxn_pthread_cond_broadcast(pthread_cond_t* c) { return condSignal(c, true); }
int sxn_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) { *t = spawn(nullptr, f, a) + 0x100; return 0; }
int sxn_pthread_join(pthread_t p, void**) {
  int t = (int)(p - 0x100); if (t < 0 || t >= nth) viol("thread", "join of an invalid thread");
  if (t == me) viol("thread", "a thread joins itself");
  if (th[t].detached) viol("thread", "join of a thread already joined or detached");
  vis(P_Join, t); th[t].detached = true; ACQ(&th[t].doneTag); return 0;
}
int sxn_pthread_detach(pthread_t p) { int t = (int)(p - 0x100); if (t >= 0 && t < nth) th[t].detached = true; return 0; }
pthread_t sxn_pthread_self(void) { return me + 0x100; }
int sxn_sched_yield(void) { vis(P_Op, 0); return 0; }
int sxn_nanosleep(const struct timespec* t, struct timespec*) { now_ += t->tv_sec * 1000000000ull + t->tv_nsec; vis(P_Op, 0); return 0; }
int sxn_usleep(unsigned us) { now_ += us * 1000ull; vis(P_Op, 0); return 0; }
int sxn___cxa_guard_acquire(char* g) {
  if (g[0]) { ACQ(g); return 0; }
  if (g[1] == me + 1) viol("abort", "recursive initialisation of a local static");
  vis(P_Guard, (uintptr_t)g); ACQ(g);
  if (g[0]) return 0;
  g[1] = (char)(me + 1); return 1;
}
void sxn___cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; REL(g); }
void sxn___cxa_guard_abort(char* g) { g[1] = 0; }
void __sx_atomic_point(int k) { if (!K) return; unsigned lvl = (unsigned)sx_param("sx.atomics", 1); if (nth > 1 && (lvl >= 2 || (lvl == 1 && k == 1))) vis(P_Op, 0); }
}

namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) { int t = spawn(s.release(), nullptr, nullptr); *(pthread_t*)&_M_id = t + 0x100; }
void thread::join() { sxn_pthread_join(*(pthread_t*)&_M_id, nullptr); _M_id = id(); }
void thread::detach() { sxn_pthread_detach(*(pthread_t*)&_M_id); _M_id = id(); }
void condition_variable::notify_one() noexcept { sxn_pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { sxn_pthread_cond_broadcast(native_handle()); }
void condition_variable::wait(unique_lock<mutex>& l) { sxn_pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)now_)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)now_)); }
} }
namespace this_thread {
void __sleep_for(chrono::seconds s, chrono::nanoseconds ns) { now_ += s.count() * 1000000000ull + ns.count(); vis(P_Op, 0); }
}
}  // namespace std

static void lastExit() {
  if (expectLive >= 0 && liveNew != expectLive) viol("assert", "memory still allocated after static destruction");
  finish(obsDiff || obsN != K->obs.size() ? "pass-obsdiff" : "pass", "", 0);
}
static void early() __attribute__((constructor(101)));
static void early() {
  inAlloc = true;
  allocs = new std::map<void*, std::pair<size_t, int>>; owner = new std::map<uintptr_t, int>;
  th[0].used = true; th[0].vc = new std::map<std::string, unsigned>;
  K = new Case;
  std::string a = getenv("SXN_CASE") ? getenv("SXN_CASE") : "";
  std::ifstream f(a); std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "harness") is >> K->entry;
    else if (k == "param") { std::string n; uint64_t v; is >> n >> v; K->params[n] = v; }
    else if (k == "in") { std::string n; uint64_t v; is >> n >> v; K->in[n] = v; }
    else if (k == "obs") { uint64_t v; is >> v; K->obs.push_back(v); }
    else if (k == "sched") { std::string s; while (is >> s) K->sched.push_back({s[0], atoi(s.c_str() + 1)}); }
  }
  std::set_terminate(onTerm);
  signal(SIGABRT, onSig); signal(SIGFPE, onSig); signal(SIGPIPE, SIG_DFL);
  atexit(lastExit);
  inAlloc = false; track = true;
}
int main() {
  auto f = (void (*)())dlsym(RTLD_DEFAULT, K->entry.c_str());
  if (!f) finish("internal", "no such entry", 79);
  f();
  if (runAtexit) exit(0);
  finish(obsDiff || obsN != K->obs.size() ? "pass-obsdiff" : "pass", "", 0);
}
