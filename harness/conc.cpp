// C06 pipe, C07 Chan, C08 RWMutex, C09 future/promise: every interleaving, symbolic payloads.
#include "streams.h"
#include "chan.h"
#include "rwmutex.h"
#include "dap/future.h"
#include "dap/io.h"
#include <atomic>
#include <chrono>
#include <thread>

typedef std::atomic<int> AInt;
static int ld(const AInt& a) { return a.load(std::memory_order_relaxed); }
static void st(AInt& a, int v) { a.store(v, std::memory_order_relaxed); }
static int inc(AInt& a) { return a.fetch_add(1, std::memory_order_relaxed); }

// ---------------------------------------------------------------- C06 pipe
// One thread, every split of the same bytes into writes and reads.
extern "C" void h_pipe_seq() {
  auto p = dap::pipe();
  size_t n = sx_param("n", 6);
  std::string w = symString(n, "w");
  sx_assert(p->isOpen(), "a new pipe is open");
  size_t wr = 0, rd = 0;
  std::string got;
  while (rd < n) {
    sx_merge();
    size_t k = 0;
    if (wr < n) k = sx_pick(n - wr + 1);  // 0: write nothing this time
    if (k || wr == rd) {
      sx_assert(p->write(w.data() + wr, k), "writing to an open pipe succeeds");
      wr += k;
      if (wr == rd) { k = n - wr; sx_assert(p->write(w.data() + wr, k), "writing to an open pipe succeeds"); wr += k; }
    }
    size_t r = 1 + sx_pick(wr - rd);
    std::string b(r + 1, 'x');
    sx_assert(p->read(&b[0], r) == r, "a read that can be satisfied returns every byte asked for");
    sx_assert(b[r] == 'x', "a read stores only the bytes asked for");
    sx_assert_same(b.data(), w.data() + rd, r, "bytes are read in the order written");
    rd += r;
  }
  p->close();
  sx_assert(!p->isOpen(), "closed pipe is not open");
  char c;
  sx_assert(!p->write("z", 1), "writing to a closed pipe fails");
  sx_assert(p->read(&c, 1) == 0, "reading from a closed empty pipe returns 0");
  sx_reach("pipe sequence");
}
// Sizes around the chunking of the queue, some symbolic bytes.
extern "C" void h_pipe_big() {
  static const size_t sz[] = {1, 15, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2049};
  auto p = dap::pipe();
  size_t a = sz[sx_pick(11)], b = sz[sx_pick(11)];
  std::string w(a + b, '-');
  for (size_t i = 0; i < w.size(); i++) w[i] = static_cast<char>(i * 7 + i / 256);
  size_t at[] = {0, a - 1, a, a + b - 1, (a + b) / 2, 511, 512};
  for (size_t i : at) if (i < w.size()) sx_sym_bytes(&w[i], 1, "w");
  sx_assert(p->write(w.data(), a), "write");
  size_t r1 = 1 + (a - 1) / 2;
  std::string g(a + b, 0);
  sx_assert(p->read(&g[0], r1) == r1, "read");
  sx_assert(p->write(w.data() + a, b), "write");
  sx_assert(p->read(&g[r1], a + b - r1) == a + b - r1, "read");
  assertSame(g, w, "long transfers keep every byte in order");
  sx_reach("pipe big");
}
// Much data, in one write or many.
extern "C" void h_pipe_many() {
  auto p = dap::pipe();
  size_t n = 70000, step[] = {70000, 65536, 4096, 300};
  size_t ws = step[sx_pick(4)], rs = step[sx_pick(4)];
  std::string w(n, '-'), g(n, 0);
  for (size_t i = 0; i < n; i++) w[i] = static_cast<char>(i * 7 + i / 256);
  size_t at[] = {0, 299, 300, 4095, 4096, 32768, 65535, 65536, n - 1};
  for (size_t i : at) sx_sym_bytes(&w[i], 1, "w");
  for (size_t i = 0; i < n; i += ws) sx_assert(p->write(w.data() + i, std::min(ws, n - i)), "write");
  for (size_t i = 0; i < n;) { size_t k = p->read(&g[i], std::min(rs, n - i)); sx_assert(k > 0, "bytes written can be read"); i += k; }
  assertSame(g, w, "long transfers keep every byte in order");
  sx_reach("pipe many");
}
// A reader and two writers; every schedule; bytes form an interleaving of whole writes.
extern "C" void h_pipe_conc() {
  auto p = dap::pipe();
  unsigned k1 = sx_param("k1", 2), k2 = sx_param("k2", 1), rdsz = sx_param("r", 0);
  std::string a[2], b[2];
  for (unsigned i = 0; i < k1; i++) a[i] = symString(2 - i, "a");
  for (unsigned i = 0; i < k2; i++) b[i] = symString(2, "b");
  size_t total = 0;
  for (unsigned i = 0; i < k1; i++) total += a[i].size();
  for (unsigned i = 0; i < k2; i++) total += b[i].size();
  std::string got(total, 0);
  std::thread r([&] {
    size_t at = 0;
    while (at < total) {
      size_t n = rdsz ? std::min<size_t>(rdsz, total - at) : total;
      sx_assert(p->read(&got[at], n) == n, "a read on an open pipe returns the bytes asked for");
      at += n;
    }
  });
  std::thread w1([&] { for (unsigned i = 0; i < k1; i++) sx_assert(p->write(a[i].data(), a[i].size()), "write to an open pipe"); });
  for (unsigned i = 0; i < k2; i++) sx_assert(p->write(b[i].data(), b[i].size()), "write to an open pipe");
  w1.join();
  r.join();
  // all merges of a[] and b[] that keep each writer's order
  unsigned n = k1 + k2;
  bool any = false;
  for (unsigned m = 0; m < (1u << n); m++) {
    if (__builtin_popcount(m) != static_cast<int>(k1)) continue;
    std::string e;
    unsigned ia = 0, ib = 0;
    for (unsigned j = 0; j < n; j++) e += (m >> j & 1) ? a[ia++] : b[ib++];
    any |= sameStr(e, got);
  }
  sx_assert(any, "bytes read are the whole writes, each contiguous, in some order that keeps each writer's order");
  sx_reach("pipe concurrent");
}
// Two large writes at the same time, the reader taking them in pieces.
extern "C" void h_pipe_conc_big() {
  static const size_t sz[] = {300, 2049, 5000};
  auto p = dap::pipe();
  size_t n1 = sz[sx_param("s1", 1)], n2 = sz[sx_param("s2", 0)];
  std::string a(n1, 'a'), b(n2, 'b');
  for (size_t i : {size_t(0), n1 / 2, n1 - 1}) sx_sym_bytes(&a[i], 1, "a");
  for (size_t i : {size_t(0), n2 - 1}) sx_sym_bytes(&b[i], 1, "b");
  std::string got(n1 + n2, 0);
  std::thread r([&] {
    size_t k = n1 / 2 + 1;
    sx_assert(p->read(&got[0], k) == k, "a read on an open pipe returns the bytes asked for");
    sx_assert(p->read(&got[k], n1 + n2 - k) == n1 + n2 - k, "a read on an open pipe returns the bytes asked for");
  });
  std::thread w1([&] { sx_assert(p->write(a.data(), n1), "write to an open pipe"); });
  sx_assert(p->write(b.data(), n2), "write to an open pipe");
  w1.join();
  r.join();
  sx_assert(sameStr(got, a + b) | sameStr(got, b + a), "large concurrent writes stay contiguous");
  sx_reach("pipe concurrent");
}
// close() against a blocked reader and a writer
extern "C" void h_pipe_close() {
  auto p = dap::pipe();
  std::string w = symString(3, "w");
  size_t got = 99;
  bool ok1 = false, ok2 = false;
  std::string g(3, '?');
  std::thread r([&] { got = p->read(&g[0], 3); });
  std::thread wt([&] { ok1 = p->write(w.data(), 2); ok2 = p->write(w.data() + 2, 1); });
  p->close();
  sx_assert(!p->isOpen(), "closed");
  sx_assert(!p->write("q", 1), "write after close fails");
  wt.join();
  r.join();
  sx_assert(got <= 3u, "read count bounded");
  sx_assert(ok1 || !ok2, "no write succeeds after one failed because of close");
  sx_assert(got <= (ok1 ? 2u : 0u) + (ok2 ? 1u : 0u), "only bytes written are read");
  sx_assert_same(g.data(), w.data(), got, "bytes read before the close are a prefix of those written");
  for (size_t i = got; i < 3; i++) sx_assert(g[i] == '?', "no byte beyond the count is stored");
  char c;
  size_t n = p->read(&c, 1);
  sx_assert(n <= 1, "reads after close do not block");
  if (got == 3) sx_reach("read before close");
  if (got == 0) sx_reach("closed before read");
}

// Several readers blocked (or about to) when the pipe closes.
extern "C" void h_pipe_readers() {
  auto p = dap::pipe();
  unsigned R = static_cast<unsigned>(sx_param("R", 2));
  size_t got[3] = {9, 9, 9};
  char buf[3][2] = {};
  std::string w = symString(1, "w");
  std::vector<std::thread> ts;
  for (unsigned j = 0; j < R; j++) ts.emplace_back([&, j] { got[j] = p->read(buf[j], 2); });
  if (sx_param("write", 0)) sx_assert(p->write(w.data(), 1), "write before close");
  p->close();
  for (auto& t : ts) t.join();
  size_t n = 0;
  for (unsigned j = 0; j < R; j++) {
    sx_assert(got[j] <= 1, "a closed pipe ends every read with what it had");
    if (got[j] == 1) { n++; sx_assert(buf[j][0] == w[0], "only bytes written are read"); }
  }
  sx_assert(n <= (sx_param("write", 0) ? 1u : 0u), "each byte is read once");
  sx_assert(!p->isOpen(), "closed");
  sx_reach("readers ended");
}

// ---------------------------------------------------------------- C07 Chan
struct Item { int id = -1; std::string s; };
struct Ev { int put0 = -1, put1 = -1, take0 = -1, take1 = -1; int taken = 0; };
struct ChanRun {
  dap::Chan<Item> ch;
  AInt clock{1};
  Ev ev[8];
  std::string val[8];
  int ends0[8], ends1[8];
  AInt ends{0};
  AInt close0{0}, close1{0};
  void mk(int i, size_t n) { val[i] = symString(n, "item"); }
  void put(int i) {
    Item it;
    it.id = i;
    it.s = val[i];
    ev[i].put0 = inc(clock);
    if (i & 1) ch.put(it); else ch.put(std::move(it));
    ev[i].put1 = inc(clock);
    if (i & 1) assertSame(it.s, val[i], "putting by reference leaves the source alone");
  }
  bool take() {
    int t0 = inc(clock);
    dap::optional<Item> r = ch.take();
    int t1 = inc(clock);
    if (!r.has_value()) { int e = inc(ends); ends0[e] = t0; ends1[e] = t1; return false; }
    int id = r.value().id;
    sx_assert(id >= 0 && id < 8, "an item taken was put");
    ev[id].taken++;
    ev[id].take0 = t0;
    ev[id].take1 = t1;
    assertSame(r.value().s, val[id], "an item is taken unchanged");
    return true;
  }
  void close() { st(close0, inc(clock)); ch.close(); st(close1, inc(clock)); }
  // all n items were put, none is left in the channel
  void check(int n) {
    for (int i = 0; i < n; i++) {
      sx_assert(ev[i].taken == 1, "every item is taken exactly once");
      sx_assert(ev[i].put0 < ev[i].take1, "an item is taken only after it was put");
      for (int j = 0; j < n; j++)
        sx_assert(!(ev[i].put1 < ev[j].put0 && ev[j].take1 < ev[i].take0), "items are taken in the order in which they were put");
    }
    for (int e = 0; e < ld(ends); e++) {
      sx_assert(ld(close0) && ld(close0) < ends1[e], "take() reports the end only after close");
      for (int i = 0; i < n; i++)
        sx_assert(!(ev[i].put1 < ends0[e] && ends1[e] < ev[i].take0), "take() reports the end only once the channel is empty");
    }
  }
};
extern "C" void h_chan_put_take() {  // P putters x K items, T takers sharing them
  unsigned P = sx_param("P", 2), K = sx_param("K", 1), T = sx_param("T", 1), n = P * K;
  ChanRun c;
  for (unsigned i = 0; i < n; i++) c.mk(i, 1 + i % 2);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < T; t++) th.emplace_back([&c, t, T, n] { for (unsigned i = t; i < n; i += T) sx_assert(c.take(), "take() on an open channel yields an item"); });
  for (unsigned p = 1; p < P; p++) th.emplace_back([&c, p, K] { for (unsigned i = 0; i < K; i++) c.put(p * K + i); });
  for (unsigned i = 0; i < K; i++) c.put(i);
  for (auto& t : th) t.join();
  c.check(n);
  sx_reach("all taken");
}
extern "C" void h_chan_close() {  // takers run to the end; close after (order=0) or against (1) the puts
  unsigned T = sx_param("T", 2), n = sx_param("n", 2), order = sx_param("order", 0);
  ChanRun c;
  for (unsigned i = 0; i < n; i++) c.mk(i, 1);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < T; t++) th.emplace_back([&c] { while (c.take()) {} });
  if (order == 0) { for (unsigned i = 0; i < n; i++) c.put(i); c.close(); for (auto& t : th) t.join(); c.check(n); }
  else {
    std::thread cl([&c] { c.close(); });
    for (unsigned i = 0; i < n; i++) c.put(i);
    cl.join();
    for (auto& t : th) t.join();
    while (c.take()) {}
    int m = 0;
    for (unsigned i = 0; i < n; i++) {
      sx_assert(c.ev[i].taken <= 1, "no item is taken twice");
      m += c.ev[i].taken;
      if (c.ev[i].put1 < ld(c.close0)) sx_assert(c.ev[i].taken == 1, "an item put before the close is delivered");
    }
    if (m == static_cast<int>(n)) c.check(n);
  }
  sx_assert(!c.take(), "after the end, take() keeps reporting the end");
  sx_reach("ended");
}
extern "C" void h_chan_seq() {  // one thread, any sequence of operations
  unsigned steps = sx_param("n", 6);
  dap::Chan<Item> ch;
  std::vector<std::string> q;
  size_t at = 0;
  bool closed = false;
  for (unsigned s = 0; s < steps; s++) {
    switch (sx_pick(5)) {
      case 0: case 1: {
        Item it; it.id = s; it.s = symString(2, "i");
        if (!closed) q.push_back(it.s);
        else continue;  // putting after close: not specified
        if (s & 1) ch.put(it); else ch.put(std::move(it));
        break;
      }
      case 2: {
        if (at == q.size() && !closed) continue;  // would block
        auto r = ch.take();
        sx_assert(r.has_value() == (at < q.size()), "take() yields an item while there is one");
        if (r.has_value()) { assertSame(r.value().s, q[at], "items come in order"); at++; }
        break;
      }
      case 3: ch.close(); closed = true; break;
      case 4: ch.reset(); closed = false; q.clear(); at = 0; break;
    }
  }
  sx_reach("sequence");
}

extern "C" void h_chan_many() {  // a queue of many items
  unsigned n = sx_param("n", 1500);
  dap::Chan<uint64_t> ch;
  uint64_t v = sx_sym("v", 64);
  for (unsigned i = 0; i < n; i++) ch.put(v + i);
  if (sx_pick(2)) ch.close();
  for (unsigned i = 0; i < n; i++) { auto r = ch.take(); sx_assert(r.has_value() && r.value() == v + i, "every item is delivered, in order"); }
  sx_reach("many");
}
extern "C" void h_chan_reset() {  // reset() empties and reopens, also next to other threads
  unsigned how = sx_param("how", 0);
  dap::Chan<Item> ch;
  Item old; old.id = 7; old.s = "old";
  Item it; it.id = 1; it.s = symString(2, "i");
  if (how == 0) {  // reopened, a taker waits for the next item
    if (sx_pick(2)) ch.put(old);
    if (sx_pick(2)) ch.close();
    ch.reset();
    std::thread t([&] { auto r = ch.take(); sx_assert(r.has_value(), "a reset channel is open"); assertSame(r.value().s, it.s, "a reset channel is empty"); });
    ch.put(it);
    t.join();
  } else {  // concurrent with a put: the item is either dropped or kept
    std::thread t([&] { ch.put(it); });
    ch.reset();
    t.join();
    ch.close();
    auto r = ch.take();
    if (r.has_value()) { assertSame(r.value().s, it.s, "the item put"); sx_assert(!ch.take().has_value(), "once"); }
  }
  sx_reach("reset");
}

// ---------------------------------------------------------------- C08 RWMutex
struct RW8 {
  dap::RWMutex m;
  AInt readers{0}, writers{0}, maxr{0};
  const uint32_t start = static_cast<uint32_t>(sx_sym("start", 32)), step = static_cast<uint32_t>(sx_sym("step", 32));  // arbitrary
  uint32_t shared = start;  // protected by m; raced on if the lock fails
  void rd() {
    dap::RLock l(m);
    inc(readers);
    sx_assert(ld(writers) == 0, "no writer while reading");
    uint32_t v = shared;
    sx_yield();
    sx_assert(ld(writers) == 0, "no writer while reading");
    sx_assert(v == shared, "protected data does not change while reading");
    if (ld(readers) > 1) sx_reach("shared reading");
    readers.fetch_sub(1, std::memory_order_relaxed);
  }
  void wr() {
    dap::WLock l(m);
    sx_assert(inc(writers) == 0, "one writer at a time");
    sx_assert(ld(readers) == 0, "no reader while writing");
    uint32_t v = shared;
    sx_yield();
    shared = v * 3 + step;
    sx_assert(ld(readers) == 0, "no reader while writing");
    writers.fetch_sub(1, std::memory_order_relaxed);
  }
};
extern "C" void h_rw() {  // a string of per-thread programs: R readers, W writers, each `n` times
  unsigned R = sx_param("R", 2), W = sx_param("W", 1), n = sx_param("n", 1), mix = sx_param("mix", 0);
  RW8 x;
  std::vector<std::thread> th;
  for (unsigned i = 0; i < R; i++) th.emplace_back([&x, n, mix, i] { for (unsigned k = 0; k < n; k++) { x.rd(); if (mix && i == 0) x.wr(); } });
  for (unsigned i = 1; i < W; i++) th.emplace_back([&x, n] { for (unsigned k = 0; k < n; k++) x.wr(); });
  if (W) for (unsigned k = 0; k < n; k++) x.wr();
  for (auto& t : th) t.join();
  uint32_t p = 1, q = 0;  // after k sections: start * 3^k + step * (3^k - 1) / 2
  for (unsigned k = 0; k < W * n + (mix && R ? n : 0); k++) { p *= 3; q = q * 3 + 1; }
  uint32_t want = x.start * p + x.step * q;
  { dap::WLock l(x.m); sx_assert(x.shared == want, "every write section ran exactly once"); }
  sx_reach("all granted");
}
extern "C" void h_rw_many() {  // many read locks at once
  unsigned n = sx_param("n", 260);
  dap::RWMutex m;
  AInt held{0};
  std::vector<std::unique_ptr<dap::RLock>> l;
  for (unsigned i = 0; i < n; i++) { l.emplace_back(new dap::RLock(m)); inc(held); }
  std::thread t([&] { dap::WLock w(m); sx_assert(ld(held) == 0, "no reader while writing"); sx_reach("written"); });
  for (unsigned i = 0; i < n; i++) { held.fetch_sub(1, std::memory_order_relaxed); l.pop_back(); }
  t.join();
  sx_reach("many");
}
extern "C" void h_rw_together() {  // two readers each wait until both hold the lock
  dap::RWMutex m;
  std::mutex bm;
  std::condition_variable bc;
  int in = 0;
  auto body = [&] {
    dap::RLock l(m);
    std::unique_lock<std::mutex> g(bm);
    in++;
    bc.notify_all();
    bc.wait(g, [&] { return in == 2; });
  };
  std::thread a(body), b(body);
  a.join();
  b.join();
  dap::WLock w(m);
  sx_reach("together");
}
// Guards: any sequence of moves over a few guards and two mutexes, then all released.
template <typename L>
static void guards(unsigned steps, bool writer) {
  dap::RWMutex m[2];
  {
    std::unique_ptr<L> g[3];
    bool held[2] = {false, false};
    int own[3] = {-1, -1, -1};
    for (unsigned s = 0; s < steps; s++) {
      sx_merge();
      unsigned op = sx_pick(4), i = sx_pick(3), j = sx_pick(3);
      if (op == 0) {  // lock into an empty slot
        unsigned k = j & 1;
        if (g[i] || (writer && held[k])) continue;
        g[i].reset(new L(m[k]));
        own[i] = k;
        held[k] = true;
      } else if (op == 1) {  // move construct
        if (i == j || g[i] || !g[j]) continue;
        g[i].reset(new L(std::move(*g[j])));
        own[i] = own[j];
        own[j] = -1;
      } else if (op == 2) {  // move assign
        if (!g[i] || !g[j]) continue;
        L& from = *g[j];
        *g[i] = std::move(from);
        if (i != j) { own[i] = own[j]; own[j] = -1; }
      } else {
        g[i].reset();
        own[i] = -1;
      }
      for (int k = 0; k < 2; k++) held[k] = own[0] == k || own[1] == k || own[2] == k;
      // a mutex no guard owns is free: locking it for writing from here must not block
      for (int k = 0; k < 2; k++) if (!held[k]) { m[k].lockWriter(); m[k].unlockWriter(); }
      // a mutex some guard owns is held: a writer cannot get it (checked by a second thread below)
      for (int k = 0; k < 2; k++) if (held[k] && s + 1 == steps) {
        AInt got{0};
        std::thread t([&] { m[k].lockWriter(); st(got, 1); m[k].unlockWriter(); });
        sx_yield();
        sx_assert(ld(got) == 0, "a lock moved between guards stays held");
        for (auto& x : g) x.reset();
        for (int& o : own) o = -1;
        t.join();
        held[0] = held[1] = false;
      }
    }
  }
  for (auto& x : m) { x.lockWriter(); x.unlockWriter(); }
  sx_reach("guards");
}
extern "C" void h_rw_rguards() { guards<dap::RLock>(sx_param("n", 4), false); }
extern "C" void h_rw_wguards() { guards<dap::WLock>(sx_param("n", 4), true); }

// ---------------------------------------------------------------- C09 future/promise
struct Val { uint64_t a = 1; std::string s; };
struct Fut {
  Val v;
  AInt begun{0}, done{0};
  uint64_t tset = 0;
  Fut() { v.a = sx_sym("a", 64); v.s = symString(2, "s"); }
  void set(const dap::promise<Val>& p, bool move) {
    Val c = v;
    sx_yield();  // waiters may run before
    st(begun, 1);
    if (move) p.set_value(std::move(c)); else p.set_value(c);
    tset = sx_time();
    st(done, 1);
  }
  void same(const Val& r) { sx_assert(ld(begun) == 1, "get() returns only after the value was set"); sx_assert(r.a == v.a, "get() returns the value set"); assertSame(r.s, v.s, "get() returns the value set"); }
};
extern "C" void h_future() {  // W waiters of kinds picked by parameter, one setter
  unsigned W = sx_param("W", 2), kinds = sx_param("kinds", 0), move = sx_param("move", 0);
  Fut f;
  uint64_t to = 0;
  dap::future_status stt[4];
  uint64_t dl[4];
  std::vector<std::thread> th;
  {
    dap::promise<Val> p;
    for (unsigned i = 0; i < W; i++) {
      unsigned k = kinds >> (4 * i) & 15;
      std::shared_ptr<dap::future<Val>> fu(new dap::future<Val>(p.get_future()));
      dl[i] = 0;
      stt[i] = dap::future_status::ready;
      if (k >= 2) { to = sx_range("timeout_ms", 0, 2); }
      th.emplace_back([&f, &stt, &dl, i, k, to, fu] {
        sx_assert(fu->valid(), "a future from a promise is valid");
        if (k == 0) f.same(fu->get());
        else if (k == 1) { fu->wait(); sx_assert(ld(f.begun) == 1, "wait() returns only after the value was set"); f.same(fu->get()); }
        else if (k == 2) {
          dl[i] = sx_time() + to * 1000000;
          stt[i] = fu->wait_for(std::chrono::milliseconds(to));
          if (stt[i] == dap::future_status::ready) { sx_assert(ld(f.begun) == 1, "ready only after the value was set"); sx_reach("ready"); }
          else { sx_reach("timeout"); sx_assert(sx_time() >= dl[i], "a timeout is reported only when the time is up"); }
          f.same(fu->get());
        } else {
          auto t = std::chrono::steady_clock::now() + std::chrono::milliseconds(to);
          dl[i] = sx_time() + to * 1000000;
          stt[i] = fu->wait_until(t);
          if (stt[i] == dap::future_status::ready) { sx_assert(ld(f.begun) == 1, "ready only after the value was set"); sx_reach("ready"); }
          else { sx_reach("timeout"); sx_assert(sx_time() >= dl[i], "a timeout is reported only when the time is up"); }
          f.same(fu->get());
        }
      });
    }
    dap::promise<Val> q(p);  // a copy shares the state
    if (sx_param("kill", 0)) { dap::promise<Val> r(std::move(p)); f.set(r, move); }
    else f.set(q, move);
  }
  for (auto& t : th) t.join();
  for (unsigned i = 0; i < W; i++)
    if (dl[i] && f.tset < dl[i]) sx_assert(stt[i] == dap::future_status::ready, "a value set before the deadline is reported as ready");
  sx_reach("all woken");
}
extern "C" void h_future_seq() {  // one thread
  Fut f;
  dap::promise<Val> p;
  dap::future<Val> a = p.get_future();
  dap::future<Val> b = p.get_future();
  static const uint64_t mss[] = {0, 1, 2, 999, 1000, 1001, 59999, 60000};
  uint64_t ms = mss[sx_pick(8)];
  uint64_t t0 = sx_time();
  sx_assert(a.wait_for(std::chrono::milliseconds(ms)) == dap::future_status::timeout, "no value: timeout");
  sx_assert(sx_time() >= t0 + ms * 1000000, "the whole timeout is waited for");
  t0 = sx_time();
  sx_assert(b.wait_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(ms)) == dap::future_status::timeout, "no value: timeout");
  sx_assert(sx_time() >= t0 + ms * 1000000, "the whole timeout is waited for");
  f.set(p, sx_bool("mv"));
  t0 = sx_time();
  sx_assert(a.wait_for(std::chrono::milliseconds(ms)) == dap::future_status::ready, "value set: ready");
  sx_assert(b.wait_until(std::chrono::steady_clock::now()) == dap::future_status::ready, "value set: ready");
  a.wait();
  dap::promise<Val> q(p);  // copies share the state also when the value is set
  f.same(q.get_future().get());
  f.same(p.get_future().get());
  sx_assert(p.get_future().wait_for(std::chrono::milliseconds(0)) == dap::future_status::ready, "a future taken later is ready");
  dap::promise<Val> r(std::move(q));
  f.same(r.get_future().get());
  dap::future<Val> c(std::move(a));
  sx_assert(c.valid() && !a.valid(), "moving a future moves its state");
  f.same(c.get());
  f.same(b.get());
  f.same(c.get());
  sx_assert(sx_time() == t0, "a set value is returned without waiting");
  sx_reach("seq");
}
