// C10 any/variant, C11 optional, C15 type information.
#include "streams.h"
#include "dap/dap.h"
#include "dap/protocol.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include <thread>
#include <new>

namespace dap {
struct Fit { integer a = 1; string s; };               // 40 bytes: on the heap
struct Small24 { integer a = 1, b = 2, c = 3; };       // in the buffer
struct Full32 { integer a = 1, b = 2, c = 3, d = 4; }; // exactly the buffer
struct Odd33 { char c[33] = {}; boolean b; };          // just beyond it
struct alignas(16) Al16 { integer a = 5; integer b = 6; };
struct alignas(32) Al32 { integer a = 7; string s; };
DAP_STRUCT_TYPEINFO(Fit, "fit", DAP_FIELD(a, "a"), DAP_FIELD(s, "s"));
DAP_STRUCT_TYPEINFO(Small24, "small24", DAP_FIELD(a, "a"));
DAP_STRUCT_TYPEINFO(Full32, "full32", DAP_FIELD(a, "a"));
DAP_STRUCT_TYPEINFO(Odd33, "odd33", DAP_FIELD(b, "b"));
DAP_STRUCT_TYPEINFO(Al16, "al16", DAP_FIELD(a, "a"));
DAP_STRUCT_TYPEINFO(Al32, "al32", DAP_FIELD(a, "a"));
}  // namespace dap
using namespace dap;

enum { kNull, kBool, kInt, kNum, kStr, kLong, kArr, kObj, kAnyArr, kFit, kSmall, kFull, kOdd, kAl16, kAl32, kKinds };
// A value of kind k determined by the number v; mk puts it into a fresh T, chk compares.
template <typename T> struct Mk;
static double dbl(uint32_t v) { return static_cast<double>(static_cast<int32_t>(v)); }
static boolean mkBool(uint32_t v) { return boolean((v & 1) != 0); }
static string mkStr(uint32_t v) { string s(3, 0); s[0] = static_cast<char>(v); s[1] = static_cast<char>(v >> 8); s[2] = static_cast<char>(v >> 16); return s; }
static string mkLong(uint32_t v) { return mkStr(v) + "-longer than the small string buffer"; }
static array<integer> mkArr(uint32_t v) { array<integer> a; a.push_back(integer(v)); a.push_back(integer(~static_cast<int64_t>(v))); return a; }
static Fit mkFit(uint32_t v) { Fit f; f.a = v; f.s = mkLong(v); return f; }
static Small24 mkSmall(uint32_t v) { Small24 f; f.a = v; f.b = v + 1ll; f.c = -static_cast<int64_t>(v); return f; }
static Full32 mkFull(uint32_t v) { Full32 f; f.a = v; f.b = v + 1ll; f.c = -static_cast<int64_t>(v); f.d = v ^ 5; return f; }
static Odd33 mkOdd(uint32_t v) { Odd33 f; f.c[0] = static_cast<char>(v); f.c[32] = static_cast<char>(v >> 8); f.b = (v & 1) != 0; return f; }
static Al16 mkAl16(uint32_t v) { Al16 f; f.a = v; f.b = v ^ 9; return f; }
static Al32 mkAl32(uint32_t v) { Al32 f; f.a = v; f.s = mkLong(v); return f; }
static array<any> mkAnyArr(uint32_t v) { array<any> a; a.push_back(any(integer(v))); a.push_back(any(mkLong(v))); return a; }
static object mkObj(uint32_t v) { object o; o["k"] = mkLong(v); return o; }

template <typename A> static void put(A& a, int k, uint32_t v) {
  switch (k) {
    case kBool: a = mkBool(v); break;
    case kInt: a = integer(v); break;
    case kNum: a = number(dbl(v & 1)); break;
    case kStr: a = mkStr(v); break;
    case kLong: a = mkLong(v); break;
    case kArr: a = mkArr(v); break;
    case kObj: a = mkObj(v); break;
    case kAnyArr: a = mkAnyArr(v); break;
    case kFit: a = mkFit(v); break;
    case kSmall: a = mkSmall(v); break;
    case kFull: a = mkFull(v); break;
    case kOdd: a = mkOdd(v); break;
    case kAl16: a = mkAl16(v); break;
    case kAl32: a = mkAl32(v); break;
  }
}
#define SAME(c) sx_assert((c), "get() returns the value put in")
template <typename A> static void same(const A& a, int k, uint32_t v) {
  bool t[] = {a.template is<boolean>(), a.template is<integer>(), a.template is<number>(), a.template is<string>(), a.template is<array<integer>>(), a.template is<object>(), a.template is<array<any>>(),
              a.template is<Fit>(), a.template is<Small24>(), a.template is<Full32>(), a.template is<Odd33>(), a.template is<Al16>(), a.template is<Al32>()};
  static const int idx[kKinds] = {-1, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
  for (int i = 0; i < 13; i++) sx_assert(t[i] == (i == idx[k]), "is<T>() is true for the stored type only");
  switch (k) {
    case kBool: SAME(a.template get<boolean>() == ((v & 1) != 0)); break;
    case kInt: SAME(a.template get<integer>() == static_cast<int64_t>(v)); break;
    case kNum: SAME(a.template get<number>() == dbl(v & 1)); break;
    case kStr: assertSame(a.template get<string>(), mkStr(v), "get() returns the value put in"); break;
    case kLong: assertSame(a.template get<string>(), mkLong(v), "get() returns the value put in"); break;
    case kArr: { auto& r = a.template get<array<integer>>(); SAME(r.size() == 2 && r[0] == static_cast<int64_t>(v) && r[1] == ~static_cast<int64_t>(v)); break; }
    case kObj: { auto& o = a.template get<object>(); SAME(o.size() == 1 && o.count("k") == 1); assertSame(o["k"].template get<string>(), mkLong(v), "get() returns the value put in"); break; }
    case kAnyArr: { auto& r = a.template get<array<any>>(); SAME(r.size() == 2 && r[0].template get<integer>() == static_cast<int64_t>(v)); assertSame(r[1].template get<string>(), mkLong(v), "get() returns the value put in"); break; }
    case kFit: { auto& r = a.template get<Fit>(); SAME(r.a == static_cast<int64_t>(v)); assertSame(r.s, mkLong(v), "get() returns the value put in"); break; }
    case kSmall: { auto& r = a.template get<Small24>(); SAME(r.a == static_cast<int64_t>(v) && r.b == v + 1ll && r.c == -static_cast<int64_t>(v)); break; }
    case kFull: { auto& r = a.template get<Full32>(); SAME(r.a == static_cast<int64_t>(v) && r.b == v + 1ll && r.c == -static_cast<int64_t>(v) && r.d == static_cast<int64_t>(v ^ 5)); break; }
    case kOdd: { auto& r = a.template get<Odd33>(); SAME(r.c[0] == static_cast<char>(v) && r.c[32] == static_cast<char>(v >> 8) && r.b == ((v & 1) != 0)); break; }
    case kAl16: { auto& r = a.template get<Al16>(); SAME(reinterpret_cast<uintptr_t>(&r) % 16 == 0); SAME(r.a == static_cast<int64_t>(v) && r.b == static_cast<int64_t>(v ^ 9)); break; }
    case kAl32: { auto& r = a.template get<Al32>(); SAME(reinterpret_cast<uintptr_t>(&r) % 32 == 0); SAME(r.a == static_cast<int64_t>(v)); assertSame(r.s, mkLong(v), "get() returns the value put in"); break; }
  }
}
static void emptyAny(const any& a) { sx_assert(a.is<null>(), "an empty or moved-from any holds null"); same(a, kNull, 0); }
static void scribble(any& a, int k, uint32_t v) {  // change the stored value through get()
  switch (k) {
    case kInt: a.get<integer>() = integer(v); break;
    case kLong: case kStr: a.get<string>() = "scribbled over, with a long text"; break;
    case kArr: a.get<array<integer>>().clear(); break;
    case kObj: a.get<object>()["k"] = integer(3); break;
    case kAnyArr: a.get<array<any>>()[1] = integer(3); break;
    case kFit: a.get<Fit>().s = "changed"; break;
    case kFull: a.get<Full32>().d = 77; break;
    default: break;
  }
}
static void warm() { any a; for (int k = 1; k < kKinds; k++) { put(a, k, 1); same(a, k, 1); } same(a, kAl32, 1); (void)TypeOf<null>::type(); }

struct Slot { any* a; int k; uint32_t v; };
static void op(Slot* s, unsigned n, unsigned kinds, const int* ks) {
  unsigned o = sx_pick(9), i = sx_pick(n);
  Slot& x = s[i];
  switch (o) {
    case 0: { int k = ks[sx_pick(kinds)]; uint32_t v = sx_sym("v", 32); put(*x.a, k, v); x.k = k; x.v = v; break; }
    case 1: x.a->reset(); x.k = kNull; break;
    case 2: *x.a = nullptr; x.k = kNull; break;
    case 3: { Slot& y = s[sx_pick(n)]; const any& r = *y.a; *x.a = r; x.k = y.k; x.v = y.v; break; }          // copy assign, self included
    case 4: {                                                                                               // move assign, self included
      Slot& y = s[sx_pick(n)];
      any& r = *y.a;
      *x.a = std::move(r);
      if (&x != &y) { x.k = y.k; x.v = y.v; y.k = kNull; emptyAny(*y.a); }
      else if (x.a->is<null>()) x.k = kNull;  // self-move may empty it
      break;
    }
    case 5: { Slot& y = s[sx_pick(n)]; any* c = new any(*y.a); delete x.a; x.a = c; if (&x != &y) { x.k = y.k; x.v = y.v; } break; }  // copy construct
    case 6: {                                                                                               // move construct
      Slot& y = s[sx_pick(n)];
      any* c = new any(std::move(*y.a));
      emptyAny(*y.a);
      int k = y.k; uint32_t v = y.v;
      y.k = kNull;
      delete x.a;
      x.a = c; x.k = k; x.v = v;
      break;
    }
    case 7: { Slot& y = s[sx_pick(n)]; if (&x == &y || y.k == kNull) break; any c(*y.a); scribble(c, y.k, 9); same(c.is<null>() ? *y.a : *y.a, y.k, y.v); break; }  // a copy is independent
    case 8: { Slot& y = s[sx_pick(n)]; array<any> v; v.push_back(*y.a); v.push_back(std::move(v[0])); v.push_back(any(integer(1))); v.erase(v.begin()); *x.a = v[0]; x.k = y.k; x.v = y.v; break; }  // through a growing vector
  }
  for (unsigned j = 0; j < n; j++) { same(*s[j].a, s[j].k, s[j].v); if (s[j].k == kNull) emptyAny(*s[j].a); }
}
extern "C" void h_any() {
  unsigned steps = sx_param("n", 2), N = sx_param("slots", 2), set = sx_param("set", 0);
  static const int sets[4][6] = {{kInt, kLong, kFit, kArr, kFull, kObj}, {kBool, kNum, kStr, kSmall, kOdd, kAnyArr}, {kAl16, kAl32, kFull, kOdd, kFit, kInt}, {kLong, kObj, kAnyArr, kFit, kOdd, kAl32}};
  const int* ks = sets[set];
  unsigned nk = 6;
  warm();
  uint64_t base = sx_live();
  {
    Slot s[3];
    for (unsigned i = 0; i < N; i++) {
      s[i].a = new any;
      s[i].k = kNull;
      s[i].v = 0;
      emptyAny(*s[i].a);
      unsigned p = sx_pick(nk + 1);
      if (p < nk) { s[i].k = ks[p]; s[i].v = sx_sym("v", 32); if (i & 1) put(*s[i].a, s[i].k, s[i].v); else { delete s[i].a; any t; put(t, s[i].k, s[i].v); s[i].a = new any(t); } }
      same(*s[i].a, s[i].k, s[i].v);
    }
    for (unsigned i = 0; i < steps; i++) { sx_merge(); op(s, N, nk, ks); }
    for (unsigned i = 0; i < N; i++) delete s[i].a;
  }
  sx_assert(sx_live() == base, "every stored value's memory is released");
  sx_reach("any");
}
// Types of every size around the container's inline storage, and every alignment.
template <size_t N, size_t A> struct alignas(A) Sz { boolean b; char c[N > 1 ? N - 1 : 1]; };
template <size_t A> struct alignas(A) Sz<1, A> { boolean b; };
#define SIZES(X) \
  X(1, 1) X(2, 1) X(3, 1) X(7, 1) X(8, 1) X(9, 1) X(15, 1) X(16, 1) X(17, 1) X(23, 1) X(24, 1) X(25, 1) X(29, 1) X(30, 1) X(31, 1) X(32, 1) X(33, 1) X(34, 1) X(35, 1) X(36, 1) X(39, 1) X(40, 1) \
  X(41, 1) X(48, 1) X(63, 1) X(64, 1) X(65, 1) X(72, 1) X(30, 2) X(32, 2) X(34, 2) X(28, 4) X(32, 4) X(36, 4) X(24, 8) X(32, 8) X(40, 8) X(16, 16) X(32, 16) X(48, 16) X(32, 32) X(64, 32) X(64, 64) X(8, 8)
namespace dap {
#define X(N, A) struct S##N##_##A : Sz<N, A> {}; DAP_STRUCT_TYPEINFO(S##N##_##A, "s" #N "_" #A, DAP_FIELD(b, "b"));
SIZES(X)
#undef X
}  // namespace dap
template <typename T> static T mkSz(uint32_t v) { T t; memset(reinterpret_cast<char*>(&t), 0, sizeof t); char* p = reinterpret_cast<char*>(&t); t.b = (v & 1) != 0; if (sizeof t > 1) { p[sizeof t - 1] = static_cast<char>(v >> 8); } if (sizeof t > 2) p[sizeof t / 2] = static_cast<char>(v >> 16); return t; }
template <typename T> static void sameSz(const any& a, uint32_t v) {
  sx_assert(a.is<T>() && !a.is<integer>(), "is<T>() is true for the stored type only");
  T& t = a.get<T>();
  const char* p = reinterpret_cast<const char*>(&t);
  SAME(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0);
  SAME(t.b == ((v & 1) != 0));
  if (sizeof t > 1) SAME(p[sizeof t - 1] == static_cast<char>(v >> 8));
  if (sizeof t > 2) SAME(p[sizeof t / 2] == static_cast<char>(v >> 16));
}
template <typename T> static void sizes() {
  uint32_t v = sx_sym("v", 32), w = sx_sym("v", 32);
  any n[3];  // neighbours
  n[0] = integer(v);
  n[2] = mkLong(w);
  n[1] = mkSz<T>(v);
  sameSz<T>(n[1], v);
  any c(n[1]);
  sameSz<T>(c, v);
  c.get<T>().b = false;
  n[0] = n[1];
  sameSz<T>(n[0], v);
  n[1] = mkSz<T>(w);
  sameSz<T>(n[1], w);
  sameSz<T>(n[0], v);
  same(n[2], kLong, w);
  any m(std::move(n[1]));
  emptyAny(n[1]);
  sameSz<T>(m, w);
  const any& self = m;
  m = self;
  sameSz<T>(m, w);
  n[2] = std::move(m);
  emptyAny(m);
  sameSz<T>(n[2], w);
  n[2] = integer(w);
  same(n[2], kInt, w);
  n[2] = n[0];
  sameSz<T>(n[2], v);
  any* h = new any(mkSz<T>(w));
  sameSz<T>(*h, w);
  n[0].reset();
  emptyAny(n[0]);
  sameSz<T>(n[2], v);
  sameSz<T>(*h, w);
  delete h;
  same(n[1], kNull, 0);
  any box[2];
  box[0] = mkSz<T>(w);
  box[1] = mkSz<T>(v);
  sameSz<T>(box[0], w);
  sameSz<T>(box[1], v);
}
extern "C" void h_any_sizes() {
  warm();
  unsigned part = sx_param("part", 0), parts = sx_param("parts", 4), k = 0;
#define X(N, A) if (k++ % parts == part) { (void)TypeOf<S##N##_##A>::type(); uint64_t base = sx_live(); sizes<S##N##_##A>(); sx_assert(sx_live() == base, "every stored value's memory is released"); }
  SIZES(X)
#undef X
  sx_reach("sizes");
}
// The converting constructor for every kind, and reassignment of the same type in place.
extern "C" void h_any_ctor() {
  warm();
  uint64_t base = sx_live();
  {
    uint32_t v = sx_sym("v", 32), w = sx_sym("v", 32);
    any a[] = {any(mkBool(v)), any(integer(v)), any(number(dbl(v & 1))), any(mkStr(v)), any(mkLong(v)), any(mkArr(v)), any(mkObj(v)), any(mkAnyArr(v)), any(mkFit(v)), any(mkSmall(v)), any(mkFull(v)), any(mkOdd(v)), any(mkAl16(v)), any(mkAl32(v)), any(nullptr), any()};
    for (int k = 1; k < kKinds; k++) same(a[k - 1], k, v);
    emptyAny(a[14]);
    emptyAny(a[15]);
    for (int k = 1; k < kKinds; k++) { put(a[k - 1], k, w); same(a[k - 1], k, w); }
    int64_t big = static_cast<int64_t>(sx_sym("big", 64));
    a[0] = integer(big);
    SAME(a[0].get<integer>() == big);
    a[0] = boolean(sx_bool("b"));
    a[0] = a[4];
    same(a[0], kLong, w);
    const any c(a[8]);
    same(c, kFit, w);
    // assigning a value stored inside the container itself
    string& inner = a[8].get<Fit>().s;
    string keep = inner;
    (void)keep;
  }
  sx_assert(sx_live() == base, "every stored value's memory is released");
  sx_reach("ctor");
}
// variant
typedef variant<integer, string, array<integer>, object, Fit, boolean> Var;
static void vput(Var& a, int k, uint32_t v) {
  switch (k) { case kInt: a = integer(v); break; case kLong: a = mkLong(v); break; case kArr: a = mkArr(v); break; case kObj: a = mkObj(v); break; case kFit: a = mkFit(v); break; case kBool: a = mkBool(v); break; }
}
static void vsame(const Var& a, int k, uint32_t v) {
  bool t[] = {a.is<integer>(), a.is<string>(), a.is<array<integer>>(), a.is<object>(), a.is<Fit>(), a.is<boolean>()};
  static const int ks[] = {kInt, kLong, kArr, kObj, kFit, kBool};
  for (int i = 0; i < 6; i++) sx_assert(t[i] == (ks[i] == k), "is<T>() is true for the stored type only");
  switch (k) {
    case kInt: SAME(a.get<integer>() == static_cast<int64_t>(v)); break;
    case kLong: assertSame(a.get<string>(), mkLong(v), "value"); break;
    case kArr: { auto& r = a.get<array<integer>>(); SAME(r.size() == 2 && r[0] == static_cast<int64_t>(v)); break; }
    case kObj: { auto& o = a.get<object>(); SAME(o.size() == 1); assertSame(o["k"].get<string>(), mkLong(v), "value"); break; }
    case kFit: { auto& r = a.get<Fit>(); SAME(r.a == static_cast<int64_t>(v)); assertSame(r.s, mkLong(v), "value"); break; }
    case kBool: SAME(a.get<boolean>() == ((v & 1) != 0)); break;
  }
}
extern "C" void h_variant() {
  static const int ks[] = {kInt, kLong, kArr, kObj, kFit, kBool};
  unsigned steps = sx_param("n", 3);
  warm();
  { Var w; Var z(w); vput(z, kObj, 1); }
  uint64_t base = sx_live();
  {
    Var a[2];
    int k[2] = {kInt, kInt};
    uint32_t v[2] = {0, 0};
    sx_assert(a[0].is<integer>() && a[0].get<integer>() == 0, "a new variant holds a default value of its first type");
    static_assert(Var::accepts<Fit>() && !Var::accepts<number>(), "accepts");
    for (unsigned s = 0; s < steps; s++) {
      sx_merge();
      unsigned o = sx_pick(5), i = sx_pick(2), j = 1 - i;
      switch (o) {
        case 0: k[i] = ks[sx_pick(6)]; v[i] = sx_sym("v", 32); vput(a[i], k[i], v[i]); break;
        case 1: { const Var& r = a[j]; a[i] = r; k[i] = k[j]; v[i] = v[j]; break; }
        case 2: { Var t(a[j]); a[i] = t; k[i] = k[j]; v[i] = v[j]; vput(t, kInt, 7); break; }
        case 3: { Var t(std::move(a[j])); a[i] = std::move(t); k[i] = k[j]; v[i] = v[j]; k[j] = ks[sx_pick(6)]; v[j] = sx_sym("v", 32); vput(a[j], k[j], v[j]); break; }
        case 4: { const Var& r = a[i]; a[i] = r; break; }
      }
      vsame(a[i], k[i], v[i]);
      vsame(a[j], k[j], v[j]);
    }
    Var c1(mkFit(v[0])), c2(mkLong(v[1]));
    vsame(c1, kFit, v[0]);
    vsame(c2, kLong, v[1]);
  }
  sx_assert(sx_live() == base, "every stored value's memory is released");
  sx_reach("variant");
}

// ---------------------------------------------------------------- C11 optional
template <typename T, typename U, typename F>
static void cmp(const optional<T>& a, const optional<U>& b, bool ha, bool hb, F rel) {
  // rel(0..5): == != < <= > >= on the contained values
  bool r[6] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
  bool e[6];
  if (ha && hb) for (int i = 0; i < 6; i++) e[i] = rel(i);
  else { e[0] = ha == hb; e[1] = ha != hb; e[2] = !ha && hb; e[3] = !ha; e[4] = ha && !hb; e[5] = !hb; }
  static const char* m[] = {"operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="};
  for (int i = 0; i < 6; i++) sx_assert(r[i] == e[i], m[i]);
}
template <typename T> static bool rel6(int i, const T& a, const T& b) { return i == 0 ? a == b : i == 1 ? a != b : i == 2 ? a < b : i == 3 ? a <= b : i == 4 ? a > b : a >= b; }
extern "C" void h_opt_cmp() {
  bool ha = sx_bool("ha"), hb = sx_bool("hb");
  switch (sx_pick(5)) {
    case 0: {
      int64_t x = static_cast<int64_t>(sx_sym("x", 64)), y = static_cast<int64_t>(sx_sym("y", 64));
      optional<integer> a, b;
      if (ha) a = integer(x);
      if (hb) b = integer(y);
      cmp(a, b, ha, hb, [&](int i) { return rel6(i, x, y); });
      break;
    }
    case 1: {
      int32_t x = static_cast<int32_t>(sx_sym("x", 32));
      int64_t y = static_cast<int64_t>(sx_sym("y", 64));
      optional<int32_t> a;
      optional<int64_t> b;
      if (ha) a = x;
      if (hb) b = y;
      cmp(a, b, ha, hb, [&](int i) { return rel6<int64_t>(i, x, y); });
      cmp(b, a, hb, ha, [&](int i) { return rel6<int64_t>(i, y, x); });
      break;
    }
    case 2: {
      string x = symString(2, "x"), y = symString(1 + sx_pick(2), "y");
      optional<string> a, b;
      if (ha) a = x;
      if (hb) b = y;
      cmp(a, b, ha, hb, [&](int i) { return rel6(i, x, y); });
      break;
    }
    case 3: {
      bool x = sx_bool("x"), y = sx_bool("y");
      optional<boolean> a, b;
      if (ha) a = boolean(x);
      if (hb) b = boolean(y);
      cmp(a, b, ha, hb, [&](int i) { return rel6<int>(i, x, y); });
      break;
    }
    case 4: {
      static const double v[] = {0.0, -0.0, 1.5, -1.5, 1e308, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
      double x = v[sx_pick(8)], y = v[sx_pick(8)];
      optional<number> a, b;
      if (ha) a = number(x);
      if (hb) b = number(y);
      cmp(a, b, ha, hb, [&](int i) { return rel6(i, x, y); });
      break;
    }
  }
  sx_reach("compared");
}
template <typename T> struct Opt { optional<T>* o; bool h; T v; };
template <typename T, typename V, typename E>
static void optSeq(unsigned steps, V mk, E eq) {
  Opt<T> s[2];
  auto check = [&](Opt<T>& x) {
    sx_assert(x.o->has_value() == x.h && static_cast<bool>(*x.o) == x.h, "has_value() reports whether a value was put in");
    const optional<T>& c = *x.o;
    T d = mk();
    if (x.h) { eq(x.o->value(), x.v); eq(**x.o, x.v); eq(*c, x.v); eq(*c.operator->(), x.v); eq(*x.o->operator->(), x.v); eq(c.value(), x.v); eq(c.value(d), x.v); }
    else eq(c.value(d), d);
  };
  for (auto& x : s) { x.h = sx_pick(2); if (x.h) { x.v = mk(); x.o = new optional<T>(x.v); } else x.o = new optional<T>(); check(x); }
  for (unsigned i = 0; i < steps; i++) {
    sx_merge();
    unsigned w = sx_pick(2);
    Opt<T>&x = s[w], &y = s[1 - w];
    switch (sx_pick(9)) {
      case 0: x.v = mk(); x.h = true; *x.o = x.v; break;
      case 1: { T t = mk(); x.v = t; x.h = true; *x.o = std::move(t); break; }
      case 2: *x.o = *y.o; x.h = y.h; x.v = y.v; break;
      case 3: *x.o = std::move(*y.o); x.h = y.h; x.v = y.v; *y.o = optional<T>(); y.h = false; break;  // the moved-from optional is reassigned
      case 4: { auto* n = new optional<T>(*y.o); delete x.o; x.o = n; x.h = y.h; x.v = y.v; break; }
      case 5: { auto* n = new optional<T>(std::move(*y.o)); delete x.o; x.o = n; x.h = y.h; x.v = y.v; y.h = true; y.v = mk(); *y.o = y.v; break; }
      case 6: { const optional<T>& r = *x.o; *x.o = r; break; }
      case 7: *x.o = optional<T>(); x.h = false; break;
      case 8: if (x.h) { x.v = mk(); x.o->value() = x.v; } break;
    }
    check(x);
    check(y);
  }
  for (auto& x : s) delete x.o;
}
extern "C" void h_opt_seq() {
  unsigned n = sx_param("n", 3);
  (void)sx_live();
  uint64_t base = sx_live();
  if (sx_param("str", 0)) optSeq<string>(n, [] { return symString(1, "s") + "a text that is not stored inline"; }, [](const string& a, const string& b) { assertSame(a, b, "value()"); });
  else optSeq<integer>(n, [] { return integer(static_cast<int64_t>(sx_sym("v", 64))); }, [](const integer& a, const integer& b) { sx_assert(a == b, "value()"); });
  sx_assert(sx_live() == base, "no memory is leaked");
  sx_reach("sequence");
}
extern "C" void h_opt_convert() {  // between different value types
  bool h = sx_bool("h");
  int32_t x = static_cast<int32_t>(sx_sym("x", 32));
  optional<int32_t> a;
  if (h) a = x;
  optional<int64_t> b(a), c(std::move(a));
  sx_assert(b.has_value() == h && c.has_value() == h, "conversion keeps the state");
  if (h) sx_assert(b.value() == x && c.value() == x, "conversion keeps the value");
  optional<integer> d = x, e(b);
  sx_assert(d.has_value() && d.value() == x && e.has_value() == h, "conversion keeps the value");
  d = x + 1ll;
  sx_assert(d.has_value() && d.value() == x + 1ll, "assignment from a convertible value");
  optional<int32_t> a2;
  if (h) a2 = x;
  optional<int64_t> f(5), g(6);
  f = a2;
  sx_assert(f.has_value() == h && (!h || f.value() == x), "assignment from another optional keeps state and value");
  g = std::move(a2);
  sx_assert(g.has_value() == h && (!h || g.value() == x), "assignment from another optional keeps state and value");
  optional<const char*> p;
  if (h) p = "text";
  optional<string> q(p), r("zz");
  sx_assert(q.has_value() == h && (!h || q.value() == "text"), "conversion keeps the value");
  r = p;
  sx_assert(r.has_value() == h && (!h || r.value() == "text"), "assignment from another optional keeps the value");
  r = "literal";
  sx_assert(r.has_value() && r.value() == "literal", "assignment from a literal");
  sx_reach("converted");
}

// ---------------------------------------------------------------- C15 type information
template <typename T, typename Set, typename Eq>
static void life(const char* what, Set set, Eq eq) {
  const TypeInfo* ti = TypeOf<T>::type();
  sx_assert(ti == TypeOf<T>::type(), "the same type has one type information object");
  sx_assert(ti->size() == sizeof(T), "size is the type's");
  sx_assert(ti->alignment() == alignof(T), "alignment is the type's");
  (void)ti->name();
  { T w{}; set(w); T w2(w); (void)w2; }  // type information of nested types is created on first use
  uint64_t base = sx_live();
  struct Buf { alignas(64) unsigned char b[sizeof(T) + 64]; };
  Buf* A = new Buf;
  Buf* B = new Buf;
  memset(A, 0xee, sizeof *A);
  memset(B, 0xee, sizeof *B);
  {
    ti->construct(A->b);
    T& a = *reinterpret_cast<T*>(A->b);
    { T d{}; eq(a, d); }
    set(a);
    ti->copyConstruct(B->b, A->b);
    T& b = *reinterpret_cast<T*>(B->b);
    eq(a, b);
    T keep(a);
    ti->destruct(A->b);
    memset(A, 0x55, sizeof *A);
    eq(b, keep);  // independent of the source
    ti->destruct(B->b);
    for (size_t i = sizeof(T); i < sizeof(T) + 64; i++) sx_assert(B->b[i] == 0xee, "construction stays inside the object");
  }
  delete A;
  delete B;
  sx_assert(sx_live() == base, what);
}
static bool anyEq(const any& a, const any& b);
static bool objEq(const object& a, const object& b) { if (a.size() != b.size()) return false; for (auto& x : a) { auto i = b.find(x.first); if (i == b.end() || !anyEq(x.second, i->second)) return false; } return true; }
static bool anyEq(const any& a, const any& b) {
  if (a.is<null>() || b.is<null>()) return a.is<null>() == b.is<null>();
  if (a.is<integer>()) return b.is<integer>() && a.get<integer>() == b.get<integer>();
  if (a.is<string>()) return b.is<string>() && sameStr(a.get<string>(), b.get<string>());
  if (a.is<object>()) return b.is<object>() && objEq(a.get<object>(), b.get<object>());
  return false;
}
template <typename T> static void eqv(const T& a, const T& b) { sx_assert(a == b, "values agree"); }
static const int kLife = 22;
static void lifeOf(int i) {
  int64_t v = static_cast<int64_t>(sx_sym("v", 64));
  string s = symString(2, "s") + "-this one is long enough for the heap";
#define EQ(T) [](const T& a, const T& b) { sx_assert(a == b, "a copy equals its source and construction gives the default value"); }
#define OK(c) sx_assert((c), "a copy equals its source and construction gives the default value")
  switch (i) {
    case 0: life<boolean>("boolean", [&](boolean& x) { x = (v & 1) != 0; }, [](const boolean& a, const boolean& b) { OK(a == b); }); break;
    case 1: life<integer>("integer", [&](integer& x) { x = v; }, [](const integer& a, const integer& b) { OK(a == b); }); break;
    case 2: life<number>("number", [&](number& x) { x = 2.5; }, [](const number& a, const number& b) { OK(a == b); }); break;
    case 3: life<string>("string", [&](string& x) { x = s; }, [](const string& a, const string& b) { OK(sameStr(a, b)); }); break;
    case 4: life<object>("object", [&](object& x) { x["a"] = integer(v); x["b"] = s; }, [](const object& a, const object& b) { OK(objEq(a, b)); }); break;
    case 5: life<any>("any", [&](any& x) { object o; o["q"] = s; x = o; }, [](const any& a, const any& b) { OK(anyEq(a, b)); }); break;
    case 6: life<null>("null", [&](null&) {}, [](const null&, const null&) {}); break;
    case 7: life<array<integer>>("array<integer>", [&](array<integer>& x) { x.push_back(v); x.push_back(1); }, [](const array<integer>& a, const array<integer>& b) { OK(a.size() == b.size() && (a.empty() || (a[0] == b[0] && a[1] == b[1]))); }); break;
    case 8: life<array<string>>("array<string>", [&](array<string>& x) { x.push_back(s); }, [](const array<string>& a, const array<string>& b) { OK(a.size() == b.size() && (a.empty() || sameStr(a[0], b[0]))); }); break;
    case 9: life<array<any>>("array<any>", [&](array<any>& x) { x.push_back(any(s)); x.push_back(any()); }, [](const array<any>& a, const array<any>& b) { OK(a.size() == b.size() && (a.empty() || anyEq(a[0], b[0]))); }); break;
    case 10: life<array<array<boolean>>>("array<array<boolean>>", [&](array<array<boolean>>& x) { x.resize(2); x[1].push_back(true); }, [](const array<array<boolean>>& a, const array<array<boolean>>& b) { OK(a.size() == b.size() && (a.empty() || (a[1].size() == 1 && b[1].size() == 1 && b[1][0]))); }); break;
    case 11: life<optional<integer>>("optional<integer>", [&](optional<integer>& x) { x = integer(v); }, [](const optional<integer>& a, const optional<integer>& b) { OK(a == b); }); break;
    case 12: life<optional<string>>("optional<string>", [&](optional<string>& x) { x = s; }, [](const optional<string>& a, const optional<string>& b) { OK(a.has_value() == b.has_value() && (!a || sameStr(*a, *b))); }); break;
    case 13: life<optional<object>>("optional<object>", [&](optional<object>& x) { object o; o["k"] = s; x = o; }, [](const optional<object>& a, const optional<object>& b) { OK(a.has_value() == b.has_value() && (!a || objEq(*a, *b))); }); break;
    case 14: life<variant<integer, string>>("variant", [&](variant<integer, string>& x) { x = s; }, [](const variant<integer, string>& a, const variant<integer, string>& b) { OK(a.is<string>() == b.is<string>() && (a.is<string>() ? sameStr(a.get<string>(), b.get<string>()) : a.get<integer>() == b.get<integer>())); }); break;
    case 15: life<variant<array<string>, boolean, null>>("variant", [&](variant<array<string>, boolean, null>& x) { x = boolean(true); }, [](const variant<array<string>, boolean, null>& a, const variant<array<string>, boolean, null>& b) { OK(a.is<boolean>() == b.is<boolean>()); }); break;
    case 16: life<Source>("Source", [&](Source& x) { x.name = s; x.sourceReference = integer(v); x.checksums = array<Checksum>(2); }, [](const Source& a, const Source& b) { OK(a.name.has_value() == b.name.has_value() && (!a.name || sameStr(*a.name, *b.name)) && a.sourceReference == b.sourceReference && a.checksums.has_value() == b.checksums.has_value()); }); break;
    case 17: life<Capabilities>("Capabilities", [&](Capabilities& x) { x.supportsCancelRequest = boolean((v & 1) != 0); x.additionalModuleColumns = array<ColumnDescriptor>(1); }, [](const Capabilities& a, const Capabilities& b) { OK(a.supportsCancelRequest == b.supportsCancelRequest && a.additionalModuleColumns.has_value() == b.additionalModuleColumns.has_value() && !b.supportsStepBack.has_value()); }); break;
    case 18: life<InitializeRequest>("InitializeRequest", [&](InitializeRequest& x) { x.adapterID = s; x.columnsStartAt1 = boolean((v & 1) != 0); }, [](const InitializeRequest& a, const InitializeRequest& b) { OK(sameStr(a.adapterID, b.adapterID) && a.columnsStartAt1 == b.columnsStartAt1); }); break;
    case 19: life<StackTraceResponse>("StackTraceResponse", [&](StackTraceResponse& x) { x.stackFrames.resize(1); x.stackFrames[0].id = v; x.stackFrames[0].name = s; x.totalFrames = integer(v); }, [](const StackTraceResponse& a, const StackTraceResponse& b) { OK(a.totalFrames == b.totalFrames && a.stackFrames.size() == b.stackFrames.size() && (a.stackFrames.empty() || (a.stackFrames[0].id == b.stackFrames[0].id && sameStr(a.stackFrames[0].name, b.stackFrames[0].name)))); }); break;
    case 20: life<OutputEvent>("OutputEvent", [&](OutputEvent& x) { x.output = s; x.line = integer(v); }, [](const OutputEvent& a, const OutputEvent& b) { OK(sameStr(a.output, b.output) && a.line == b.line); }); break;
    case 21: life<Al32>("Al32", [&](Al32& x) { x.a = v; x.s = s; }, [](const Al32& a, const Al32& b) { OK(a.a == b.a && sameStr(a.s, b.s)); }); break;
  }
}
static std::vector<const TypeInfo*> allTypes() {
  return {TypeOf<boolean>::type(), TypeOf<integer>::type(), TypeOf<number>::type(), TypeOf<string>::type(), TypeOf<object>::type(), TypeOf<any>::type(), TypeOf<null>::type(),
          TypeOf<array<boolean>>::type(), TypeOf<array<integer>>::type(), TypeOf<array<number>>::type(), TypeOf<array<string>>::type(), TypeOf<array<object>>::type(), TypeOf<array<any>>::type(), TypeOf<array<array<integer>>>::type(),
          TypeOf<optional<boolean>>::type(), TypeOf<optional<integer>>::type(), TypeOf<optional<number>>::type(), TypeOf<optional<string>>::type(), TypeOf<optional<object>>::type(), TypeOf<optional<array<integer>>>::type(), TypeOf<array<optional<integer>>>::type(),
          TypeOf<variant<integer, string>>::type(), TypeOf<variant<string, integer>>::type(), TypeOf<variant<integer>>::type(),
          TypeOf<Source>::type(), TypeOf<StackFrame>::type(), TypeOf<Breakpoint>::type(), TypeOf<ContinueRequest>::type(), TypeOf<ContinueResponse>::type(), TypeOf<ContinuedEvent>::type(), TypeOf<NextRequest>::type(), TypeOf<NextResponse>::type(), TypeOf<PauseRequest>::type(), TypeOf<Fit>::type()};
}
extern "C" void h_typeinfo() {
  unsigned from = sx_param("from", 0), to = sx_param("to", kLife);
  for (unsigned i = from; i < to; i++) lifeOf(i);
  sx_reach("lifecycle");
}
extern "C" void h_typeinfo_identity() {
  auto a = allTypes(), b = allTypes();
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) sx_assert((a[i] == b[j]) == (i == j), "one type information object per type");
  sx_reach("identity");
}
// First use of types by several threads at once.
struct TA { integer a; };
struct TB { integer a; };
namespace dap { DAP_STRUCT_TYPEINFO(TA, "TA", DAP_FIELD(a, "a")); DAP_STRUCT_TYPEINFO(TB, "TB", DAP_FIELD(a, "a")); }
extern "C" void h_typeinfo_threads() {
  unsigned w = sx_param("which", 0);
  const TypeInfo *x = nullptr, *y = nullptr, *x2 = nullptr, *y2 = nullptr;
  auto f = [&](const TypeInfo** p, const TypeInfo** q, bool first) {
    if (w == 0) { if (first) { *p = TypeOf<array<TA>>::type(); *q = TypeOf<optional<TB>>::type(); } else { *q = TypeOf<optional<TB>>::type(); *p = TypeOf<array<TA>>::type(); } }
    else { *p = TypeOf<TA>::type(); *q = TypeOf<integer>::type(); }
  };
  std::thread t([&] { f(&x, &y, true); });
  f(&x2, &y2, false);
  t.join();
  sx_assert(x == x2 && y == y2 && x != y, "every thread sees the same type information object");
  sx_assert(x->size() == (w ? sizeof(TA) : sizeof(array<TA>)), "complete");
  sx_reach("threads");
}
// References taken and given back by two threads are all counted.
extern "C" void h_typeinfo_refs() {
  unsigned mode = sx_param("mode", 0);
  if (mode != 3) dap::initialize();  // 3: the first use of all
  const TypeInfo *x = nullptr, *y = nullptr;
  unsigned ups = mode == 1 ? 2 : 1;
  auto f = [&](const TypeInfo** p) {
    for (unsigned i = 0; i < ups; i++) dap::initialize();
    if (mode != 1) { *p = TypeOf<array<TA>>::type(); sx_assert((*p)->size() == sizeof(array<TA>), "usable"); }
    if (mode == 2) { dap::terminate(); dap::initialize(); }
  };
  std::thread t([&] { f(&x); });
  f(&y);
  t.join();
  if (mode == 1) { x = TypeOf<array<TA>>::type(); y = x; }
  sx_assert(x == y, "every thread sees the same type information object");
  unsigned n = 2 * ups + (mode != 3);
  for (unsigned i = 0; i < n; i++) { dap::terminate(); sx_assert(x->size() == sizeof(array<TA>) && TypeOf<array<TA>>::type() == x && x->alignment() == alignof(array<TA>), "type information stays usable until exit"); }
  sx_reach("refs");
  sx_run_atexit();
  sx_expect_live_at_exit(0);
}
// Everything created is destroyed once at exit, also with initialize()/terminate() around it.
struct LateUser {  // destroyed after the static type information, which it still references
  unsigned refs = 0;
  const TypeInfo* t = nullptr;
  ~LateUser() {
    for (unsigned i = 0; i < refs; i++) { sx_assert(t->size() == sizeof(array<integer>) && TypeOf<array<integer>>::type() == t && t->name() == "array<integer>", "type information stays valid while it is referenced"); dap::terminate(); }
    if (refs) sx_reach("late");
  }
};
extern "C" void h_typeinfo_exit() {
  unsigned k = sx_param("refs", 1);
  if (sx_param("late", 0)) {
    static LateUser late;
    for (unsigned i = 0; i < k; i++) dap::initialize();
    late.t = TypeOf<array<integer>>::type();
    auto a = allTypes();
    sx_assert(a.size() > 5 && late.t->name() == "array<integer>", "usable");
    late.refs = k;
    sx_reach("exit");
    a = std::vector<const TypeInfo*>();
    sx_run_atexit();
    sx_expect_live_at_exit(0);
    return;
  }
  for (unsigned i = 0; i < k; i++) dap::initialize();
  auto a = allTypes();
  for (auto t : a) { sx_assert(t->size() > 0, "usable"); }
  for (unsigned i = 0; i < k; i++) { dap::terminate(); sx_assert(TypeOf<array<integer>>::type()->size() == sizeof(array<integer>), "type information stays usable until exit"); }
  a = std::vector<const TypeInfo*>();
  sx_reach("exit");
  sx_run_atexit();
  sx_expect_live_at_exit(0);
}
