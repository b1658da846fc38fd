// C28: structures declared by the user of the library, with every kind of inheritance.
#include "streams.h"
#include "json_serializer.h"
#include "dap/serialization.h"
#include "dap/session.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include <string.h>
#include <memory>

namespace dap {
struct A0 { integer a; optional<string> b; };
DAP_STRUCT_TYPEINFO(A0, "a0", DAP_FIELD(a, "fa"), DAP_FIELD(b, "fb"));
struct A1 : A0 { array<integer> c; };
DAP_STRUCT_TYPEINFO_EXT(A1, A0, "a1", DAP_FIELD(c, "fc"));
struct A2 : A1 { boolean d; };
DAP_STRUCT_TYPEINFO_EXT(A2, A1, "a2", DAP_FIELD(d, "fd"));
struct A3 : A2 { optional<integer> e; };
DAP_STRUCT_TYPEINFO_EXT(A3, A2, "a3", DAP_FIELD(e, "fe"));
struct V1 : A0 { virtual ~V1() = default; boolean d; };  // its base does not come first
DAP_STRUCT_TYPEINFO_EXT(V1, A0, "v1", DAP_FIELD(d, "fd"));
struct Other { virtual ~Other() = default; int64_t tag = 77; std::string keep = "kept"; };
struct M1 : Other, A1 { string d; };
DAP_STRUCT_TYPEINFO_EXT(M1, A1, "m1", DAP_FIELD(d, "fd"));
struct B1 : A0 { integer x; };  // declares an inherited field itself
DAP_STRUCT_TYPEINFO(B1, "b1", DAP_FIELD(x, "fx"), DAP_FIELD(a, "fa"));
struct E0 {};
DAP_STRUCT_TYPEINFO(E0, "e0");
struct E1 : A1 {};  // nothing of its own
DAP_STRUCT_TYPEINFO_EXT(E1, A1, "e1");
struct G0 { integer a; char gap1[300]; optional<string> b; char gap2[70000]; boolean d; };  // far apart
DAP_STRUCT_TYPEINFO(G0, "g0", DAP_FIELD(a, "fa"), DAP_FIELD(b, "fb"), DAP_FIELD(d, "fd"));
struct N0 { A2 s; array<M1> ms; optional<V1> ov; any an; variant<integer, A1> va; E0 e; };
DAP_STRUCT_TYPEINFO(N0, "n0", DAP_FIELD(s, "s"), DAP_FIELD(ms, "ms"), DAP_FIELD(ov, "ov"), DAP_FIELD(an, "an"), DAP_FIELD(va, "va"), DAP_FIELD(e, "e"));
}  // namespace dap
using namespace dap;

static std::string chr(const char* name) {
  std::string s = symString(1, name);
  sx_assume((s[0] >= ' ') & (s[0] <= '~') & (s[0] != '"') & (s[0] != '\\'));
  return s;
}
static int64_t small(const char* name) { return static_cast<int64_t>(sx_sym(name, 3)); }

// Contents and comparison.
static void fill(A0& v) { v.a = small("a"); if (sx_pick(2)) v.b = chr("b"); }
static void fill1(A1& v) { fill(static_cast<A0&>(v)); v.c.resize(sx_pick(3)); for (auto& e : v.c) e = small("c"); }
static void fill(A1& v) { fill1(v); }
static void fill2(A2& v) { fill1(v); v.d = sx_bool("d"); }
static void fill(A2& v) { fill2(v); }
static void fill(A3& v) { fill2(v); if (sx_pick(2)) v.e = integer(small("e")); }
static void fill(V1& v) { fill(static_cast<A0&>(v)); v.d = sx_bool("d"); }
static void fill(M1& v) { fill1(v); v.d = chr("d"); }
static void fill(B1& v) { v.a = small("a"); v.x = small("x"); }
static void fill(E0&) {}
static void fill(E1& v) { fill1(v); }
static void eq(bool c) { sx_assert(c, "each own and inherited field keeps its value"); }
static void same(const A0& x, const A0& y) { eq(x.a == y.a && x.b.has_value() == y.b.has_value()); if (x.b.has_value()) assertSame(x.b.value(), y.b.value(), "each own and inherited field keeps its value"); }
static void same(const A1& x, const A1& y) { same(static_cast<const A0&>(x), static_cast<const A0&>(y)); eq(x.c.size() == y.c.size()); for (size_t i = 0; i < x.c.size(); i++) eq(x.c[i] == y.c[i]); }
static void same(const A2& x, const A2& y) { same(static_cast<const A1&>(x), static_cast<const A1&>(y)); eq(x.d == y.d); }
static void same(const A3& x, const A3& y) { same(static_cast<const A2&>(x), static_cast<const A2&>(y)); eq(x.e.has_value() == y.e.has_value()); if (x.e.has_value()) eq(x.e.value() == y.e.value()); }
static void same(const V1& x, const V1& y) { same(static_cast<const A0&>(x), static_cast<const A0&>(y)); eq(x.d == y.d); }
static void same(const M1& x, const M1& y) { same(static_cast<const A1&>(x), static_cast<const A1&>(y)); assertSame(x.d, y.d, "each own and inherited field keeps its value"); sx_assert(y.tag == 77 && y.keep == "kept", "what is no declared field is left alone"); }
static void same(const B1& x, const B1& y) { eq(x.a == y.a && x.x == y.x); }
static void same(const E0&, const E0&) {}
static void same(const E1& x, const E1& y) { same(static_cast<const A1&>(x), static_cast<const A1&>(y)); }
// The field names that have to be there.
static void names(const A0& v, std::vector<std::string>& n) { n.push_back("fa"); if (v.b.has_value()) n.push_back("fb"); }
static void names(const A1& v, std::vector<std::string>& n) { names(static_cast<const A0&>(v), n); n.push_back("fc"); }
static void names(const A2& v, std::vector<std::string>& n) { names(static_cast<const A1&>(v), n); n.push_back("fd"); }
static void names(const A3& v, std::vector<std::string>& n) { names(static_cast<const A2&>(v), n); if (v.e.has_value()) n.push_back("fe"); }
static void names(const V1& v, std::vector<std::string>& n) { names(static_cast<const A0&>(v), n); n.push_back("fd"); }
static void names(const M1& v, std::vector<std::string>& n) { names(static_cast<const A1&>(v), n); n.push_back("fd"); }
static void names(const B1&, std::vector<std::string>& n) { n.push_back("fa"); n.push_back("fx"); }
static void names(const E0&, std::vector<std::string>&) {}
static void names(const E1& v, std::vector<std::string>& n) { names(static_cast<const A1&>(v), n); }

// Counts the calls that encode a field and lets one of them fail.
struct Cnt : Serializer, FieldSerializer {
  int left, calls = 0;
  explicit Cnt(int k) : left(k) {}
  bool step() { calls++; return left-- != 0; }
  bool serialize(boolean) override { return step(); }
  bool serialize(integer) override { return step(); }
  bool serialize(number) override { return step(); }
  bool serialize(const string&) override { return step(); }
  bool serialize(const dap::object&) override { return step(); }
  bool serialize(const any&) override { return step(); }
  bool array(size_t n, const std::function<bool(Serializer*)>& f) override { for (size_t i = 0; i < n; i++) if (!f(this)) return false; return true; }
  bool object(const std::function<bool(FieldSerializer*)>& f) override { return f(this); }
  void remove() override {}
  bool field(const std::string&, const std::function<bool(Serializer*)>& f) override { return f(this); }
};

template <class T> static void check(const char* name) {
  auto ti = TypeOf<T>::type();
  sx_assert(ti->name() == name && ti->size() == sizeof(T) && ti->alignment() == alignof(T), "the type information describes the structure");
  T v;
  fill(v);
  json::Serializer s;
  sx_assert(s.serialize(v), "encoding succeeds");
  std::string text = s.dump();
  json::Deserializer d(text);
  dap::object o;
  std::vector<std::string> want;
  names(v, want);
  bool isObj = d.deserialize(&o);
  if (!want.empty()) sx_assert(isObj, "a structure is encoded as an object");
  sx_assert(o.size() == want.size(), "exactly the declared fields are encoded, the inherited ones too");
  for (auto& n : want) sx_assert(o.count(n) == 1, "each declared field is encoded under its name");
  T w;
  sx_assert(d.deserialize(&w), "decoding what was encoded succeeds");
  same(v, w);
  // held by an any, and copied
  any a = v;
  any b = a;
  same(v, b.template get<T>());
  json::Serializer s2;
  sx_assert(s2.serialize(b), "encoding an any that holds the structure succeeds");
  assertSame(text, s2.dump(), "an any that holds the structure is encoded like it");
  // each required field missing in turn
  static const char* req[] = {"fa", "fc", "fd", "fx"};
  for (auto r : req) {
    if (!o.count(r)) continue;
    dap::object cut = o;
    cut.erase(r);
    json::Serializer s3;
    sx_assert(s3.serialize(cut), "encoding succeeds");
    json::Deserializer d3(s3.dump());
    T x;
    sx_assert(!d3.deserialize(&x), "a missing required field makes decoding fail, an inherited one too");
  }
  sx_reach("structure");
}
extern "C" void h_structs() {
  switch (sx_param("type", 0)) {
    case 0: check<A0>("a0"); break;
    case 1: check<A1>("a1"); break;
    case 2: check<A2>("a2"); break;
    case 3: check<A3>("a3"); break;
    case 4: check<V1>("v1"); break;
    case 5: check<M1>("m1"); break;
    case 6: check<B1>("b1"); break;
    case 7: check<E0>("e0"); break;
    case 8: check<E1>("e1"); break;
  }
}
extern "C" void h_structs_big() {
  std::unique_ptr<G0> v(new G0), w(new G0);
  memset(w->gap1, 5, sizeof w->gap1);
  memset(w->gap2, 6, sizeof w->gap2);
  v->a = small("a");
  if (sx_pick(2)) v->b = chr("b");
  v->d = sx_bool("d");
  json::Serializer s;
  sx_assert(s.serialize(*v), "encoding succeeds");
  json::Deserializer d(s.dump());
  sx_assert(d.deserialize(w.get()), "decoding what was encoded succeeds");
  eq(v->a == w->a && v->b.has_value() == w->b.has_value() && v->d == w->d);
  if (v->b.has_value()) assertSame(v->b.value(), w->b.value(), "each own and inherited field keeps its value");
  for (char c : w->gap1) sx_assert(c == 5, "what is no declared field is left alone");
  for (size_t i = 0; i < sizeof w->gap2; i += 8) sx_assert(w->gap2[i] == 6, "what is no declared field is left alone");
  sx_reach("big");
}
// One structure inside another.
extern "C" void h_structs_nested() {
  N0 v;
  v.s.a = small("a"); v.s.d = sx_bool("d"); v.s.c.resize(1); v.s.c[0] = small("c");
  if (sx_pick(2)) v.s.b = chr("b");
  v.ms.resize(sx_pick(3));
  for (auto& m : v.ms) { m.a = small("a"); m.d = "x"; m.c.push_back(integer(small("c"))); }
  if (sx_pick(2)) { V1 x; x.a = small("a"); x.d = sx_bool("d"); v.ov = x; }
  A1 in;
  in.a = small("a");
  bool hold = sx_pick(2);
  if (hold) { v.an = in; v.va = in; } else { v.an = integer(small("a")); v.va = integer(3); }
  json::Serializer s;
  sx_assert(s.serialize(v), "encoding succeeds");
  json::Deserializer d(s.dump());
  N0 w;
  sx_assert(d.deserialize(&w), "decoding what was encoded succeeds");
  same(v.s, w.s);
  sx_assert(v.ms.size() == w.ms.size(), "array elements are kept");
  for (size_t i = 0; i < v.ms.size(); i++) same(v.ms[i], w.ms[i]);
  sx_assert(v.ov.has_value() == w.ov.has_value(), "an optional structure is there exactly when it was set");
  if (v.ov.has_value()) same(v.ov.value(), w.ov.value());
  if (hold) {
    A1 x;
    sx_assert(d.field("va", &x), "a structure in a variant is encoded like the structure");
    same(in, x);
    A1 y;
    sx_assert(d.field("an", &y), "a structure in an any is encoded like the structure");
    same(in, y);
  } else sx_assert(w.an.is<integer>() && w.va.is<integer>() && w.an.get<integer>() == v.an.get<integer>(), "other values are kept");
  sx_reach("nested");
}
// A field that cannot be encoded makes encoding fail.
template <class T> static void failing(int total) {
  T v;
  int k = static_cast<int>(sx_pick(static_cast<uint64_t>(total) + 1));
  Cnt c(k);
  bool ok = static_cast<Serializer&>(c).serialize(v);
  if (ok) sx_assert(c.calls == total, "encoding visits each field once");
  sx_assert(ok == (k >= total), "encoding fails exactly when a field cannot be encoded");
  sx_reach(ok ? "encoded" : "failed");
}
extern "C" void h_structs_fail() {
  switch (sx_pick(6)) {
    case 0: failing<A0>(1); break;
    case 1: failing<A2>(2); break;
    case 2: failing<A3>(2); break;
    case 3: failing<V1>(2); break;
    case 4: failing<M1>(2); break;
    case 5: failing<B1>(2); break;
  }
}

// ---------------------------------------------------------------- C29
namespace dap {
struct R29 : public Response { integer i; string s; };
}
struct Want { bool known = true; int64_t i = 0; std::string s; std::string err; };
typedef dap::ResponseOrError<dap::R29> RE;
static void holds(const RE& r, const Want& w) {
  if (!w.known) return;  // moved from
  sx_assert(static_cast<bool>(r.error) == !w.err.empty(), "it is an error exactly when an error was put in");
  assertSame(r.error.message, w.err, "the error text is kept");
  sx_assert(r.response.i == w.i, "the response is kept");
  assertSame(r.response.s, w.s, "the response is kept");
}
extern "C" void h_resp() {
  uint64_t live = sx_live();
  {
    RE x[2];
    Want w[2];
    unsigned n = static_cast<unsigned>(sx_param("n", 3));
    bool lng = sx_param("long", 0);
    for (unsigned k = 0; k < n; k++) {
      unsigned t = static_cast<unsigned>(sx_pick(2)), o = 1 - t;
      dap::R29 r;
      Want v;
      v.i = static_cast<int64_t>(sx_sym("i", 64));
      v.s = symString(2, "s") + (lng ? std::string(30, 'r') : "");
      r.i = v.i; r.s = v.s;
      Want e;
      e.err = symString(sx_pick(2) + 1, "e") + (lng ? std::string(30, 'e') : "");
      dap::Error err(e.err);
      assertSame(err.message, e.err, "an error has the text it was made of");
      switch (sx_pick(10)) {
        case 0: { RE y(r); holds(y, v); assertSame(r.s, v.s, "copying leaves the source alone"); x[t] = y; w[t] = v; holds(y, v); break; }
        case 1: { RE y(std::move(r)); holds(y, v); x[t] = std::move(y); w[t] = v; break; }
        case 2: { RE y(err); holds(y, e); assertSame(err.message, e.err, "copying leaves the source alone"); x[t] = y; w[t] = e; break; }
        case 3: { RE y(std::move(err)); holds(y, e); x[t] = std::move(y); w[t] = e; break; }
        case 4: x[t] = x[o]; w[t] = w[o]; break;
        case 5: x[t] = std::move(x[o]); w[t] = w[o]; w[o].known = false; break;
        case 6: { RE y(x[o]); holds(y, w[o]); holds(x[o], w[o]); RE z(std::move(y)); holds(z, w[o]); x[t] = std::move(z); w[t] = w[o]; break; }
        case 7: { RE& self = x[t]; x[t] = self; break; }
        case 8: x[t] = r; w[t] = v; break;
        case 9: x[t] = err; w[t] = e; break;
      }
      holds(x[0], w[0]);
      holds(x[1], w[1]);
    }
    sx_reach("sequence");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}
