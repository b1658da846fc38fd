// C14: every protocol structure against a committed table of its fields (protocol_table.inc).
// The structures are encoded and decoded through their real type information, by a
// serializer and a deserializer of our own, so no JSON library is involved.
#include "streams.h"
#include "dap/protocol.h"
#include "dap/serialization.h"
#include "dap/typeof.h"
#include <string.h>
#include <map>
#include <new>

struct Node {
  char kind = 0;  // b i n s 0(null: 'z') a o; 0: nothing stored; 'x': removed
  bool b = false;
  int64_t i = 0;
  double n = 0;
  std::string s;
  std::vector<Node> a;
  std::vector<std::pair<std::string, Node>> o;
  const Node* find(const std::string& k) const {
    for (auto& e : o) if (e.first == k) return &e.second;
    return nullptr;
  }
};

// ---------------------------------------------------------------- recording serializer
struct Rec : dap::Serializer {
  Node* n;
  explicit Rec(Node* n) : n(n) {}
  bool serialize(dap::boolean v) override { n->kind = 'b'; n->b = v; return true; }
  bool serialize(dap::integer v) override { n->kind = 'i'; n->i = v; return true; }
  bool serialize(dap::number v) override { n->kind = 'n'; n->n = v; return true; }
  bool serialize(const dap::string& v) override { n->kind = 's'; n->s = v; return true; }
  bool serialize(const dap::object& v) override {
    n->kind = 'o';
    for (auto& e : v) { n->o.emplace_back(e.first, Node()); Rec r(&n->o.back().second); if (!r.serialize(e.second)) return false; }
    return true;
  }
  bool serialize(const dap::any& v) override {
    if (v.is<dap::boolean>()) return serialize(dap::boolean(v.get<dap::boolean>()));
    if (v.is<dap::integer>()) return serialize(dap::integer(v.get<dap::integer>()));
    if (v.is<dap::number>()) return serialize(dap::number(v.get<dap::number>()));
    if (v.is<dap::string>()) return serialize(v.get<dap::string>());
    if (v.is<dap::object>()) return serialize(v.get<dap::object>());
    if (v.is<dap::null>()) { n->kind = 'z'; return true; }
    auto t = get_any_type(v);
    return t && t->serialize(this, get_any_val(v));
  }
  bool array(size_t c, const std::function<bool(dap::Serializer*)>& cb) override {
    n->kind = 'a';
    n->a.resize(c);
    for (size_t i = 0; i < c; i++) { Rec r(&n->a[i]); if (!cb(&r)) return false; }
    return true;
  }
  bool object(const std::function<bool(dap::FieldSerializer*)>& cb) override;
  void remove() override { n->kind = 'x'; }
};
struct RecF : dap::FieldSerializer {
  Node* n;
  explicit RecF(Node* n) : n(n) {}
  bool field(const std::string& name, const SerializeFunc& cb) override {
    Node v;
    Rec r(&v);
    if (!cb(&r)) return false;
    if (v.kind != 'x') n->o.emplace_back(name, v);
    return true;
  }
};
bool Rec::object(const std::function<bool(dap::FieldSerializer*)>& cb) {
  n->kind = 'o';
  RecF f(n);
  return cb(&f);
}

// ---------------------------------------------------------------- deserializer over nodes
struct Dec : dap::Deserializer {
  const Node* n;  // null: the field is absent
  explicit Dec(const Node* n) : n(n) {}
  bool is(char k) const { return n && n->kind == k; }
  bool deserialize(dap::boolean* v) const override { if (!is('b')) return false; *v = n->b; return true; }
  bool deserialize(dap::integer* v) const override { if (!is('i')) return false; *v = n->i; return true; }
  bool deserialize(dap::number* v) const override { if (is('i')) { *v = static_cast<double>(n->i); return true; } if (!is('n')) return false; *v = n->n; return true; }
  bool deserialize(dap::string* v) const override { if (!is('s')) return false; *v = n->s; return true; }
  bool deserialize(dap::object* v) const override {
    if (!is('o')) return false;
    for (auto& e : n->o) { dap::any a; Dec d(&e.second); if (!d.deserialize(&a)) return false; (*v)[e.first] = a; }
    return true;
  }
  bool deserialize(dap::any* v) const override {
    if (!n) return false;
    switch (n->kind) {
      case 'b': *v = dap::boolean(n->b); return true;
      case 'i': *v = dap::integer(n->i); return true;
      case 'n': *v = dap::number(n->n); return true;
      case 's': *v = n->s; return true;
      case 'z': *v = dap::null(); return true;
      case 'o': { dap::object o; if (!deserialize(&o)) return false; *v = o; return true; }
      case 'a': {
        dap::array<dap::any> a(n->a.size());
        for (size_t i = 0; i < a.size(); i++) { Dec d(&n->a[i]); if (!d.deserialize(&a[i])) return false; }
        *v = a;
        return true;
      }
    }
    return false;
  }
  size_t count() const override { return is('a') ? n->a.size() : 0; }
  bool array(const std::function<bool(dap::Deserializer*)>& cb) const override {
    if (!is('a')) return false;
    for (auto& e : n->a) { Dec d(&e); if (!cb(&d)) return false; }
    return true;
  }
  bool field(const std::string& name, const std::function<bool(dap::Deserializer*)>& cb) const override {
    if (!is('o')) return false;
    Dec d(n->find(name));
    return cb(&d);
  }
};

// ---------------------------------------------------------------- the table
#define S(T, N) template <class V> static void visit(V& v, dap::T& o);
#define B(T)
#define F(m, n, opt, k)
#define E(T)
#include "protocol_table.inc"
#undef S
#undef B
#undef F
#undef E

template <class T> struct IsOpt { static const bool value = false; };
template <class T> struct IsOpt<dap::optional<T>> { static const bool value = true; };

// What a value has to be encoded as.
struct Expect {
  Node* n;
  template <class T> static Node of(T& v) { Node n; put(v, n); return n; }
  static void put(dap::boolean& v, Node& n) { n.kind = 'b'; n.b = v; }
  static void put(dap::integer& v, Node& n) { n.kind = 'i'; n.i = v; }
  static void put(dap::number& v, Node& n) { n.kind = 'n'; n.n = v; }
  static void put(dap::string& v, Node& n) { n.kind = 's'; n.s = v; }
  static void put(dap::object& v, Node& n) {
    n.kind = 'o';
    for (auto& e : v) { Node c; put(e.second, c); n.o.emplace_back(e.first, c); }
  }
  static void put(dap::any& v, Node& n) {
    if (v.is<dap::boolean>()) put(v.get<dap::boolean>(), n);
    else if (v.is<dap::integer>()) put(v.get<dap::integer>(), n);
    else if (v.is<dap::number>()) put(v.get<dap::number>(), n);
    else if (v.is<dap::string>()) put(v.get<dap::string>(), n);
    else if (v.is<dap::object>()) put(v.get<dap::object>(), n);
    else if (v.is<dap::null>()) n.kind = 'z';
    else if (v.is<dap::array<dap::any>>()) put(v.get<dap::array<dap::any>>(), n);
  }
  template <class T> static void put(dap::array<T>& v, Node& n) {
    n.kind = 'a';
    n.a.resize(v.size());
    for (size_t i = 0; i < v.size(); i++) put(v[i], n.a[i]);
  }
  template <class V> static void get(V&, Node& n, dap::null*) { n.kind = 'z'; }
  template <class V, class A> static void get(V& v, Node& n, A*) { put(v.template get<A>(), n); }
  template <class V> static void alt(V&, Node&) {}
  template <class V, class A, class... T> static void alt(V& v, Node& n) {
    if (v.template is<A>()) get(v, n, static_cast<A*>(nullptr));
    else alt<V, T...>(v, n);
  }
  template <class... T> static void put(dap::variant<T...>& v, Node& n) { alt<dap::variant<T...>, T...>(v, n); }
  template <class T> static void put(T& v, Node& n) { n.kind = 'o'; Expect e{&n}; visit(e, v); }
  template <class T> void field(T& v, const char* name, bool opt, char k) {
    Node c;
    put(v, c);
    sx_assert(!opt, "the field is optional in the protocol");
    sx_assert(k == 'v' || c.kind == k, "the field has the type the protocol gives it");
    n->o.emplace_back(name, c);
  }
  template <class T> void field(dap::optional<T>& v, const char* name, bool opt, char k) {
    sx_assert(opt, "the field is required in the protocol");
    if (v.has_value()) field(v.value(), name, false, k);
  }
};

// Arbitrary contents.
struct Gen {
  uint64_t mask = ~0ull;  // which optional fields are set
  unsigned at = 0, depth = 0, flip = 0;
  void set(dap::boolean& v) { v = sx_bool("b"); }
  void set(dap::integer& v) { v = static_cast<int64_t>(sx_sym("i", 64)); }
  void set(dap::number& v) { uint64_t x = sx_sym("n", 64); double d; memcpy(&d, &x, 8); v = d; }
  void set(dap::string& v) { v = symString(2, "s"); }
  void set(dap::object& v) { dap::integer i; set(i); dap::string s; set(s); v["k1"] = i; v["k2"] = s; }
  void set(dap::any& v) { dap::integer i; dap::string s; if (flip++ & 1) { set(i); v = i; } else { set(s); v = s; } }
  template <class T> void set(dap::array<T>& v) { v.resize(2); for (auto& e : v) { T x; set(x); e = x; } }
  void set(dap::variant<dap::string, dap::null>& v) { if (flip++ & 1) v = dap::null(); else { dap::string s; set(s); v = s; } }
  template <class... T> void set(dap::variant<T...>& v) { dap::integer i; dap::string s; if (flip++ & 1) { set(i); v = i; } else { set(s); v = s; } }
  template <class T> void set(T& v) {
    Gen g;
    g.depth = depth + 1;
    g.mask = depth == 0 ? ~0ull : 0;
    visit(g, v);
  }
  template <class T> void field(T& v, const char*, bool, char) { set(v); }
  template <class T> void field(dap::optional<T>& v, const char*, bool, char k) {
    bool on = mask >> at++ & 1;
    if (depth && (k == 'a' || k == 'o')) on = false;
    if (!on) return;
    T x;
    set(x);
    v = x;
  }
};
struct Count {
  unsigned opts = 0;
  std::vector<const char*> req;
  template <class T> void field(T&, const char* n, bool, char) { req.push_back(n); }
  template <class T> void field(dap::optional<T>&, const char*, bool, char) { opts++; }
};

#define S(T, N) template <class V> static void visit(V& v, dap::T& o) { (void)v; (void)o;
#define B(T) visit(v, static_cast<dap::T&>(o));
#define F(m, n, opt, k) v.field(o.m, n, opt, k);
#define E(T) }
#include "protocol_table.inc"
#undef S
#undef B
#undef F
#undef E

static void same(const Node& want, const Node& got, const char* msg) {
  sx_assert(want.kind == got.kind, msg);
  switch (want.kind) {
    case 'b': sx_assert(want.b == got.b, msg); break;
    case 'i': sx_assert(want.i == got.i, msg); break;
    case 'n': sx_assert_same(&want.n, &got.n, 8, msg); break;
    case 's': assertSame(want.s, got.s, msg); break;
    case 'a':
      sx_assert(want.a.size() == got.a.size(), msg);
      for (size_t i = 0; i < want.a.size(); i++) same(want.a[i], got.a[i], msg);
      break;
    case 'o':
      sx_assert(want.o.size() == got.o.size(), "exactly the protocol's fields are encoded");
      for (auto& e : want.o) {
        const Node* g = got.find(e.first);
        sx_assert(g != nullptr, "each field is encoded under its protocol name");
        same(e.second, *g, msg);
      }
      break;
  }
}

template <class T> static void checkType(const char* name) {
  auto ti = dap::TypeOf<T>::type();
  sx_assert(ti->name() == name, "the structure carries its protocol name");
  Count c;
  {
    T o;
    visit(c, o);
  }
  // Which optional fields are set: every subset when there are few, otherwise
  // all, none, each alone and each alone missing.
  uint64_t all = (1ull << c.opts) - 1, mask;
  if (c.opts <= sx_param("subsets", 4)) mask = sx_pick(1ull << c.opts);
  else {
    uint64_t k = sx_pick(2 + 2 * c.opts);
    mask = k == 0 ? 0 : k == 1 ? all : k < 2 + c.opts ? 1ull << (k - 2) : all & ~(1ull << (k - 2 - c.opts));
  }
  T o;
  Gen g;
  g.mask = mask;
  g.flip = static_cast<unsigned>(mask);
  visit(g, o);
  Node want = Expect::of(o), got;
  Rec r(&got);
  sx_assert(ti->serialize(&r, &o), "encoding succeeds");
  same(want, got, "each field is encoded from its own value");
  got.o.emplace_back("zz_unknown", Node());
  got.o.back().second.kind = 'i';
  Dec d(&got);
  T p;
  sx_assert(ti->deserialize(&d, &p), "decoding what was encoded succeeds");
  same(want, Expect::of(p), "each value is decoded into its own field");
  for (auto q : c.req) {
    Node cut = got;
    for (size_t i = 0; i < cut.o.size(); i++) if (cut.o[i].first == q) { cut.o.erase(cut.o.begin() + i); break; }
    Dec e(&cut);
    T x;
    sx_assert(!ti->deserialize(&e, &x), "a missing required field makes decoding fail");
  }
}
typedef void (*Fn)();
static const Fn kAll[] = {
#define S(T, N) [] { checkType<dap::T>(N); },
#define B(T)
#define F(m, n, opt, k)
#define E(T)
#include "protocol_table.inc"
#undef S
#undef B
#undef F
#undef E
};
static const unsigned kCount = sizeof(kAll) / sizeof(kAll[0]);

extern "C" void h_protocol() {
  unsigned part = sx_param("part", 0), parts = sx_param("parts", 1);
  unsigned n = (kCount - part + parts - 1) / parts;
  kAll[part + parts * sx_pick(n)]();
  sx_reach("structure");
}
