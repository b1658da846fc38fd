// C12 JSON round trip, C13 total and type-strict decoding, in the adapter the file is compiled for.
#include "streams.h"
#include "json_serializer.h"
#include "dap/protocol.h"
#include "dap/serialization.h"
#include "dap/typeof.h"
#include "dap/types.h"

using dap::any;
using dap::json::Deserializer;
using dap::json::Serializer;

// ---------------------------------------------------------------- helpers
template <typename T>
static std::string encode(const T& v) {
  Serializer s;
  sx_assert(s.serialize(v), "a DAP value can be serialized");
  return s.dump();
}
// Well-formed UTF-8 (Unicode table 3-7), as one condition over the bytes.
static bool utf8(const std::string& s) {
  auto in = [](unsigned char c, unsigned lo, unsigned hi) { return static_cast<bool>((c >= lo) & (c <= hi)); };
  size_t n = s.size();
  bool ok[8];  // ok[i]: the suffix from i is well formed
  ok[n] = true;
  for (size_t k = n; k-- > 0;) {
    auto b = [&](size_t j) { return static_cast<unsigned char>(s[j]); };
    bool r = in(b(k), 0, 0x7f) & ok[k + 1];
    if (k + 1 < n) r |= in(b(k), 0xc2, 0xdf) & in(b(k + 1), 0x80, 0xbf) & ok[k + 2];
    if (k + 2 < n)
      r |= ((in(b(k), 0xe0, 0xe0) & in(b(k + 1), 0xa0, 0xbf)) | ((in(b(k), 0xe1, 0xec) | in(b(k), 0xee, 0xef)) & in(b(k + 1), 0x80, 0xbf)) | (in(b(k), 0xed, 0xed) & in(b(k + 1), 0x80, 0x9f))) & in(b(k + 2), 0x80, 0xbf) & ok[k + 3];
    if (k + 3 < n)
      r |= ((in(b(k), 0xf0, 0xf0) & in(b(k + 1), 0x90, 0xbf)) | (in(b(k), 0xf1, 0xf3) & in(b(k + 1), 0x80, 0xbf)) | (in(b(k), 0xf4, 0xf4) & in(b(k + 1), 0x80, 0x8f))) & in(b(k + 2), 0x80, 0xbf) & in(b(k + 3), 0x80, 0xbf) & ok[k + 4];
    ok[k] = r;
  }
  return ok[0];
}
static const double kNum[] = {0.0, 1.0, -1.0, 0.5, 0.1, -0.3, 1e-3, 123456.789, 1e15, 1e16, 1e17, 123456789012345680.0, 1e20, 1e21, 1e22, 1e23, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 4.9406564584124654e-310, 3.141592653589793, 2.718281828459045, 0.30000000000000004, 9007199254740993.0, 4503599627370497.5, 1.0 / 3, 100.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 1e100, 8.41e21, 6.0221e-23, 4294967296.0, 0.000001, 1.0000000000000002, 5.0e-5, -0.0};
enum { kNums = sizeof kNum / sizeof kNum[0] };
static bool sameNum(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

// Same dynamic type and equal value.
static void assertAny(const any& got, const any& want) {
  if (want.is<dap::boolean>()) {
    sx_assert(got.is<dap::boolean>(), "boolean keeps its type");
    sx_assert(static_cast<bool>(got.get<dap::boolean>()) == static_cast<bool>(want.get<dap::boolean>()), "boolean keeps its value");
  } else if (want.is<dap::integer>()) {
    sx_assert(got.is<dap::integer>(), "integer keeps its type");
    sx_assert(static_cast<int64_t>(got.get<dap::integer>()) == static_cast<int64_t>(want.get<dap::integer>()), "integer keeps its value");
  } else if (want.is<dap::number>()) {
    sx_assert(got.is<dap::number>(), "number keeps its type");
    sx_assert(sameNum(got.get<dap::number>(), want.get<dap::number>()), "number keeps its value");
  } else if (want.is<dap::string>()) {
    sx_assert(got.is<dap::string>(), "string keeps its type");
    assertSame(got.get<dap::string>(), want.get<dap::string>(), "string keeps its bytes");
  } else if (want.is<dap::object>()) {
    sx_assert(got.is<dap::object>(), "object keeps its type");
    auto& g = got.get<dap::object>();
    auto& w = want.get<dap::object>();
    sx_assert(g.size() == w.size(), "object keeps its members");
    for (auto& kv : w) {
      auto it = g.find(kv.first);
      sx_assert(it != g.end(), "object keeps its member names");
      assertAny(it->second, kv.second);
    }
  } else if (want.is<dap::array<any>>()) {
    sx_assert(got.is<dap::array<any>>(), "array keeps its type");
    auto& g = got.get<dap::array<any>>();
    auto& w = want.get<dap::array<any>>();
    sx_assert(g.size() == w.size(), "array keeps its length");
    for (size_t i = 0; i < w.size(); i++) assertAny(g[i], w[i]);
  } else {
    sx_assert(want.is<dap::null>() && got.is<dap::null>(), "null stays null");
  }
}

// ---------------------------------------------------------------- C12
// Integers: windows of arbitrary values around every power of ten and of two.
extern "C" void h_json_int() {
  unsigned w = sx_param("w", 0), nw = sx_param("nw", 1), bits = sx_param("bits", 6);
  uint64_t bases[90];
  unsigned n = 0;
  for (uint64_t p = 10; n < 19; p *= 10) bases[n++] = p;
  for (unsigned k : {6, 7, 8, 15, 16, 24, 31, 32, 33, 48, 52, 53, 54, 62, 63}) bases[n++] = 1ull << k;
  unsigned i = w + nw * static_cast<unsigned>(sx_pick((n - w + nw - 1) / nw));
  uint64_t u = bases[i] + sx_sym("offset", bits);
  if (sx_pick(2)) u -= 1ull << bits;
  if (sx_pick(2)) u = 0 - u;
  int64_t v = static_cast<int64_t>(u);
  auto text = encode(dap::integer(v));
  Deserializer d(text);
  dap::integer r(77);
  sx_assert(d.deserialize(&r), "an encoded integer decodes as an integer");
  sx_assert(static_cast<int64_t>(r) == v, "an integer survives encoding");
  any a;
  sx_assert(d.deserialize(&a) && a.is<dap::integer>(), "an encoded integer decodes as an integer in an any");
  sx_assert(static_cast<int64_t>(a.get<dap::integer>()) == v, "an integer in an any survives decoding");
  sx_assert(encode(any(dap::integer(v))) == text, "an any encodes like its value");
  sx_reach("integer");
}
extern "C" void h_json_number() {
  double v = kNum[sx_pick(kNums)];
  bool neg = sx_pick(2);
  if (neg) v = -v;
  auto text = encode(dap::number(v));
  Deserializer d(text);
  dap::number r(77);
  sx_assert(d.deserialize(&r), "an encoded number decodes as a number");
  sx_assert(sameNum(r, v), "a number survives encoding");
  auto t2 = encode(any(dap::number(v)));
  Deserializer d2(t2);
  any a;
  sx_assert(d2.deserialize(&a) && a.is<dap::number>(), "a number in an any keeps its type");
  sx_assert(sameNum(a.get<dap::number>(), v), "a number in an any survives");
  dap::boolean b(sx_bool("b"));
  auto t3 = encode(b);
  Deserializer d3(t3);
  dap::boolean rb(!static_cast<bool>(b));
  sx_assert(d3.deserialize(&rb), "an encoded boolean decodes as a boolean");
  sx_assert(static_cast<bool>(rb) == static_cast<bool>(b), "a boolean survives encoding");
  sx_reach("number");
}
// Strings of n arbitrary bytes; equality for well-formed UTF-8, no crash otherwise.
extern "C" void h_json_string() {
  size_t n = sx_param("n", 2);
  std::string s = symString(n, "s");
  bool ok = utf8(s);
  if (sx_param("valid", 0)) sx_assume(ok);
  int mode = static_cast<int>(sx_param("mode", 0));
  if (mode == 0) {
    auto text = encode(dap::string(s));
    Deserializer d(text);
    dap::string r("untouched");
    bool got = d.deserialize(&r);
    if (ok) {
      sx_assert(got, "an encoded string decodes as a string");
      assertSame(r, s, "a string survives encoding");
      sx_reach("valid string");
    } else {
      sx_reach("invalid string");
    }
  } else {  // as an object's member name and as a nested value
    dap::object o;
    o[s] = dap::integer(5);
    o["zz" + s] = dap::string(s);
    auto text = encode(o);
    Deserializer d(text);
    dap::object r;
    bool got = d.deserialize(&r);
    if (ok) {
      sx_assert(got && r.size() == 2, "an encoded object decodes with the same members");
      assertAny(any(r), any(o));
      sx_reach("valid string");
    } else {
      sx_reach("invalid string");
    }
  }
}
// Long strings: escapes at buffer boundaries of the writers.
extern "C" void h_json_string_long() {
  static const size_t sz[] = {13, 31, 32, 63, 64, 65, 127, 255, 256, 257, 499, 500, 501, 502, 503, 511, 512, 513, 1024, 2047, 2048, 2049, 4097};
  static const char* ins[] = {"\xf0\x90\x8d\x88", "\n", "\"", "\\", "\xe2\x82\xac", "\x01", "\xc2\x80"};
  size_t n = sz[sx_pick(sizeof sz / sizeof *sz)];
  std::string e = ins[sx_pick(7)];
  std::string s;
  size_t at[] = {0, n / 2, 500, 506, 510, 511, 512, n - 1};
  while (s.size() < n) {
    bool here = false;
    for (size_t p : at) here |= p == s.size();
    if (here) s += e; else s += 'a';
  }
  uint8_t c = static_cast<uint8_t>(sx_sym("c", 7));
  s += static_cast<char>(c);
  auto text = encode(dap::string(s));
  Deserializer d(text);
  dap::string r;
  sx_assert(d.deserialize(&r), "an encoded string decodes as a string");
  assertSame(r, s, "a long string survives encoding");
  sx_reach("long string");
}
// Trees of every shape up to a depth, leaves symbolic.
static any tree(unsigned depth, unsigned width) {
  switch (sx_pick(depth ? 8 : 5)) {
    case 0: return any(dap::boolean(sx_bool("b")));
    case 1: { int64_t v = static_cast<int64_t>(sx_sym("i", 64)); sx_assume(v >= -9 && v <= 99); return any(dap::integer(v)); }
    case 2: return any(dap::number(kNum[sx_pick(3) * 4 + 3]));
    case 3: {
      std::string s = symString(1, "s");
      sx_assume(static_cast<unsigned char>(s[0]) < 0x80);
      return any(dap::string(s));
    }
    case 4: return any();
    case 5: {
      dap::array<any> a;
      size_t n = sx_pick(width + 1);
      for (size_t i = 0; i < n; i++) a.push_back(tree(depth - 1, width - 1));
      return any(a);
    }
    case 6: {
      dap::object o;
      size_t n = sx_pick(width + 1);
      for (size_t i = 0; i < n; i++) o[i ? std::string("k") : std::string()] = tree(depth - 1, width - 1);
      return any(o);
    }
    default: {  // a typed array inside an any decodes as an array of anys
      dap::array<any> a;
      a.push_back(any(dap::integer(static_cast<int64_t>(depth))));
      a.push_back(any(dap::object()));
      a.push_back(any(dap::array<any>()));
      return any(a);
    }
  }
}
extern "C" void h_json_tree() {
  any v = tree(sx_param("depth", 2), sx_param("width", 2));
  auto text = encode(v);
  uint64_t before = 0;
  (void)before;
  Deserializer d(text);
  any r(dap::integer(4711));
  sx_assert(d.deserialize(&r), "an encoded value decodes");
  assertAny(r, v);
  sx_reach("tree");
}
// Deep and wide values.
extern "C" void h_json_deep() {
  static const unsigned D[] = {3, 9, 17, 33, 65, 101, 129, 257};
  unsigned n = D[sx_pick(sx_param("count", 8))], kind = static_cast<unsigned>(sx_pick(3));
  std::string leaf = symString(1, "s");
  sx_assume((static_cast<unsigned char>(leaf[0]) < 0x7f) & (static_cast<unsigned char>(leaf[0]) >= 0x20));
  any v = any(dap::string(leaf));
  for (unsigned i = 0; i < n; i++) {
    if (kind == 0 || (kind == 2 && i & 1)) { dap::array<any> a; a.push_back(std::move(v)); v = any(a); }
    else { dap::object o; o["k"] = std::move(v); v = any(o); }
  }
  auto text = encode(v);
  Deserializer d(text);
  any r(dap::integer(4711));
  sx_assert(d.deserialize(&r), "an encoded value decodes");
  const any* x = &r;
  for (unsigned i = n; i-- > 0;) {
    if (kind == 0 || (kind == 2 && i & 1)) { sx_assert(x->is<dap::array<any>>(), "a nested value keeps its type"); auto& a = x->get<dap::array<any>>(); sx_assert(a.size() == 1, "a nested array keeps its elements"); x = &a[0]; }
    else { sx_assert(x->is<dap::object>(), "a nested value keeps its type"); auto& o = x->get<dap::object>(); sx_assert(o.size() == 1 && o.count("k") == 1, "a nested object keeps its members"); x = &o.at("k"); }
  }
  sx_assert(x->is<dap::string>(), "a nested value keeps its type");
  assertSame(x->get<dap::string>(), leaf, "a nested value keeps its value");
  sx_reach("deep");
}
// Decoding into a value that already holds another.
extern "C" void h_json_used() {
  int64_t v = static_cast<int64_t>(sx_sym("v", 3));
  std::string s = symString(1, "s");
  sx_assume((static_cast<unsigned char>(s[0]) < 0x7f) & (static_cast<unsigned char>(s[0]) >= 0x20));
  unsigned n = static_cast<unsigned>(sx_pick(4)), m = static_cast<unsigned>(sx_pick(4));
  switch (sx_pick(4)) {
    case 0: {
      dap::array<dap::integer> a, r;
      for (unsigned i = 0; i < n; i++) a.push_back(dap::integer(v + i));
      for (unsigned i = 0; i < m; i++) r.push_back(dap::integer(99));
      Deserializer d(encode(a));
      sx_assert(d.deserialize(&r), "decodes");
      sx_assert(r.size() == n, "decoding replaces the elements an array held");
      for (unsigned i = 0; i < n; i++) sx_assert(static_cast<int64_t>(r[i]) == v + static_cast<int64_t>(i), "decoding replaces the elements an array held");
      break;
    }
    case 1: {
      dap::array<dap::string> a, r;
      for (unsigned i = 0; i < n; i++) a.push_back(s);
      for (unsigned i = 0; i < m; i++) r.push_back(std::string(40, 'q'));
      Deserializer d(encode(a));
      sx_assert(d.deserialize(&r), "decodes");
      sx_assert(r.size() == n, "decoding replaces the elements an array held");
      for (unsigned i = 0; i < n; i++) assertSame(r[i], s, "decoding replaces the elements an array held");
      break;
    }
    case 2: {
      any x;
      if (n == 1) x = dap::integer(v);
      if (n == 2) x = dap::string(s);
      if (n == 3) { dap::array<any> a; a.push_back(any(dap::integer(v))); x = a; }
      any y;
      if (m == 1) y = dap::integer(77);
      if (m == 2) y = dap::string(std::string(50, 'q'));
      if (m == 3) { dap::object o; o["a"] = any(dap::boolean(true)); y = o; }
      Deserializer d(encode(x));
      sx_assert(d.deserialize(&y), "decodes");
      assertAny(y, x);
      break;
    }
    default: {
      dap::string x = n & 1 ? s : "", y = m & 1 ? std::string(50, 'q') : "p";
      dap::optional<dap::integer> o(dap::integer(5));
      if (m & 2) o = dap::optional<dap::integer>();
      Deserializer d(encode(x)), e(encode(dap::integer(v)));
      sx_assert(d.deserialize(&y) && e.deserialize(&o), "decodes");
      assertSame(y, x, "decoding replaces a string");
      sx_assert(o.has_value() && o.value() == v, "decoding replaces an optional's value");
    }
  }
  sx_reach("used");
}
extern "C" void h_json_wide() {
  static const unsigned D[] = {3, 9, 17, 33, 65, 101, 129, 257, 300};
  unsigned n = D[sx_pick(9)], kind = static_cast<unsigned>(sx_pick(3));
  int64_t b = static_cast<int64_t>(sx_sym("b", 3));
  std::string leaf = symString(1, "s");
  sx_assume((static_cast<unsigned char>(leaf[0]) < 0x7f) & (static_cast<unsigned char>(leaf[0]) >= 0x20));
  if (kind == 0) {
    dap::array<dap::integer> a, r;
    for (unsigned i = 0; i < n; i++) a.push_back(dap::integer(i % 50 == 2 ? b : 100 + i));
    Deserializer d(encode(a));
    sx_assert(d.deserialize(&r) && r.size() == n, "an array keeps its elements");
    for (unsigned i = 0; i < n; i++) sx_assert(static_cast<int64_t>(r[i]) == (i % 50 == 2 ? b : 100 + static_cast<int64_t>(i)), "an array keeps its elements in order");
  } else if (kind == 1) {
    dap::array<any> a;
    for (unsigned i = 0; i < n; i++) { if (i % 50 == 2) a.push_back(any(dap::string(leaf))); else a.push_back(any(dap::integer(i))); }
    Deserializer d(encode(any(a)));
    any x;
    sx_assert(d.deserialize(&x) && x.is<dap::array<any>>(), "an array stays an array");
    auto& r = x.get<dap::array<any>>();
    sx_assert(r.size() == n, "an array keeps its elements");
    for (unsigned i = 0; i < n; i++) assertAny(r[i], a[i]);
  } else {
    dap::object o;
    for (unsigned i = 0; i < n; i++) { if (i % 50 == 2) o["m" + std::to_string(i)] = any(dap::string(leaf)); else o["m" + std::to_string(i)] = any(dap::integer(i)); }
    Deserializer d(encode(o));
    dap::object r;
    sx_assert(d.deserialize(&r) && r.size() == n, "an object keeps its members");
    for (auto& e : o) { sx_assert(r.count(e.first) == 1, "an object keeps its members"); assertAny(r[e.first], e.second); }
  }
  sx_reach("wide");
}
// Typed values: arrays of each element type, optionals, variants, nested structs.
namespace dap {
struct HInner {
  integer i;
  optional<string> s;
};
struct HOuter {
  boolean b;
  integer i;
  number n;
  string s;
  array<integer> ai;
  array<string> as;
  array<HInner> ah;
  optional<integer> oi;
  optional<boolean> ob;
  optional<array<string>> oas;
  optional<HInner> oh;
  variant<integer, string> v;
  object o;
  any a;
};
DAP_STRUCT_TYPEINFO(HInner, "h-inner", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"));
DAP_STRUCT_TYPEINFO(HOuter, "h-outer", DAP_FIELD(b, "b"), DAP_FIELD(i, "i"), DAP_FIELD(n, "n"), DAP_FIELD(s, "s"), DAP_FIELD(ai, "ai"), DAP_FIELD(as, "as"), DAP_FIELD(ah, "ah"), DAP_FIELD(oi, "oi"), DAP_FIELD(ob, "ob"), DAP_FIELD(oas, "oas"), DAP_FIELD(oh, "oh"), DAP_FIELD(v, "v"), DAP_FIELD(o, "o"), DAP_FIELD(a, "a"));
struct HReq {
  boolean b;
  integer i;
  string s;
  optional<integer> oi;
  optional<string> os;
  optional<array<integer>> oa;
};
DAP_STRUCT_TYPEINFO(HReq, "h-req", DAP_FIELD(b, "b"), DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(oi, "oi"), DAP_FIELD(os, "os"), DAP_FIELD(oa, "oa"));
}  // namespace dap

static int64_t smallInt(const char* n) { int64_t v = static_cast<int64_t>(sx_sym(n, 64)); sx_assume(v >= -9 && v <= 120); return v; }
static std::string ascii(const char* n) { std::string s = symString(1, n); sx_assume(static_cast<unsigned char>(s[0]) < 0x80); return s; }
static void assertInner(const dap::HInner& a, const dap::HInner& b) {
  sx_assert(static_cast<int64_t>(a.i) == static_cast<int64_t>(b.i), "nested struct keeps its integer");
  sx_assert(a.s.has_value() == b.s.has_value(), "nested struct keeps whether its optional is set");
  if (b.s.has_value()) assertSame(a.s.value(), b.s.value(), "nested struct keeps its string");
}
extern "C" void h_json_struct() {
  dap::HOuter v;
  unsigned which = static_cast<unsigned>(sx_pick(8));  // which part is varied
  v.b = dap::boolean(sx_bool("b"));
  v.i = dap::integer(which == 0 ? smallInt("i") : -123456789012345);
  v.n = dap::number(kNum[which == 1 ? sx_pick(kNums) : 3]);
  v.s = which == 2 ? ascii("s") : std::string("a\0\"\\/\n", 6);
  if (which == 3) for (size_t i = sx_pick(4); i; i--) { v.ai.push_back(dap::integer(smallInt("ai"))); v.as.push_back(i == 2 ? std::string() : std::string("e")); }
  if (which == 4) for (size_t i = sx_pick(3); i; i--) { dap::HInner h; h.i = dap::integer(smallInt("hi")); if (i & 1) h.s = std::string("x"); v.ah.push_back(h); }
  if (which == 5) {
    if (sx_pick(2)) v.oi = dap::integer(smallInt("oi"));
    if (sx_pick(2)) v.ob = dap::boolean(sx_bool("ob"));
    if (sx_pick(2)) { dap::array<dap::string> a; for (size_t i = sx_pick(3); i; i--) a.push_back("q"); v.oas = a; }
    if (sx_pick(2)) { dap::HInner h; h.i = dap::integer(5); if (sx_pick(2)) h.s = ascii("hs"); v.oh = h; }
  }
  if (which == 6 && sx_pick(2)) v.v = dap::string(ascii("v")); else v.v = dap::integer(smallInt("vi"));
  if (which == 7) { v.o["k"] = dap::integer(smallInt("ok")); v.a = tree(1, 1); }
  auto text = encode(v);
  Deserializer d(text);
  dap::HOuter r;
  sx_assert(dap::TypeOf<dap::HOuter>::type()->deserialize(&d, &r), "an encoded struct decodes");
  sx_assert(static_cast<bool>(r.b) == static_cast<bool>(v.b), "struct keeps its boolean");
  sx_assert(static_cast<int64_t>(r.i) == static_cast<int64_t>(v.i), "struct keeps its integer");
  sx_assert(sameNum(r.n, v.n), "struct keeps its number");
  assertSame(r.s, v.s, "struct keeps its string");
  sx_assert(r.ai.size() == v.ai.size() && r.as.size() == v.as.size() && r.ah.size() == v.ah.size(), "struct keeps its array lengths");
  for (size_t i = 0; i < v.ai.size(); i++) { sx_assert(static_cast<int64_t>(r.ai[i]) == static_cast<int64_t>(v.ai[i]), "struct keeps its integer array"); assertSame(r.as[i], v.as[i], "struct keeps its string array"); }
  for (size_t i = 0; i < v.ah.size(); i++) assertInner(r.ah[i], v.ah[i]);
  sx_assert(r.oi.has_value() == v.oi.has_value() && r.ob.has_value() == v.ob.has_value() && r.oas.has_value() == v.oas.has_value() && r.oh.has_value() == v.oh.has_value(), "struct keeps which optionals are set");
  if (v.oi.has_value()) sx_assert(static_cast<int64_t>(r.oi.value()) == static_cast<int64_t>(v.oi.value()), "struct keeps its optional integer");
  if (v.ob.has_value()) sx_assert(static_cast<bool>(r.ob.value()) == static_cast<bool>(v.ob.value()), "struct keeps its optional boolean");
  if (v.oas.has_value()) { sx_assert(r.oas.value().size() == v.oas.value().size(), "struct keeps its optional array"); for (size_t i = 0; i < v.oas.value().size(); i++) assertSame(r.oas.value()[i], v.oas.value()[i], "struct keeps its optional array"); }
  if (v.oh.has_value()) assertInner(r.oh.value(), v.oh.value());
  if (v.v.is<dap::integer>()) { sx_assert(r.v.is<dap::integer>(), "variant keeps its type"); sx_assert(static_cast<int64_t>(r.v.get<dap::integer>()) == static_cast<int64_t>(v.v.get<dap::integer>()), "variant keeps its value"); }
  else { sx_assert(r.v.is<dap::string>(), "variant keeps its type"); assertSame(r.v.get<dap::string>(), v.v.get<dap::string>(), "variant keeps its value"); }
  assertAny(any(r.o), any(v.o));
  assertAny(r.a, v.a);
  sx_reach("struct");
}

// ---------------------------------------------------------------- C13
static bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static bool dig(char c) { return (c >= '0') & (c <= '9'); }
// Decodes text as every type and checks that each success is justified by the text.
static void decodeAll(const std::string& text) {
  Deserializer d(text);
  // the libraries take a NUL byte for the end of the text
  size_t b = 0, e = text.size();
  for (size_t i = 0; i < e; i++) if (text[i] == 0) e = i;
  if (e > 2 && text[0] == '\xef' && text[1] == '\xbb' && text[2] == '\xbf') { any x; d.deserialize(&x); return; }  // byte order mark: accepted or not
  while (b < e && ws(text[b])) b++;
  while (e > b && ws(text[e - 1])) e--;
  std::string t = text.substr(b, e - b);
  char f = t.empty() ? '\0' : t[0];
  bool isInt = !t.empty();
  {
    size_t i = f == '-' ? 1 : 0;
    if (t.size() == i) isInt = false;
    if (t.size() > i + 1 && t[i] == '0') isInt = false;
    for (; i < t.size(); i++) if (!dig(t[i])) isInt = false;
  }
  {
    dap::integer v(-77);
    bool ok = d.deserialize(&v);
    if (ok) {
#ifndef CPPDAP_JSON_JSONCPP
      sx_assert(isInt, "only an integer literal decodes as an integer");
#endif
    }
    if (isInt && t.size() < 18) {
      int64_t w = 0;
      for (char c : t) if (c != '-') w = w * 10 + (c - '0');
      if (f == '-') w = -w;
      sx_assert(ok, "an integer literal decodes as an integer");
      sx_assert(static_cast<int64_t>(v) == w, "an integer decodes to its value");
      sx_reach("integer");
    }
    if (!ok) sx_assert(static_cast<int64_t>(v) == -77, "a failed decode leaves the integer alone");
  }
  {
    dap::boolean v(false);
    bool ok = d.deserialize(&v);
    if (ok) { sx_assert(t == (static_cast<bool>(v) ? "true" : "false"), "only true and false decode as a boolean"); sx_reach("boolean"); }
    else sx_assert(t != "true" && t != "false", "true and false decode as booleans");
  }
  {
    dap::number v(-77.5);
    bool ok = d.deserialize(&v);
    if (ok) { sx_assert(dig(f) | (f == '-'), "only a JSON number decodes as a number"); if (isInt && t.size() < 3) sx_assert(static_cast<double>(v) == static_cast<double>((f == '-' ? -(t[1] - '0') : t.size() == 1 ? t[0] - '0' : (t[0] - '0') * 10 + (t[1] - '0'))), "a number decodes to its value"); sx_reach("number"); }
    else sx_assert(!isInt, "an integer literal decodes as a number");
  }
  {
    dap::string v("untouched");
    bool ok = d.deserialize(&v);
    if (ok) {
#ifndef CPPDAP_JSON_JSONCPP
      sx_assert(t.size() >= 2 && f == '"' && t[t.size() - 1] == '"', "only a JSON string decodes as a string");
#endif
      bool plain = true;
      for (size_t i = 1; i + 1 < t.size(); i++) plain &= (t[i] != '\\') & (t[i] != '"');
      if (plain) assertSame(v, t.substr(1, t.size() - 2), "a string without escapes decodes to its bytes");
      sx_reach("string");
    } else {
      bool plain = t.size() >= 2 && f == '"' && t[t.size() - 1] == '"';
      for (size_t i = 1; i + 1 < t.size(); i++) plain = plain & (t[i] != '\\') & (t[i] != '"') & (t[i] >= ' ') & (t[i] < 0x7f);
      sx_assert(!plain, "a printable JSON string decodes as a string");
    }
  }
  {
    dap::object v;
    bool ok = d.deserialize(&v);
    if (ok) { sx_assert(f == '{' || sx_param("comments", 0), "only a JSON object decodes as an object"); sx_reach("object"); }
    dap::array<any> a;
    bool ok2 = d.deserialize(&a);
    if (ok2) { sx_assert(f == '[', "only a JSON array decodes as an array"); sx_reach("array"); }
    dap::array<dap::integer> ai;
    bool ok3 = d.deserialize(&ai);
    if (ok3) sx_assert(ok2 && ai.size() == a.size(), "an array of integers is an array");
    any x(dap::integer(4711));
    if (d.deserialize(&x)) {
      sx_assert(x.is<dap::object>() == ok && x.is<dap::array<any>>() == ok2, "an any holds the type the JSON value has");
      sx_observe(x.is<dap::integer>() + 2 * x.is<dap::string>() + 4 * x.is<dap::boolean>() + 8 * x.is<dap::number>() + 16 * x.is<dap::null>());
    }
    if (t == "{}") sx_assert(ok && v.empty(), "an empty object decodes");
    if (t == "[]") sx_assert(ok2 && a.empty(), "an empty array decodes");
    if (t == "null") sx_assert(!ok && !ok2 && x.is<dap::null>(), "null decodes as null");
  }
  {
    dap::HReq v;
    if (dap::TypeOf<dap::HReq>::type()->deserialize(&d, &v)) sx_assert(f == '{' && t.size() > 20, "a struct with required fields needs them");
  }
}
// n arbitrary bytes, optionally between fixed text.
extern "C" void h_json_text() {
  static const char* pre[] = {"", "{\"a\":", "[1,", "\"", "-", "[[", "{\"", "1", "\"\\u", "\"\\ud834\\u", "[\"a\",", "{\"a\":1,\"", "tr", "1.", "{}"};
  static const char* post[] = {"", "}", "]", "\"", "", "]]", "\":1}", "", "\"", "\"", "]", "\":2}", "", "", ""};
  unsigned k = sx_param("shape", 0);
  size_t n = sx_param("n", 3);
  decodeAll(pre[k] + symString(n, "text") + post[k]);
  sx_reach("decoded");
}
// Digit strings: values around the limits of 64 bits.
extern "C" void h_json_digits() {
  static const char* pre[] = {"922337203685477580", "-922337203685477580", "1844674407370955161", "-1844674407370955161", "99999999999999999999999", "429496729", "214748364", "-214748364", "900719925474099"};
  std::string t = pre[sx_pick(9)];
  std::string s = symString(sx_param("n", 1), "d");
  for (char c : s) sx_assume(dig(c));
  t += s;
  Deserializer d(t);
  dap::integer v(-77);
  bool ok = d.deserialize(&v);
  bool neg = t[0] == '-';
  unsigned __int128 m = 0;
  for (char c : t) if (c != '-') m = m * 10 + static_cast<unsigned>(c - '0');
  uint64_t lim = neg ? 1ull << 63 : (1ull << 63) - 1;
  bool fits = m <= lim;
  sx_assert(ok == fits, "an integer literal decodes exactly when it fits 64 bits");
  if (ok) sx_assert(static_cast<int64_t>(v) == static_cast<int64_t>(neg ? 0 - static_cast<uint64_t>(m) : static_cast<uint64_t>(m)), "an integer literal decodes to its value");
  any x;
  if (d.deserialize(&x) && x.is<dap::integer>()) {
    sx_assert(fits, "an integer in an any is never reduced");
    sx_assert(static_cast<int64_t>(x.get<dap::integer>()) == static_cast<int64_t>(v), "an any holds the integer's value");
  } else {
    sx_assert(!fits, "an integer decodes in an any");
  }
  dap::number n(-1);
  sx_assert(d.deserialize(&n), "an integer literal decodes as a number");
  sx_reach("digits");
}
// Values of each type put where a struct wants another.
extern "C" void h_json_strict() {
  static const char* val[] = {"true", "5", "\"text\"", "1.5", "null", "[]", "[1,2]", "{}", "{\"i\":3}", "[\"x\"]", "18446744073709551615", "", "[1,\"x\"]"};
  enum { T, I, S, N, Z, E, A, O, OB, SA, U, ABSENT, MIX, COUNT };
  // two of the six fields take any value, the others are right
  unsigned f1 = static_cast<unsigned>(sx_pick(6)), f2 = f1;
  if (sx_param("two", 1)) f2 = static_cast<unsigned>(sx_pick(6));
  unsigned k1 = static_cast<unsigned>(sx_pick(COUNT)), k2 = f2 == f1 ? k1 : static_cast<unsigned>(sx_pick(COUNT));
  static const char* names[] = {"b", "i", "s", "oi", "os", "oa"};
  static const unsigned good[] = {T, I, S, I, S, A};
  unsigned k[6];
  std::string text = "{";
  for (unsigned i = 0; i < 6; i++) {
    k[i] = i == f1 ? k1 : i == f2 ? k2 : good[i];
    if (k[i] == ABSENT) continue;
    if (text.size() > 1) text += ",";
    text += std::string("\"") + names[i] + "\":" + val[k[i]];
  }
  text += "}";
  Deserializer d(text);
  dap::HReq v;
  v.i = -7;
  bool ok = dap::TypeOf<dap::HReq>::type()->deserialize(&d, &v);
  bool want = k[0] == T && k[1] == I && k[2] == S;
  sx_assert(ok == want, "a struct decodes exactly when its required fields are there with the right type");
  if (ok) {
    sx_assert(static_cast<bool>(v.b) && static_cast<int64_t>(v.i) == 5 && v.s == "text", "required fields hold the values");
    sx_assert(v.oi.has_value() == (k[3] == I) && (!v.oi.has_value() || static_cast<int64_t>(v.oi.value()) == 5), "an optional is set exactly when its value is there with the right type");
    sx_assert(v.os.has_value() == (k[4] == S) && (!v.os.has_value() || v.os.value() == "text"), "an optional is set exactly when its value is there with the right type");
    bool arr = k[5] == E || k[5] == A;
    sx_assert(v.oa.has_value() == arr && (!arr || v.oa.value().size() == (k[5] == A ? 2u : 0u)), "an optional is set exactly when its value is there with the right type");
    if (k[5] == A) sx_assert(static_cast<int64_t>(v.oa.value()[0]) == 1 && static_cast<int64_t>(v.oa.value()[1]) == 2, "array elements keep their order");
    sx_reach("accepted");
  } else {
    sx_reach("refused");
  }
}
// Every value as every type.
extern "C" void h_json_types() {
  static const char* val[] = {"true", "false", "5", "-5", "\"t\"", "\"\"", "1.5", "1e3", "null", "[]", "[1,2]", "{}", "{\"a\":3}", "18446744073709551615", "-9223372036854775808", "1e400", "", " ", "nul", "[", "{", "{\"a\"}", "[1,]", "\"", "\"\\ud800\"", "01", "+1", ".5", "tru", "truee", "[1 2]", "{\"a\":1,}", "{1:2}", "'a'", "NaN", "Infinity", "-", "\"\x01\"", "\"\xff\"", "\xef\xbb\xbf" "5", "/*c*/5", "5//c"};
  unsigned k = static_cast<unsigned>(sx_pick(sizeof val / sizeof *val));
  std::string t = val[k];
  bool nested = sx_pick(2);
  Deserializer d(nested ? "{\"x\":" + t + "}" : t);
  dap::boolean b;
  dap::integer i;
  dap::number n;
  dap::string s;
  dap::object o;
  dap::array<any> a;
  any x;
  bool r[7] = {};
  auto go = [&](const dap::Deserializer* p) {
    r[0] = p->deserialize(&b); r[1] = p->deserialize(&i); r[2] = p->deserialize(&n); r[3] = p->deserialize(&s);
    r[4] = p->deserialize(&o); r[5] = p->deserialize(&a); r[6] = p->deserialize(&x);
    p->count();
    return true;
  };
  if (nested) d.field("x", go); else go(&d);
  bool isB = k < 2, isI = k == 2 || k == 3 || k == 14, isS = k == 4 || k == 5, isN = isI || k == 6 || k == 7 || k == 13, isA = k == 9 || k == 10, isO = k == 11 || k == 12;
#ifdef CPPDAP_JSON_JSONCPP
  if (k == 7) isI = true;  // a real with an integral value
  bool lenient = k > 14;
#else
  bool lenient = k == 15 || k == 38 || k == 39;  // libraries differ: overflowing real, invalid UTF-8, byte order mark
#endif
  if (!lenient) {
    sx_assert(r[0] == isB && (!isB || static_cast<bool>(b) == (k == 0)), "boolean decoding is type-strict");
    sx_assert(r[1] == isI && (!isI || static_cast<int64_t>(i) == (k == 2 ? 5 : k == 3 ? -5 : k == 7 ? 1000 : INT64_MIN)), "integer decoding is type-strict");
    sx_assert(r[2] == isN && (k != 6 || static_cast<double>(n) == 1.5) && (k != 7 || static_cast<double>(n) == 1000) && (k != 2 || static_cast<double>(n) == 5), "number decoding is type-strict");
    sx_assert(r[3] == isS && (k != 4 || s == "t"), "string decoding is type-strict");
    sx_assert(r[4] == isO && (!isO || o.size() == k - 11u), "object decoding is type-strict");
    sx_assert(r[5] == isA && (!isA || a.size() == (k - 9u) * 2), "array decoding is type-strict");
    if (k <= 12 || k == 14) sx_assert(r[6], "a well-formed value decodes as an any");
    if (r[6]) {
      sx_assert(x.is<dap::boolean>() == isB && x.is<dap::string>() == isS && x.is<dap::object>() == isO && x.is<dap::array<any>>() == isA, "an any takes the type of the value");
      if (k != 13) sx_assert(x.is<dap::integer>() == (isI && k != 7) && x.is<dap::number>() == (k == 6 || k == 7), "an any takes the type of the value");
    }
  }
  sx_reach("types");
}
