// C01..C05: Content-Length framing.
#include "streams.h"
#include "content_stream.h"

using dap::ContentReader;
using dap::ContentWriter;

// ---------------------------------------------------------------- C01
// Messages of every length up to L with arbitrary bytes, written through the
// writer, read back through any fragmentation of the stream.
extern "C" void h_roundtrip() {
  size_t L = sx_param("L", 3), M = sx_param("M", 2);
  auto sink = std::make_shared<Sink>();
  ContentWriter w(sink);
  std::vector<std::string> msgs;
  for (size_t i = 0; i < M; i++) {
    size_t n = 1 + sx_pick(L);
    msgs.push_back(symString(n, "body"));
    sx_assert(w.write(msgs[i]), "write to an open stream succeeds");
  }
  auto src = std::make_shared<Src>();
  src->in = sink->out;
  src->frag = kAny;
  src->merge = true;
  ContentReader r(src, sx_param("strict", 0) ? dap::kClose : dap::kIgnore);
  for (size_t i = 0; i < M; i++) {
    auto got = r.read();
    sx_assert(got.size() == msgs[i].size(), "the message has the length that was written");
    assertSame(got, msgs[i], "the message has the bytes that were written");
    sx_observe(got.size());
    sx_assert(src->open, "well-formed frames never close the stream");
  }
  sx_assert(r.read().empty(), "nothing follows the last message");
  sx_assert(src->pos == src->in.size(), "all input consumed");
  sx_reach("round-trip");
}
// Bodies that contain header text, CR/LF and NUL: the body is a header-like
// text with a symbolic byte at every position in turn.
extern "C" void h_roundtrip_headerlike() {
  static const char* T[] = {"Content-Length: 3\r\n\r\nabc", "Content-Length:", "\r\n\r\n", "\r\n\r\nContent-Length: 1\r\n\r\nx", "\0\0Content-Length:\t1"};
  static const size_t N[] = {24, 15, 4, 26, 19};
  size_t k = sx_pick(5);
  std::string body(T[k], N[k]);
  size_t p = sx_pick(body.size());
  body[p] = (char)sx_sym("byte", 8);
  auto sink = std::make_shared<Sink>();
  ContentWriter w(sink);
  std::string tail = symString(2, "tail");
  w.write(body);
  w.write(tail);
  auto src = std::make_shared<Src>();
  src->in = sink->out;
  src->frag = kFew;
  src->merge = true;
  ContentReader r(src, sx_param("strict", 0) ? dap::kClose : dap::kIgnore);
  auto a = r.read();
  sx_assert(a.size() == body.size(), "the message has the length that was written");
  assertSame(a, body, "the message has the bytes that were written");
  auto b = r.read();
  assertSame(b, tail, "the next message is unaffected by header text in the previous one");
  sx_reach("header-like");
}
// Long messages: lengths around powers of two and ten, a symbolic byte
// at chosen places, fragments of various sizes.
extern "C" void h_roundtrip_long() {
  static const size_t N[] = {9, 10, 99, 100, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 600, 767, 768, 769, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 9999, 10000, 65535, 65536, 65537, 100000};
  size_t i0 = sx_param("from", 0), i1 = sx_param("to", sizeof(N) / sizeof(N[0]));
  size_t n = N[i0 + sx_pick(i1 - i0)];
  std::string body(n, 'a');
  for (size_t i = 0; i < n; i++) body[i] = (char)('a' + i % 23);
  size_t at[] = {0, n / 2, n - 1, n > 256 ? (size_t)256 : (size_t)0, n > 256 ? (size_t)255 : (size_t)0, n > 512 ? (size_t)512 : (size_t)0};
  for (size_t p : at) body[p] = (char)sx_sym("byte", 8);
  std::string tail = symString(2, "tail");
  auto sink = std::make_shared<Sink>();
  ContentWriter w(sink);
  w.write(body);
  w.write(tail);
  auto src = std::make_shared<Src>();
  src->in = sink->out;
  switch (sx_pick(3)) {
    case 0: src->frag = kWhole; break;
    case 1: src->frag = kOne; break;
    case 2: {  // two cut points anywhere interesting
      static const size_t C[] = {1, 15, 16, 19, 20, 21, 22, 23, 24, 25, 26, 27, 100, 255, 256, 277, 278, 279, 511, 512, 533};
      src->cuts.push_back(C[sx_pick(sizeof(C) / sizeof(C[0]))]);
      src->cuts.push_back(src->cuts[0] + 1 + sx_pick(3) * 255);
      break;
    }
  }
  ContentReader r(src, sx_param("strict", 0) ? dap::kClose : dap::kIgnore);
  auto a = r.read();
  sx_assert(a.size() == body.size(), "the message has the length that was written");
  assertSame(a, body, "the message has the bytes that were written");
  auto b = r.read();
  assertSame(b, tail, "the next message follows exactly");
  sx_reach("long");
}

// Many messages on one stream.
extern "C" void h_roundtrip_many() {
  size_t n = sx_param("n", 80);
  auto sink = std::make_shared<Sink>();
  ContentWriter w(sink);
  std::vector<std::string> msgs;
  for (size_t i = 0; i < n; i++) {
    std::string m(1 + i * 7 % 40, static_cast<char>('a' + i % 26));
    if (i % 8 == 0) m[m.size() / 2] = static_cast<char>(sx_sym("byte", 8));
    msgs.push_back(m);
    sx_assert(w.write(m), "write to an open stream succeeds");
  }
  auto src = std::make_shared<Src>();
  src->in = sink->out;
  static const size_t step[] = {0, 1, 7, 64, 256, 257};
  size_t st = step[sx_pick(6)];
  if (st) for (size_t c = st; c < src->in.size(); c += st) src->cuts.push_back(c);
  ContentReader r(src, sx_param("strict", 0) ? dap::kClose : dap::kIgnore);
  for (size_t i = 0; i < n; i++) assertSame(r.read(), msgs[i], "the message has the bytes that were written");
  sx_assert(r.read().empty(), "nothing follows the last message");
  sx_reach("many");
}

// Reader and writer objects are assigned to others between messages.
extern "C" void h_roundtrip_moved() {
  bool strict = sx_param("strict", 0);
  auto sink = std::make_shared<Sink>();
  ContentWriter w(sink), w2;
  std::vector<std::string> msgs;
  unsigned wm = sx_pick(3), rm = sx_pick(4);
  for (unsigned i = 0; i < 3; i++) {
    if (wm == i) w2 = std::move(w);
    msgs.push_back(symString(1 + i, "body"));
    sx_assert((wm <= i ? w2 : w).write(msgs[i]), "write to an open stream succeeds");
  }
  sx_assert(w2.isOpen(), "an assigned writer is open while its stream is");
  auto src = std::make_shared<Src>();
  src->in = sink->out + "x";
  static const unsigned F[] = {kWhole, kOne, kFew};
  src->frag = static_cast<decltype(src->frag)>(F[sx_pick(3)]);
  src->merge = true;
  ContentReader r(src, strict ? dap::kClose : dap::kIgnore), r2;
  for (unsigned i = 0; i < 3; i++) {
    if (rm == i) r2 = std::move(r);
    auto& c = rm <= i ? r2 : r;
    sx_assert(c.isOpen(), "an assigned reader is open while its stream is");
    assertSame(c.read(), msgs[i], "the message has the bytes that were written");
  }
  if (rm == 3) r2 = std::move(r);
  sx_assert(r2.read().empty(), "nothing follows the last message");
  sx_assert(src->open == !strict, "an assigned reader keeps its treatment of invalid data");
  r2.close();
  w2.close();
  sx_assert(!src->open && !sink->open, "closing an assigned object closes its stream");
  sx_assert(!r2.isOpen() && !w2.isOpen(), "closed");
  sx_reach("moved");
}

// ---------------------------------------------------------------- reference
// The framing grammar, read independently of the implementation:
//   frame  = "Content-Length:" *( " " / "\t" ) 1*digit CRLF CRLF body
static const char kPrefix[] = "Content-Length:";
enum { kNoHeader, kHeader, kCut };  // kCut: the input ends inside what may be a header
static int parseHeader(const std::string& s, size_t p, size_t* end, size_t* len, bool* overflow) {
  for (size_t i = 0; i < 15; i++) {
    if (p + i >= s.size()) return kCut;
    if (s[p + i] != kPrefix[i]) return kNoHeader;
  }
  p += 15;
  while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++;
  size_t d = p, v = 0;
  *overflow = false;
  while (p < s.size() && s[p] >= '0' && s[p] <= '9') {
    unsigned char g = (unsigned char)(s[p] - '0');
    if (p - d >= 18) {  // only here can it overflow
      unsigned __int128 x = (unsigned __int128)v * 10 + g;
      if ((x >> 64) != 0) *overflow = true;
      v = (size_t)x;
    } else v = v * 10 + g;
    p++;
  }
  if (p >= s.size()) return kCut;
  if (p == d) return kNoHeader;
  for (size_t i = 0; i < 4; i++) {
    if (p + i >= s.size()) return kCut;
    if (s[p + i] != "\r\n\r\n"[i]) return kNoHeader;
  }
  *end = p + 4;
  *len = v;
  return kHeader;
}
// Lenient: leftmost well-formed non-empty frames.
static std::vector<std::string> refLenient(const std::string& s) {
  std::vector<std::string> out;
  size_t p = 0;
  while (p < s.size()) {
    size_t e, n;
    bool ov;
    if (parseHeader(s, p, &e, &n, &ov) == kHeader && !ov && n > 0) {
      if (n > s.size() - e) break;
      n = sx_concretize(n);
      out.push_back(s.substr(e, n));
      p = e + n;
    } else p++;
  }
  return out;
}
// Strict: frames back to back; *mustClose when the byte sequence is malformed.
static std::vector<std::string> refStrict(const std::string& s, bool* mustClose) {
  std::vector<std::string> out;
  size_t p = 0;
  *mustClose = false;
  while (p < s.size()) {
    size_t e, n;
    bool ov;
    int k = parseHeader(s, p, &e, &n, &ov);
    if (k == kCut) break;
    if (k == kNoHeader || ov) { *mustClose = true; break; }
    if (n == 0) break;  // empty frames: nothing is claimed about what follows
    if (n > s.size() - e) break;
    n = sx_concretize(n);
    out.push_back(s.substr(e, n));
    p = e + n;
  }
  return out;
}

// The streams C02..C04 look at: a template with symbolic bytes in it.
static std::string streamText() {
  std::string s;
  std::string good = "Content-Length: 2\r\n\r\nhi";
  size_t n = sx_param("n", 3);
  switch (sx_param("shape", 0)) {
    case 0: s = symString(n, "g") + good; break;                                                     // garbage, then a frame
    case 1: s = std::string(kPrefix) + symString(n, "g") + good; break;                              // anything after a prefix
    case 2: s = "Content-Length: 5" + symString(n, "g") + good; break;                               // anything after a length
    case 3: s = good + symString(n, "g") + good; break;                                              // between frames
    case 4: { s = "Content-Length: 2\r\n\r\nhi" + good; size_t p = sx_pick(21); for (size_t i = 0; i < n && p + i < 21; i++) s[p + i] = (char)sx_sym("g", 8); break; }  // damaged header
    case 5: s = std::string(kPrefix, sx_pick(16)) + symString(n, "g") + good; break;                 // partial prefix
    case 6: s = std::string(kPrefix) + symString(n, "g") + "\r\n\r\n" + "abcdefgh" + good; break;    // arbitrary length field
    case 7: s = std::string(kPrefix) + symString(n, "g"); break;                                     // header and end of stream
    case 8: { s = good + good; s.resize(s.size() - sx_pick(s.size())); break; }                      // truncated
    case 9: {  // long digit strings: around the machine word
      static const char* D[] = {"18446744073709551615", "18446744073709551616", "184467440737095516", "1844674407370955161", "36893488147419103234", "9223372036854775808", "100000000000000000000", "00000000000000000000000002", "55340232221128654850"};
      std::string d = D[sx_pick(9)];
      for (size_t i = 0; i < n && i < d.size(); i++) d[d.size() - 1 - i] = (char)sx_sym("d", 8);
      s = "Content-Length: " + d + "\r\n\r\nabcdefgh" + good;
      break;
    }
    case 10: {  // damage at the start of a long digit string
      std::string d = "00000000000000000000002";
      size_t p = sx_pick(d.size());
      for (size_t i = 0; i < n && p + i < d.size(); i++) d[p + i] = (char)sx_sym("d", 8);
      s = "Content-Length:" + d + "\r\n\r\nabcdefgh" + good;
      break;
    }
  }
  static const size_t kLong[] = {255, 256, 257, 300, 1023, 1025, 4097, 5000};
  switch (sx_param("shape", 0)) {
    case 11: s = std::string(kLong[sx_pick(8)], sx_pick(2) ? 'x' : 'C') + symString(n, "g") + good; break;                // much garbage
    case 12: s = kPrefix + std::string(kLong[sx_pick(4)], sx_pick(2) ? ' ' : '\t') + symString(n, "g") + "2\r\n\r\nhi" + good; break;  // much space
    case 13: s = kPrefix + std::string(kLong[sx_pick(4)], '0') + symString(n, "g") + "2\r\n\r\nhi" + good; break;         // many digits
    case 14: for (int i = 0; i < 40; i++) s += good + (i % 5 == 4 ? "junk\r\n" : ""); s += symString(n, "g") + good; break;  // many frames
    case 15: {  // a long body that ends early
      static const size_t L[] = {300, 5000, 70000};
      size_t k = L[sx_pick(3)], cut = sx_pick(2) ? 1 : 257;
      s = good + "Content-Length: " + std::to_string(k) + "\r\n\r\n" + std::string(k - cut - n, 'b') + symString(n, "g");
      break;
    }
  }
  return s;
}
static void runReader(dap::OnInvalidData mode) {
  auto src = std::make_shared<Src>();
  src->in = streamText();
  src->frag = sx_param("frag", 0) ? kOne : kWhole;
  ContentReader r(src, mode);
  bool mustClose = false;
  std::vector<std::string> want = mode == dap::kClose ? refStrict(src->in, &mustClose) : refLenient(src->in);
  std::vector<std::string> got;
  bool end = false;
  for (size_t i = 0; i < src->in.size() + 2 && !end; i++) {
    auto m = r.read();
    if (!m.empty()) {
      if (got.size() >= want.size()) sx_fail("a message is delivered that no well-formed frame carries");
      sx_assert(m.size() == want[got.size()].size(), "a delivered message has exactly the declared length");
      assertSame(m, want[got.size()], "a delivered message is the body of its frame");
      got.push_back(m);
    } else {
      end = !src->open || src->eof;
      if (mode == dap::kClose && src->open && mustClose && got.size() == want.size()) sx_fail("strict mode closes the stream on a malformed header");
    }
  }
  sx_assert(got.size() == want.size(), "every well-formed frame is delivered");
  if (mode == dap::kClose) {
    if (mustClose) { sx_assert(!src->open, "strict mode closes the stream on a malformed header"); sx_reach("closed"); }
    for (int i = 0; i < 2; i++) sx_assert(r.read().empty(), "nothing is delivered afterwards");
  } else {
    sx_assert(src->closes == 0, "lenient mode never closes the stream");
  }
  sx_observe(got.size());
  sx_observe(src->open);
  if (got.size() > 0) sx_reach("delivered");
  if (got.size() > 1) sx_reach("delivered2");
}
extern "C" void h_lenient() { runReader(dap::kIgnore); }
extern "C" void h_strict() { runReader(dap::kClose); }

// ---------------------------------------------------------------- C05
struct Picky : dap::Writer {
  std::string out;
  bool open = true;
  int refuseAt = -1, calls = 0;
  bool refused = false, afterRefusal = false;
  bool isOpen() override { return open; }
  void close() override { open = false; }
  bool write(const void* p, size_t n) override {
    if (refused) afterRefusal = true;
    if (calls++ == refuseAt) { refused = true; return false; }
    out.append(static_cast<const char*>(p), n);
    return true;
  }
};
extern "C" void h_writer() {
  static const size_t N[] = {0, 1, 2, 3, 7, 9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 10001, 65535, 65536, 99999, 100000, 1000000};
  size_t n = N[sx_pick(sx_param("sizes", 25))];
  auto w = std::make_shared<Picky>();
  w->refuseAt = (int)sx_pick(5) - 1;
  ContentWriter cw(w);
  std::string body(n, 'x');
  for (size_t i = 0; i < n && i < 8; i++) body[i] = (char)sx_sym("b", 8);
  if (n > 8) { body[n - 1] = (char)sx_sym("b", 8); body[n / 2] = (char)sx_sym("b", 8); }
  bool ok = cw.write(body);
  char num[32];
  size_t k = 0, v = n;
  do { num[k++] = (char)('0' + v % 10); v /= 10; } while (v);
  std::string want = "Content-Length: ";
  while (k) want += num[--k];
  want += "\r\n\r\n";
  size_t hdr = want.size();
  want += body;
  if (ok) {
    sx_assert(!w->refused, "a refused part is never reported as success");
    assertSame(w->out, want, "the transport got exactly the header and the body");
    sx_reach("success");
  } else {
    sx_assert(w->refused, "failure is reported only if the transport refused a part");
    sx_assert(w->out.size() <= want.size(), "no more than the frame was sent");
    assertSame(w->out, want.substr(0, w->out.size()), "only a prefix of the frame was sent");
    sx_assert(w->out.size() < want.size() || n == 0, "a complete frame was not sent");
    sx_assert(!w->afterRefusal, "nothing is sent after a refusal");
    if (w->out.size() < hdr) sx_reach("header refused"); else sx_reach("body refused");
  }
  // a second message after a complete one is framed the same way
  if (ok && sx_pick(2)) {
    std::string b2 = symString(3, "second");
    w->refuseAt = -1;
    sx_assert(cw.write(b2), "an accepting transport means success");
    std::string w2 = want + "Content-Length: 3\r\n\r\n" + b2;
    assertSame(w->out, w2, "frames follow one another without gap");
  }
  sx_observe(w->out.size());
}
extern "C" void h_stream_state() {
  // isOpen / close of reader and writer mirror the transport
  auto src = std::make_shared<Src>();
  auto sink = std::make_shared<Sink>();
  ContentReader r0;
  ContentWriter w0;
  sx_assert(!r0.isOpen() && !w0.isOpen(), "unbound reader and writer are not open");
  r0.close();
  w0.close();
  r0 = ContentReader(src, dap::kClose);
  w0 = ContentWriter(sink);
  sx_assert(r0.isOpen() && w0.isOpen(), "bound reader and writer are open");
  src->in = "Content-Length: 1\r\n\r\n?";
  src->in[src->in.size() - 1] = (char)sx_sym("b", 8);
  auto m = r0.read();
  sx_assert(m.size() == 1 && m[0] == src->in.back(), "the moved reader reads");
  if (sx_pick(2)) src->open = false; else r0.close();
  if (sx_pick(2)) sink->open = false; else w0.close();
  sx_assert(!r0.isOpen() && !w0.isOpen(), "closed means not open");
  sx_assert(!src->open && !sink->open, "close reaches the transport");
  sx_assert(r0.read().empty(), "no message from a closed stream");
  sx_assert(!w0.write("x"), "no success on a closed stream");
  sx_reach("state");
}

// Much garbage in front of a frame.
extern "C" void h_garbage_long() {
  static const size_t N[] = {255, 256, 257, 1024, 4095, 4096, 4097, 65535, 65536, 70000};
  bool strict = sx_param("strict", 0);
  size_t n = N[sx_pick(sizeof(N) / sizeof(N[0]))];
  static const char* kind[] = {"x", "Content-Length", "\r\n", "C"};
  std::string g, unit = kind[sx_pick(4)];
  while (g.size() < n) g += unit;
  std::string body = symString(2, "body");
  std::string any = symString(2, "any");
  auto src = std::make_shared<Src>();
  src->in = g + any + "Content-Length: 2\r\n\r\n" + body;
  for (char c : any) sx_assume(c != ':');
  static const size_t step[] = {0, 1, 100};
  size_t st = step[sx_pick(3)];
  if (st) for (size_t c = st; c < src->in.size(); c += st) src->cuts.push_back(c);
  ContentReader r(src, strict ? dap::kClose : dap::kIgnore);
  auto m = r.read();
  if (strict) {
    sx_assert(m.empty() && !src->open, "garbage closes a strict stream");
  } else {
    assertSame(m, body, "every well-formed frame is delivered");
    sx_assert(src->open, "the stream stays open");
  }
  sx_reach("long garbage");
}
