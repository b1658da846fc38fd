// C16-C21, C27: dap::Session. Without threads (connect() and getPayload()) for contents and
// histories, with its threads (bind()) for schedules.
#include "streams.h"
#include "json_serializer.h"
#include "dap/io.h"
#include "dap/session.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include "string_buffer.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>

namespace dap {
struct TResp : public Response { integer i; string s; optional<boolean> o; };
DAP_STRUCT_TYPEINFO(TResp, "", DAP_FIELD(i, "ri"), DAP_FIELD(s, "rs"), DAP_FIELD(o, "ro"));
struct TReq : public Request { using Response = TResp; integer i; string s; };
DAP_STRUCT_TYPEINFO(TReq, "treq", DAP_FIELD(i, "qi"), DAP_FIELD(s, "qs"));
struct UResp : public Response { optional<integer> i; };
DAP_STRUCT_TYPEINFO(UResp, "", DAP_FIELD(i, "ri"));
struct UReq : public Request { using Response = UResp; optional<integer> i; };
DAP_STRUCT_TYPEINFO(UReq, "ureq", DAP_FIELD(i, "qi"));
struct TEvent : public Event { integer i; optional<string> s; };
DAP_STRUCT_TYPEINFO(TEvent, "tev", DAP_FIELD(i, "ei"), DAP_FIELD(s, "es"));
struct UEvent : public Event { optional<integer> i; };
DAP_STRUCT_TYPEINFO(UEvent, "uev", DAP_FIELD(i, "ei"));
}  // namespace dap
using dap::TReq; using dap::TResp; using dap::UReq; using dap::UResp; using dap::TEvent; using dap::UEvent;

typedef std::atomic<int> AInt;
static int ld(const AInt& a) { return a.load(std::memory_order_relaxed); }
static int inc(AInt& a) { return a.fetch_add(1, std::memory_order_relaxed); }

static void warm() {  // type information is created on first use and kept
  dap::TypeOf<TReq>::type(); dap::TypeOf<TResp>::type(); dap::TypeOf<UReq>::type(); dap::TypeOf<UResp>::type(); dap::TypeOf<TEvent>::type(); dap::TypeOf<UEvent>::type();
  dap::TypeOf<dap::integer>::type(); dap::TypeOf<dap::string>::type(); dap::TypeOf<dap::boolean>::type();
  dap::TypeOf<dap::optional<dap::boolean>>::type(); dap::TypeOf<dap::optional<dap::integer>>::type(); dap::TypeOf<dap::optional<dap::string>>::type();
  dap::TypeOf<dap::object>::type(); dap::TypeOf<dap::any>::type(); dap::TypeOf<dap::number>::type(); dap::TypeOf<dap::null>::type();
}
static std::string frame(const std::string& m) { return "Content-Length: " + std::to_string(m.size()) + "\r\n\r\n" + m; }
static std::string num(int64_t v) { return std::to_string(v); }

// Splits what a session wrote into messages; anything else is a torn frame.
static std::vector<std::string> unframe(const std::string& w) {
  std::vector<std::string> r;
  static const char* h = "Content-Length: ";
  size_t at = 0;
  while (at < w.size()) {
    sx_assert(w.compare(at, 16, h) == 0, "what is sent is a sequence of whole frames");
    at += 16;
    size_t n = 0, d = at;
    while (at < w.size() && w[at] >= '0' && w[at] <= '9') n = n * 10 + (w[at++] - '0');
    sx_assert(at > d && w.compare(at, 4, "\r\n\r\n") == 0, "what is sent is a sequence of whole frames");
    at += 4;
    sx_assert(n <= w.size() - at, "what is sent is a sequence of whole frames");
    r.push_back(w.substr(at, n));
    at += n;
  }
  return r;
}
// A message written by a session, decoded.
struct Msg {
  dap::json::Deserializer d;
  explicit Msg(const std::string& t) : d(t) {}
  std::string str(const char* f) { dap::string s; sx_assert(d.field(f, &s), "the message has the string field it needs"); return s; }
  int64_t integer(const char* f) { dap::integer i = 0; sx_assert(d.field(f, &i), "the message has the integer field it needs"); return i; }
  bool boolean(const char* f) { dap::boolean b = false; sx_assert(d.field(f, &b), "the message has the boolean field it needs"); return b; }
  bool has(const char* f) { bool p = false; d.field(f, [&](dap::Deserializer* x) { dap::any a; p = x->deserialize(&a); return true; }); return p; }
  template <class T> bool sub(const char* f, T* v) { return d.field(f, v); }
};
static int64_t window() {  // sequence numbers around every representation limit, arbitrary low bits
  static const int64_t base[] = {0, 1000, 2147483640ll, 4294967288ll, 9007199254740984ll, 9223372036854775800ll};
  unsigned k = static_cast<unsigned>(sx_pick(12));
  int64_t v = base[k >> 1] + static_cast<int64_t>(sx_sym("seq", 3));
  return k & 1 ? -v : v;
}
static std::string ascii(size_t n, const char* name) {  // printable, needs no escaping in JSON
  std::string s = symString(n, name);
  for (char c : s) sx_assume((c >= ' ') & (c <= '~') & (c != '"') & (c != '\\'));
  return s;
}

// ---------------------------------------------------------------- C17 one response per request
extern "C" void h_sess_respond() {
  warm();
  uint64_t live = sx_live();
  {
    auto sink = std::make_shared<Sink>();
    auto src = std::make_shared<Src>();
    std::vector<char> log;
    struct W : dap::Writer {
      std::shared_ptr<Sink> s; std::vector<char>* log; bool refuse = false;
      bool isOpen() override { return true; }
      void close() override {}
      bool write(const void* p, size_t n) override { log->push_back('w'); return s->write(p, n) && !refuse; }
    };
    auto w = std::make_shared<W>();
    w->s = sink; w->log = &log;
    unsigned what = static_cast<unsigned>(sx_param("handler", 0));
    bool withSent = sx_pick(2);
    w->refuse = what == 0 && sx_pick(2);
    TResp val;
    val.i = static_cast<int64_t>(sx_sym("ri", 5)) - 9;
    val.s = ascii(2, "rs");
    std::string text = ascii(1, "e") + std::string("%s %n");
    switch (sx_pick(3)) { case 0: break; case 1: text += std::string(2500, 'y'); break; case 2: text += std::string("\0z", 2); }
    text += ascii(1, "e");
    int64_t seq = window();
    int64_t qi = static_cast<int64_t>(sx_sym("qi", 3));
    std::string qs = ascii(1, "qs");
    int calls = 0, sents = 0, errors = 0;
    bool fail = what == 1 || what == 3 || what == 6 || what == 8;
    std::function<void(TResp)> later;
    std::function<void(dap::ResponseOrError<TResp>)> laterE;
    auto s = dap::Session::create();
    s->onError([&](const char*) { errors++; });
    auto got = [&](const TReq& r) { calls++; log.push_back('h'); sx_assert(r.i == qi, "the handler sees the request's arguments"); assertSame(r.s, qs, "the handler sees the request's arguments"); };
    switch (what) {
      case 0: case 1: s->registerHandler([&](const TReq& r) -> dap::ResponseOrError<TResp> { got(r); if (fail) return dap::Error(text); return val; }); break;
      case 2: s->registerHandler([&](const TReq& r) -> TResp { got(r); return val; }); break;
      case 3: s->registerHandler([&](const TReq& r) -> dap::Error { got(r); return dap::Error(text); }); break;
      case 4: s->registerHandler([&](const TReq& r, std::function<void(TResp)> cb) { got(r); cb(val); }); break;
      case 5: case 6: s->registerHandler([&](const TReq& r, std::function<void(dap::ResponseOrError<TResp>)> cb) { got(r); if (fail) cb(dap::Error(text)); else cb(val); }); break;
      case 7: s->registerHandler([&](const TReq& r, std::function<void(TResp)> cb) { got(r); later = cb; }); break;
      case 8: case 9: s->registerHandler([&](const TReq& r, std::function<void(dap::ResponseOrError<TResp>)> cb) { got(r); laterE = cb; }); break;
    }
    if (withSent)
      s->registerSentHandler([&](const dap::ResponseOrError<TResp>& r) {
        sents++;
        log.push_back('s');
        if (fail) assertSame(r.error.message, text, "the response-sent handler gets the error");
        else {
          sx_assert(!r.error, "the response-sent handler gets the value");
          sx_assert(r.response.i == val.i, "the response-sent handler gets the value");
          assertSame(r.response.s, val.s, "the response-sent handler gets the value");
        }
      });
    s->connect(src, w);
    src->in = frame("{\"type\":\"request\",\"seq\":" + num(seq) + ",\"command\":\"treq\",\"arguments\":{\"qi\":" + num(qi) + ",\"qs\":\"" + qs + "\"}}");
    auto p = s->getPayload();
    sx_assert(static_cast<bool>(p), "a well-formed request is dispatched");
    sx_assert(calls == 0 && sink->out.empty(), "nothing happens before the payload runs");
    p();
    sx_assert(calls == 1, "the handler runs once");
    if (what >= 7) {
      sx_assert(sink->out.empty() && sents == 0, "no response before the handler gives one");
      p = nullptr;
      if (what == 7) later(val);
      else if (fail) laterE(dap::Error(text));
      else laterE(val);
    }
    if (w->refuse) { sx_assert(calls == 1, "once"); sx_reach("refused"); }
    else {
      auto ms = unframe(sink->out);
      sx_assert(ms.size() == 1, "exactly one response is written");
      Msg m(ms[0]);
      sx_assert(m.str("type") == "response", "the message is a response");
      sx_assert(m.integer("request_seq") == seq, "the response echoes the request's sequence number");
      sx_assert(m.str("command") == "treq", "the response echoes the request's command");
      sx_assert(m.boolean("success") == !fail, "the response reports success or failure");
      m.integer("seq");
      if (fail) {
        assertSame(m.str("message"), text, "the response carries the error text");
        sx_reach("failure");
      } else {
        TResp r;
        sx_assert(m.sub("body", &r), "the response carries the body");
        sx_assert(r.i == val.i, "the response body holds the handler's value");
        assertSame(r.s, val.s, "the response body holds the handler's value");
        sx_assert(!r.o.has_value(), "the response body holds the handler's value");
        sx_reach("success");
      }
    }
    if (withSent) {
      sx_assert(sents == 1, "the response-sent handler runs once");
      sx_assert(log.back() == 's', "the response-sent handler runs after the response was written");
    }
    sx_assert(log[0] == 'h', "the handler runs first");
    sx_assert(errors == 0, "no error is reported");
    p = nullptr; later = nullptr; laterE = nullptr;
    s.reset();
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}

// ---------------------------------------------------------------- C16 responses and futures
struct Client {
  std::shared_ptr<Sink> sink = std::make_shared<Sink>();
  std::shared_ptr<Src> src = std::make_shared<Src>();
  std::unique_ptr<dap::Session> s = dap::Session::create();
  int errors = 0;
  std::string lastError;
  Client() {
    s->onError([this](const char* m) { errors++; lastError = m; });
    s->connect(src, sink);
  }
  void recv(const std::string& m) {
    src->in += frame(m);
    auto p = s->getPayload();
    sx_assert(!p, "a response is not dispatched to handlers");
  }
};
template <class F> static bool ready(F& f) { return f.wait_for(std::chrono::nanoseconds(0)) == dap::future_status::ready; }

// n requests outstanding, then a history of responses in any order.
extern "C" void h_sess_responses() {
  warm();
  unsigned n = static_cast<unsigned>(sx_param("n", 2)), k = static_cast<unsigned>(sx_param("k", 3));
  uint64_t live = sx_live();
  {
    Client c;
    std::vector<dap::future<dap::ResponseOrError<TResp>>> fut;
    std::vector<int64_t> seq;
    for (unsigned j = 0; j < n; j++) {
      TReq r;
      r.i = j;
      r.s = "a";
      fut.push_back(c.s->send(r));
      auto ms = unframe(c.sink->out);
      sx_assert(ms.size() == j + 1, "each request is one frame");
      Msg m(ms[j]);
      sx_assert(m.str("type") == "request" && m.str("command") == "treq", "the request carries its type and command");
      TReq q;
      sx_assert(m.sub("arguments", &q) && q.i == dap::integer(j) && q.s == "a", "the request carries its arguments");
      seq.push_back(m.integer("seq"));
      for (unsigned x = 0; x < j; x++) sx_assert(seq[x] != seq[j], "sequence numbers differ");
    }
    enum { kOpen, kValue, kError };
    struct Exp { int st = kOpen; int64_t i = 0; std::string s; bool anyText = false; };
    std::vector<Exp> exp(n);
    int errors = 0;
    for (unsigned step = 0; step < k; step++) {
      unsigned t = static_cast<unsigned>(sx_pick(n + 1));
      unsigned kind = step == 0 ? static_cast<unsigned>(sx_param("k0", 0)) : static_cast<unsigned>(sx_pick(2));
      if (step == 0 && sx_param("t0", 9) != 9 && t != sx_param("t0", 9)) sx_stop();
      bool known = t < n && exp[t].st == kOpen;
      int64_t rs = t < n ? seq[t] : 0;
      if (t == n) {  // no such request: anything else, also numbers equal modulo 2^32
        static const int64_t d[] = {0, 1, 5, 4294967296ll, -4294967296ll, 2147483648ll, 9223372036854775807ll, -9223372036854775807ll - 1};
        rs = d[sx_pick(step ? 4 : 8)];
        if (rs == 0) rs = static_cast<int64_t>(n + 1) + static_cast<int64_t>(sx_sym("u", 4));
        else if (rs == 1) rs = -static_cast<int64_t>(sx_sym("u", 4));
        else if (rs > -5000000000ll && rs < 5000000000ll) rs += seq[0];
        for (auto x : seq) sx_assume(rs != x);
      }
      int64_t ri = static_cast<int64_t>(sx_sym("ri", 4));
      std::string text = ascii(2, "t");
      std::string m = "{\"seq\":" + num(7 + step) + ",\"type\":\"response\",\"command\":\"treq\",\"request_seq\":" + num(rs);
      Exp e;
      bool bad = false;
      switch (kind) {
        case 0: if (step == 0) text += std::string(16, 'y'); m += ",\"success\":true,\"body\":{\"ri\":" + num(ri) + ",\"rs\":\"" + text + "\"}}"; e.st = kValue; e.i = ri; e.s = text; break;
        case 1: if (step == 0 && sx_pick(2)) text = "100%d%s%n" + text + std::string(3000, 'x'); m += ",\"success\":false,\"message\":\"" + text + "\"}"; e.st = kError; e.s = text; break;
        case 2: m += ",\"success\":false}"; e.st = kError; e.anyText = true; bad = true; break;
        case 3: m += ",\"message\":\"q\"}"; e.st = kError; e.anyText = true; bad = true; break;
        case 4: m += ",\"success\":true}"; e.st = kValue; e.i = 0; break;
        case 5: m += ",\"success\":false,\"message\":\"\"}"; e.st = kError; e.anyText = true; break;
      }
      int before = c.errors;
      c.recv(m);
      if (!known) { sx_assert(c.errors == before + 1, "a response to no outstanding request is reported once"); sx_reach("unknown"); }
      else if (bad) sx_assert(c.errors <= before + 1, "a malformed response is reported at most once");
      else sx_assert(c.errors == before, "a response to an outstanding request is no error");
      if (known) exp[t] = e;
      for (unsigned j = 0; j < n; j++) {
        sx_assert(ready(fut[j]) == (exp[j].st != kOpen), "a future is completed by its own response and by no other message");
        if (exp[j].st == kOpen) continue;
        auto v = fut[j].get();
        if (exp[j].st == kValue) {
          sx_assert(!v.error, "success is delivered as success");
          sx_assert(v.response.i == exp[j].i, "the response body is delivered");
          assertSame(v.response.s, exp[j].s, "the response body is delivered");
          sx_reach("value");
        } else {
          sx_assert(static_cast<bool>(v.error), "failure is delivered as an error");
          if (!exp[j].anyText) assertSame(v.error.message, exp[j].s, "the error text is delivered unchanged");
          sx_reach("error");
        }
      }
    }
    // the session still works
    c.recv("{\"seq\":99,\"type\":\"response\",\"command\":\"treq\",\"request_seq\":" + num(seq[0]) + ",\"success\":true,\"body\":{\"ri\":3,\"rs\":\"\"}}");
    if (exp[0].st == kOpen) sx_assert(ready(fut[0]) && fut[0].get().response.i == 3, "the session still handles the next message");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}
// A response whose request_seq is not an integer completes nothing and is reported.
extern "C" void h_sess_badseq() {
  warm();
  Client c;
  TReq r;
  auto f = c.s->send(r);
  int64_t seq = Msg(unframe(c.sink->out).at(0)).integer("seq");
  static const char* v[] = {"\"%\"", "null", "true", "[%]", "{\"x\":%}", "%.5", "18446744073709551617", ""};
  std::string t = v[sx_pick(8)];
  size_t at = t.find('%');
  if (at != std::string::npos) t.replace(at, 1, num(seq));
  std::string m = "{\"seq\":1,\"type\":\"response\",\"command\":\"treq\"," + (t.empty() ? "" : "\"request_seq\":" + t + ",") + "\"success\":true,\"body\":{\"ri\":1,\"rs\":\"\"}}";
  c.recv(m);
  sx_assert(c.errors == 1, "a response without an integer request_seq is reported once");
  sx_assert(!ready(f), "and completes no future");
  c.recv("{\"seq\":2,\"type\":\"response\",\"command\":\"treq\",\"request_seq\":" + num(seq) + ",\"success\":true,\"body\":{\"ri\":1,\"rs\":\"\"}}");
  sx_assert(c.errors == 1 && ready(f) && f.get().response.i == 1, "the session still handles the next message");
  sx_reach("bad");
}
// Requests that cannot be sent.
extern "C" void h_sess_unsent() {
  warm();
  uint64_t live = sx_live();
  {
    struct W : dap::Writer {
      int left = 0; bool open = true; std::string out;
      bool isOpen() override { return open; }
      void close() override { open = false; }
      bool write(const void* p, size_t n) override { if (left-- <= 0) return false; out.append(static_cast<const char*>(p), n); return true; }
    };
    auto w = std::make_shared<W>();
    auto src = std::make_shared<Src>();
    auto s = dap::Session::create();
    int errors = 0;
    s->onError([&](const char*) { errors++; });
    unsigned how = static_cast<unsigned>(sx_pick(4));
    if (how != 3) s->connect(src, w);  // 3: never connected
    w->left = how == 1 ? 1 : 0;        // 0: header refused, 1: body refused
    if (how == 2) w->open = false;     // 2: closed
    TReq r;
    auto f = s->send(r);
    sx_assert(ready(f), "a request that cannot be sent completes its future");
    sx_assert(static_cast<bool>(f.get().error), "with an error");
    sx_assert(errors == (how >= 2 ? 1 : 0), "sending to a closed writer is reported");
    std::string text = f.get().error.message;
    w->left = 99;
    w->open = true;
    if (how != 3) {
      int before = errors;
      for (int q = 0; q < 4; q++) {  // an answer to the request that was never sent
        src->in += frame("{\"seq\":1,\"type\":\"response\",\"command\":\"treq\",\"request_seq\":" + num(q) + ",\"success\":true,\"body\":{\"ri\":1,\"rs\":\"\"}}");
        s->getPayload();
      }
      sx_assert(errors == before + 4, "a response to a request that was not sent is reported");
      sx_assert(f.get().error.message == text, "and changes no future");
      w->out.clear();
      auto g = s->send(r);
      auto ms = unframe(w->out);
      sx_assert(ms.size() == 1, "a later request is sent");
      src->in += frame("{\"seq\":1,\"type\":\"response\",\"command\":\"treq\",\"request_seq\":" + num(Msg(ms[0]).integer("seq")) + ",\"success\":true,\"body\":{\"ri\":1,\"rs\":\"\"}}");
      s->getPayload();
      sx_assert(ready(g) && !g.get().error, "and answered");
    }
    sx_reach("unsent");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}

// ---------------------------------------------------------------- C19 envelopes
struct Server {
  std::shared_ptr<Sink> sink = std::make_shared<Sink>();
  std::shared_ptr<Src> src = std::make_shared<Src>();
  std::unique_ptr<dap::Session> s = dap::Session::create();
  int errors = 0, treq = 0, ureq = 0, tev = 0, uev = 0;
  TReq lastT; UReq lastU; TEvent lastE; UEvent lastV;
  int handled() const { return treq + ureq + tev + uev; }
  std::string err;  // the last error text
  Server() {
    s->onError([this](const char* t) { errors++; err = t; });
    s->registerHandler([this](const TReq& r) { treq++; lastT = r; return TResp(); });
    s->registerHandler([this](const UReq& r) { ureq++; lastU = r; return UResp(); });
    s->registerHandler([this](const TEvent& r) { tev++; lastE = r; });
    s->registerHandler([this](const UEvent& r) { uev++; lastV = r; });
    s->connect(src, sink);
  }
  // true if the message was dispatched; checks that it was either dispatched or reported
  bool recv(const std::string& m) {
    src->in += frame(m);
    int e = errors, h = handled();
    auto p = s->getPayload();
    sx_assert(handled() == h, "handlers run only when the payload runs");
    if (p) {
      sx_assert(errors == e, "a dispatched message is not reported");
      p();
      sx_assert(handled() == h + 1, "a dispatched message invokes one handler once");
      sx_assert(errors == e, "a dispatched message is not reported");
      return true;
    }
    sx_assert(errors == e + 1, "a message that is not dispatched is reported exactly once");
    sx_assert(handled() == h, "a reported message reaches no handler");
    return false;
  }
  void alive() {  // the next well-formed messages are handled
    int64_t i = static_cast<int64_t>(sx_sym("n", 2));
    int a = tev, b = treq;
    sx_assert(recv("{\"type\":\"event\",\"seq\":5,\"event\":\"tev\",\"body\":{\"ei\":" + num(i) + "}}"), "the next message is dispatched");
    sx_assert(tev == a + 1 && lastE.i == i && !lastE.s.has_value(), "the next message reaches its handler");
    sx_assert(recv("{\"type\":\"request\",\"seq\":6,\"command\":\"treq\",\"arguments\":{\"qi\":1,\"qs\":\"\"}}") && treq == b + 1, "the next message reaches its handler");
  }
};
extern "C" void h_sess_envelope() {
  warm();
  uint64_t live = sx_live();
  {
    Server v;
    unsigned ty = static_cast<unsigned>(sx_param("type", 0)), sq = static_cast<unsigned>(sx_pick(7)), nm = static_cast<unsigned>(sx_pick(13)), ar = static_cast<unsigned>(sx_pick(9));
    // one axis at a time away from the well-formed message, and every pair with the arguments
    if (ty > 1 && (nm != 1 || ar > 1)) sx_stop();
    if (nm > 8 && ar > 1) sx_stop();
    if (sq && nm != 1 && ar > 1) sx_stop();
    bool req = ty != 1 && ty < 11;
    std::string m, sep;
    auto add = [&](const std::string& f) { m += (m.empty() ? "" : ",") + f; };
    std::string name = ascii(2, "x");
    switch (ty) {
      case 0: add("\"type\":\"request\""); break;
      case 1: add("\"type\":\"event\""); break;
      case 2: break;
      case 3: add("\"type\":\"" + name + "\""); break;
      case 4: add("\"type\":1"); break;
      case 5: add("\"type\":null"); break;
      case 6: add("\"type\":[\"request\"]"); break;
      case 7: add("\"type\":\"Request\""); break;
      case 8: add("\"type\":\"request\\u0000\""); break;
      case 9: add("\"type\":\"" + std::string(5000, 'r') + "%n%s" + name + "\""); break;
      case 10: add("\"type\":\"@%%@%%" + name + "\""); break;
      case 11: add("\"type\":\"event\\u0000\""); break;
      case 12: add("\"type\":\"EVENT\""); break;
      case 13: add("\"type\":\"event" + name + "\""); break;
      case 14: add("\"type\":\"even\""); break;
    }
    static const char* seqs[] = {"\"seq\":1", "", "\"seq\":\"1\"", "\"seq\":1.5", "\"seq\":null", "\"seq\":18446744073709551616", "\"seq\":-3"};
    if (*seqs[sq]) add(seqs[sq]);
    std::string key = req ? "\"command\":" : "\"event\":", T = req ? "treq" : "tev", U = req ? "ureq" : "uev", other = req ? "tev" : "treq";
    switch (nm) {
      case 0: break;
      case 1: add(key + "\"" + T + "\""); break;
      case 2: add(key + "\"" + U + "\""); break;
      case 3: add(key + "\"" + name + "\""); break;
      case 4: add(key + "7"); break;
      case 5: add(key + "\"" + other + "\""); break;
      case 6: add((req ? "\"event\":\"" : "\"command\":\"") + T + "\""); break;
      case 7: add(key + "\"" + std::string(3000, '%') + "n" + name + "\""); break;
      case 8: add(key + "\"@%%@%%" + name + "\""); break;
      case 9: add(key + "\"" + T + "\\u0000\""); break;
      case 10: add(key + "\"" + T + name + "\""); break;
      case 11: add(key + "\"" + T.substr(0, T.size() - 1) + "\""); break;
      case 12: add(key + "\"T" + T.substr(1) + "\""); break;
    }
    std::string ak = req ? "\"arguments\":" : "\"body\":", ik = req ? "\"qi\":" : "\"ei\":";
    int64_t i = static_cast<int64_t>(sx_sym("i", 3));
    std::string val = ascii(1, "v");
    switch (ar) {
      case 0: break;
      case 1: add(ak + "{" + ik + num(i) + (req ? ",\"qs\":\"" : ",\"es\":\"") + val + "\"}"); break;
      case 2: add(ak + "{\"zz\":1}"); break;
      case 3: add(ak + "{" + ik + "\"a\",\"qs\":1}"); break;
      case 4: add(ak + "[1]"); break;
      case 5: add(ak + "\"x\""); break;
      case 6: add(ak + "{}"); break;
      case 7: add(ak + "3"); break;
      case 8: add(ak + std::string(40, '[') + std::string(40, ']')); break;
    }
    bool done = v.recv("{" + m + "}");
    bool envelope = ty <= 1 && (sq == 0 || sq == 6);
    bool t = envelope && nm == 1 && ar == 1;
    bool u = envelope && nm == 2 && (ar <= 3 || ar == 6);
    sx_assert(done == (t || u), "exactly the well-formed messages for a registered handler are dispatched");
    if (t) {
      if (req) { sx_assert(v.treq == 1 && v.lastT.i == i, "the handler gets the decoded contents"); assertSame(v.lastT.s, val, "the handler gets the decoded contents"); }
      else { sx_assert(v.tev == 1 && v.lastE.i == i && v.lastE.s.has_value(), "the handler gets the decoded contents"); assertSame(v.lastE.s.value(), val, "the handler gets the decoded contents"); }
      sx_reach("dispatched");
    } else if (u) {
      sx_assert((req ? v.ureq : v.uev) == 1, "the handler registered for the name is invoked");
      auto& o = req ? v.lastU.i : v.lastV.i;
      sx_assert(o.has_value() == (ar == 1), "the handler gets the decoded contents");
      if (ar == 1) sx_assert(o.value() == i, "the handler gets the decoded contents");
      sx_reach("dispatched");
    } else {
      // message contents quoted in the report are not interpreted
      if (nm == 8 || ty == 10) { size_t at = v.err.find('@'); sx_assert(at == std::string::npos || v.err.compare(at, 6, "@%%@%%") == 0, "formatting characters in a message are ordinary text"); }
      sx_reach("reported");
    }
    v.alive();
    if (!t && !(u && req)) sx_assert(unframe(v.sink->out).size() == 1, "only dispatched requests are answered");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}
// Arbitrary message texts, and arbitrary bytes inside a well-formed message.
extern "C" void h_sess_text() {
  warm();
  uint64_t live = sx_live();
  {
    Server v;
    size_t n = sx_param("n", 3);
    unsigned shape = static_cast<unsigned>(sx_param("shape", 0));
    std::string g = symString(n, "g"), m;
    bool maybe = false;
    switch (shape) {
      case 0: m = g; break;
      case 1: m = "{\"type\":\"request\",\"seq\":1,\"command\":\"treq\"" + g; break;
      case 2: m = "{\"type\":\"event\",\"seq\":1,\"event\":\"uev\",\"body\":" + g + "}"; maybe = true; break;
      case 3: m = "{\"type\":\"request\",\"seq\":" + g + ",\"command\":\"ureq\",\"arguments\":{}}"; maybe = true; break;
      case 4: m = "{\"type\":\"request\",\"seq\":1,\"command\":\"ur" + g + "\",\"arguments\":{}}"; maybe = true; break;
      case 5: m = "[" + g + "]"; break;
      case 6: m = "{\"type\":\"response\",\"seq\":1,\"request_seq\":" + g + "}"; break;
    }
    bool done = v.recv(m);
    if (!maybe) sx_assert(!done, "text that is no well-formed message reaches no handler");
    if (done && shape == 4) sx_assert(v.ureq == 1, "the handler registered for the name is invoked");
    v.alive();
    sx_reach("text");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}

// ---------------------------------------------------------------- C27 registration and error texts
extern "C" void h_sess_register() {
  warm();
  uint64_t live = sx_live();
  {
    auto sink = std::make_shared<Sink>();
    auto src = std::make_shared<Src>();
    auto s = dap::Session::create();
    unsigned n = static_cast<unsigned>(sx_param("n", 3));
    int first[6] = {-1, -1, -1, -1, -1, -1}, ran[6] = {-1, -1, -1, -1, -1, -1}, runs[6] = {0, 0, 0, 0, 0, 0};
    int eh = -1;               // the error handler that has to be used
    std::vector<int> got;      // which error handlers were called
    size_t want = 0;
    auto mark = [&](int k, int id) { ran[k] = id; runs[k]++; };
    for (unsigned j = 0; j < n; j++) {
      int id = static_cast<int>(j), k = static_cast<int>(sx_pick(8));
      if (k == 6) { s->onError([&got, id](const char*) { got.push_back(id); }); eh = id; continue; }
      if (k == 7) { s->onError(nullptr); eh = -1; continue; }
      switch (k) {
        case 0: s->registerHandler([=](const TReq&) { mark(0, id); return TResp(); }); break;
        case 1: s->registerHandler([=](const UReq&) { mark(1, id); return UResp(); }); break;
        case 2: s->registerHandler([=](const TEvent&) { mark(2, id); }); break;
        case 3: s->registerHandler([=](const UEvent&) { mark(3, id); }); break;
        case 4: s->registerSentHandler([=](const dap::ResponseOrError<TResp>&) { mark(4, id); }); break;
        case 5: s->registerSentHandler([=](const dap::ResponseOrError<UResp>&) { mark(5, id); }); break;
      }
      if (first[k] < 0) first[k] = id;
      else { if (eh >= 0) want++; sx_reach("duplicate"); }
      sx_assert(got.size() == want, "registering a second handler is reported once, a first one is not");
      if (want && !got.empty() && first[k] != id && eh >= 0) sx_assert(got.back() == eh, "the most recent error handler is used");
    }
    s->connect(src, sink);
    static const char* m[4] = {"{\"type\":\"request\",\"seq\":1,\"command\":\"treq\",\"arguments\":{\"qi\":1,\"qs\":\"\"}}", "{\"type\":\"request\",\"seq\":2,\"command\":\"ureq\",\"arguments\":{}}",
                               "{\"type\":\"event\",\"seq\":3,\"event\":\"tev\",\"body\":{\"ei\":1}}", "{\"type\":\"event\",\"seq\":4,\"event\":\"uev\",\"body\":{}}"};
    for (int k = 0; k < 4; k++) {
      src->in += frame(m[k]);
      auto p = s->getPayload();
      sx_assert(static_cast<bool>(p) == (first[k] >= 0), "a message is dispatched if a handler is registered for it");
      if (p) p();
      else if (eh >= 0) { want++; sx_assert(got.size() == want && got.back() == eh, "the most recent error handler receives the error"); }
      sx_assert(got.size() == want, "each error is reported once");
      sx_assert(ran[k] == first[k] && runs[k] == (first[k] >= 0), "exactly the first handler registered is used");
    }
    for (int k = 4; k < 6; k++) {
      bool fired = first[k] >= 0 && first[k - 4] >= 0;
      sx_assert(ran[k] == (fired ? first[k] : -1) && runs[k] == fired, "exactly the first response-sent handler of the response type is used");
    }
    sx_reach("registered");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}
// Error texts: the part around the reported name is learned from a short name, so any wording will do.
extern "C" void h_sess_errtext() {
  warm();
  auto sink = std::make_shared<Sink>();
  auto src = std::make_shared<Src>();
  auto s = dap::Session::create();
  std::string last;
  int count = 0;
  s->onError([&](const char* m) { last = m; count++; });
  s->connect(src, sink);
  unsigned kind = static_cast<unsigned>(sx_pick(4));
  auto provoke = [&](const std::string& name) {
    std::string m;
    switch (kind) {
      case 0: m = "{\"seq\":1,\"type\":\"" + name + "\"}"; break;
      case 1: m = "{\"seq\":1,\"type\":\"request\",\"command\":\"" + name + "\",\"arguments\":{}}"; break;
      case 2: m = "{\"seq\":1,\"type\":\"event\",\"event\":\"" + name + "\"}"; break;
      case 3: m = "{\"seq\":1,\"type\":\"response\",\"request_seq\":" + name + ",\"success\":true}"; break;
    }
    src->in += frame(m);
    int c = count;
    sx_assert(!s->getPayload() && count == c + 1, "reported once");
    return last;
  };
  std::string probe = kind == 3 ? "7777777" : "qxzqxzq";
  std::string t = provoke(probe);
  size_t at = t.find(probe);
  if (at == std::string::npos) { sx_reach("error text"); return; }
  std::string pre = t.substr(0, at), suf = t.substr(at + probe.size()), name;
  if (kind == 3) name = num(window());
  else {
    unsigned len = static_cast<unsigned>(sx_pick(6)), over = static_cast<unsigned>(pre.size());
    static const unsigned L[] = {3, 500, 2044, 2047, 2052, 6000};
    size_t k = L[len] > over + 10 ? L[len] - over : L[len];
    name = std::string(k, 'n');
    name.replace(0, 3, ascii(1, "n") + "%n");
    name[k - 1] = ascii(1, "n")[0];
  }
  std::string want = (pre + name + suf).substr(0, 2047);
  assertSame(provoke(name), want, "the error text is the formatted message, cut to the buffer size");
  sx_reach("error text");
}
extern "C" void h_texts() {
  static const size_t L[] = {0, 1, 100, 2040, 2046, 2047, 2048, 2049, 5000};
  size_t n = L[sx_pick(9)];
  std::string a = std::string(n, 'a');
  if (n) a[0] = symString(1, "a")[0];
  if (n) a[n - 1] = symString(1, "a")[0];
  if (n) sx_assume((a[0] != 0) & (a[n - 1] != 0));
  int64_t i = window();
  std::string want = (a + ":" + num(i) + "%").substr(0, 2047);
  assertSame(dap::Error("%s:%lld%%", a.c_str(), static_cast<long long>(i)).message, want, "an error's text is the formatted message, cut to the buffer size");
  std::string raw = symString(2, "r") + "%s%n" + a;
  assertSame(dap::Error(raw).message, raw, "an error made from a string keeps it unchanged");
  auto sink = std::make_shared<Sink>();
  bool ok = sx_pick(2);
  sink->open = ok;
  sx_assert(dap::writef(sink, "%s:%lld%%", a.c_str(), static_cast<long long>(i)) == ok, "writef reports the writer's result");
  if (ok) assertSame(sink->out, want, "writef writes the formatted message, cut to the buffer size");
  sx_reach("texts");
}

// ---------------------------------------------------------------- threads
// The peer's side of a connection: input that is there from the start or produced by
// reacting to what the session writes; reading past it blocks until the stream is closed.
struct Peer : dap::ReaderWriter {
  std::mutex m;
  std::condition_variable cv;
  std::string in, out;
  size_t pos = 0, seen = 0;
  bool open = true;
  int closes = 0;
  bool reply = false;   // answer requests
  bool eof = false;     // the input ends
  bool eager = false;   // and the stream says so with the last byte
  bool stuck = false;   // writes block until the stream is closed
  std::vector<std::pair<int, std::string>> writes;
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return open; }
  void close() override { std::unique_lock<std::mutex> l(m); open = false; closes++; cv.notify_all(); }
  size_t read(void* p, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    if (eof && pos == in.size()) { open = false; cv.notify_all(); }
    cv.wait(l, [&] { return pos < in.size() || !open; });
    size_t k = std::min(n, in.size() - pos);
    if (!open) return 0;
    memcpy(p, in.data() + pos, k);
    pos += k;
    if (eager && pos == in.size()) open = false;
    return k;
  }
  bool write(const void* p, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    if (stuck) cv.wait(l, [&] { return !open; });
    if (!open) return false;
    out.append(static_cast<const char*>(p), n);
    while (reply) {  // every complete frame
      size_t h = out.find("\r\n\r\n", seen), k = 0;
      if (h == std::string::npos) break;
      for (size_t i = seen; i < h; i++) if (out[i] >= '0' && out[i] <= '9') k = k * 10 + static_cast<size_t>(out[i] - '0');
      if (out.size() - h - 4 < k) break;
      Msg q(out.substr(h + 4, k));
      seen = h + 4 + k;
      if (q.str("type") == "request") {
        in += frame("{\"seq\":50,\"type\":\"response\",\"command\":\"x\",\"request_seq\":" + num(q.integer("seq")) + ",\"success\":true,\"body\":{\"ri\":" + num(q.integer("seq") + 100) + ",\"rs\":\"\"}}");
        cv.notify_all();
      }
    }
    return true;
  }
};
// C18: concurrent senders and a responding handler.
extern "C" void h_sess_conc() {
  warm();
  auto peer = std::make_shared<Peer>();
  auto s = dap::Session::create();
  unsigned a = static_cast<unsigned>(sx_param("a", 1)), b = static_cast<unsigned>(sx_param("b", 1)), c = static_cast<unsigned>(sx_param("c", 1));
  AInt errors{0};
  s->onError([&](const char*) { inc(errors); });
  s->registerHandler([](const UReq&) { UResp r; r.i = dap::integer(5); return r; });
  s->connect(peer);
  std::string t = ascii(1, "t");
  std::vector<dap::future<dap::ResponseOrError<TResp>>> fut;
  for (unsigned j = 0; j < c; j++) peer->in += frame("{\"type\":\"request\",\"seq\":" + num(40 + j) + ",\"command\":\"ureq\",\"arguments\":{}}");
  std::thread ta([&] { for (unsigned j = 0; j < a; j++) { TReq r; r.i = 10 + j; r.s = t; fut.push_back(s->send(r)); } });
  std::thread tb([&] { for (unsigned j = 0; j < b; j++) { TEvent e; e.i = 20 + j; e.s = t; s->send(e); } });
  for (unsigned j = 0; j < c; j++) s->getPayload()();
  ta.join();
  tb.join();
  auto ms = unframe(peer->out);
  sx_assert(ms.size() == a + b + c, "one frame per message sent");
  std::vector<int64_t> seqs, rs(a);
  unsigned na = 0, nb = 0, nc = 0;
  for (auto& x : ms) {
    Msg m(x);
    int64_t q = m.integer("seq");
    for (auto o : seqs) sx_assert(o != q, "no two messages carry the same sequence number");
    seqs.push_back(q);
    auto ty = m.str("type");
    if (ty == "request") { TReq r; sx_assert(m.sub("arguments", &r) && r.i == dap::integer(10 + na), "messages of one thread keep their order"); assertSame(r.s, t, "contents"); rs[na++] = q; }
    else if (ty == "event") { TEvent e; sx_assert(m.sub("body", &e) && e.i == dap::integer(20 + nb++), "messages of one thread keep their order"); assertSame(e.s.value(), t, "contents"); }
    else { UResp u; sx_assert(ty == "response" && m.integer("request_seq") == 40 + nc++ && m.boolean("success") && m.sub("body", &u) && u.i.value() == 5, "each response is whole"); }
  }
  sx_assert(na == a && nb == b && nc == c, "every message is sent once");
  for (unsigned j = a; j-- > 0;) {
    peer->in += frame("{\"seq\":9,\"type\":\"response\",\"command\":\"treq\",\"request_seq\":" + num(rs[j]) + ",\"success\":true,\"body\":{\"ri\":" + num(70 + j) + ",\"rs\":\"\"}}");
    s->getPayload();
  }
  for (unsigned j = 0; j < a; j++) sx_assert(ready(fut[j]) && fut[j].get().response.i == dap::integer(70 + j), "each future is completed by its own response");
  sx_assert(ld(errors) == 0, "no error");
  sx_reach("sent");
}
// C18: two threads send requests on a bound session and wait for their answers.
extern "C" void h_sess_conc_bound() {
  warm();
  auto peer = std::make_shared<Peer>();
  peer->reply = true;
  auto s = dap::Session::create();
  AInt errors{0};
  s->onError([&](const char*) { inc(errors); });
  s->bind(peer);
  auto one = [&](int64_t) {
    TReq r;
    r.i = 1;
    auto v = s->send(r).get();
    sx_assert(!v.error, "answered");
    return static_cast<int64_t>(v.response.i);
  };
  int64_t x = 0;
  std::thread t([&] { x = one(1); });
  int64_t y = one(2);
  t.join();
  sx_assert(x != y, "each future is completed by its own response");
  s.reset();
  sx_assert(ld(errors) == 0, "no error");
  sx_reach("answered");
}
// C20: order of dispatch.
extern "C" void h_sess_order() {
  warm();
  auto peer = std::make_shared<Peer>();
  peer->reply = true;
  unsigned n = static_cast<unsigned>(sx_param("n", 2)), nested = static_cast<unsigned>(sx_param("nested", 0)), late = static_cast<unsigned>(sx_param("late", 0));
  unsigned mix = static_cast<unsigned>(sx_param("mix", 1));
  std::vector<std::string> f, txt;
  for (unsigned j = 0; j < n; j++) {
    txt.push_back(ascii(1, "t"));
    f.push_back(frame(mix >> j % 4 & 1 ? "{\"type\":\"request\",\"seq\":" + num(j) + ",\"command\":\"treq\",\"arguments\":{\"qi\":" + num(j) + ",\"qs\":\"" + txt[j] + "\"}}" : "{\"type\":\"event\",\"seq\":" + num(j) + ",\"event\":\"tev\",\"body\":{\"ei\":" + num(j) + ",\"es\":\"" + txt[j] + "\"}}"));
  }
  for (unsigned j = 0; j + late < n; j++) peer->in += f[j];
  peer->eof = sx_param("eof", 0);
  peer->eager = sx_param("eof", 0) == 2;  // the peer closes after the last message
  auto s = dap::Session::create();
  AInt inside{0}, next{0}, errors{0};
  dap::promise<bool> all;
  s->onError([&](const char*) { inc(errors); });
  auto handle = [&](int64_t i, const std::string& t) {
    sx_assert(inc(inside) == 0, "one handler at a time");
    if (!nested) sx_yield();
    if (nested && i == 0) {
      TReq r;
      auto v = s->send(r).get();
      sx_assert(!v.error, "responses are received while a handler runs");
      sx_reach("nested");
    }
    sx_assert(inc(next) == i, "handlers run in arrival order, each message once");
    sx_assert(i >= 0 && i < static_cast<int64_t>(n), "the message that was sent");
    assertSame(t, txt[static_cast<size_t>(i)], "the handler gets its message's contents");
    inside.fetch_sub(1, std::memory_order_relaxed);
    if (i + 1 == static_cast<int64_t>(n)) all.set_value(true);
  };
  s->registerHandler([&](const TReq& r) { handle(r.i, r.s); return TResp(); });
  s->registerHandler([&](const TEvent& r) { handle(r.i, r.s.value("")); });
  s->bind(peer);
  for (unsigned j = n - late; j < n; j++) { std::unique_lock<std::mutex> l(peer->m); peer->in += f[j]; peer->cv.notify_all(); }
  all.get_future().wait();
  s.reset();
  sx_assert(ld(next) == static_cast<int>(n), "every message is handled once");
  sx_assert(ld(errors) <= static_cast<int>(peer->eof ? n : mix >> (n - 1) % 4 & 1), "no error but a response that finds the writer closed");
  sx_assert(sx_threads() == 0, "no thread is left");
  sx_reach("ordered");
}
// C21: peer close, local sends and destruction at any moment.
extern "C" void h_sess_close() {
  warm();
  uint64_t live = sx_live();
  {
    auto peer = std::make_shared<Peer>(), wpeer = sx_param("split", 1) ? std::make_shared<Peer>() : peer;
    wpeer->stuck = sx_param("stuck", 0);
    unsigned n = static_cast<unsigned>(sx_param("n", 1)), mode = static_cast<unsigned>(sx_param("mode", 0));
    std::string txt = ascii(1, "t");
    for (unsigned j = 0; j < n; j++)
      peer->in += frame(j & 1 ? "{\"type\":\"request\",\"seq\":7,\"command\":\"treq\",\"arguments\":{\"qi\":1,\"qs\":\"" + txt + "\"}}" : "{\"type\":\"event\",\"seq\":6,\"event\":\"tev\",\"body\":{\"ei\":" + num(j) + ",\"es\":\"" + txt + "\"}}");
    AInt closed{0}, handled{0}, after{0}, gone{0};
    auto s = dap::Session::create();
    auto raw = s.get();
    s->onError([&](const char*) {});
    s->registerHandler([&](const TReq& r) { assertSame(r.s, txt, "the handler gets its message's contents"); sx_assert(!ld(gone), "no handler runs after destruction"); inc(handled); return TResp(); });
    s->registerHandler([&](const TEvent& v) { assertSame(v.s.value(""), txt, "the handler gets its message's contents"); sx_assert(!ld(gone), "no handler runs after destruction"); inc(handled); if (mode == 3) { UEvent e; raw->send(e); } });
    s->bind(peer, wpeer, [&] { sx_assert(!ld(gone), "onClose does not run after destruction"); inc(closed); });
    std::thread t;
    if (mode == 1) t = std::thread([&] { peer->close(); });
    if (mode == 2) { UEvent e; s->send(e); }
    if (mode == 4) { peer->close(); }
    if (mode == 6) t = std::thread([&] { wpeer->close(); });
    if (mode == 7) { t = std::thread([&] { UReq r; raw->send(r); }); t.join(); peer->close(); }
    if (mode == 5) { UReq r; t = std::thread([&s, r] { auto f = s->send(r); }); t.join(); }
    s.reset();
    gone.store(1, std::memory_order_relaxed);
    sx_assert(ld(closed) == 1, "onClose runs exactly once");
    sx_assert(ld(handled) <= static_cast<int>(n), "each message is handled at most once");
    if (t.joinable()) t.join();
    sx_assert(sx_threads() == 0, "no thread is left running");
    sx_assert(!peer->isOpen() && !wpeer->isOpen(), "both streams are closed");
    sx_reach("closed");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}
// The peer closes; onClose runs without the session being destroyed.
extern "C" void h_sess_peer_close() {
  warm();
  auto peer = std::make_shared<Peer>();
  auto s = dap::Session::create();
  AInt closed{0};
  dap::promise<bool> p;
  s->bind(peer, [&] { if (inc(closed) == 0) p.set_value(true); });
  std::thread t([&] { peer->close(); });
  p.get_future().wait();
  t.join();
  TReq r;
  auto f = s->send(r);
  sx_assert(ready(f) && f.get().error, "requests after the close fail");
  s.reset();
  sx_assert(ld(closed) == 1, "onClose runs exactly once");
  sx_reach("peer closed");
}
// connect() and startProcessingMessages() a second time; sessions never bound or never started.
extern "C" void h_sess_twice() {
  warm();
  uint64_t live = sx_live();
  {
    auto p1 = std::make_shared<Peer>(), p2 = std::make_shared<Peer>();
    auto s = dap::Session::create();
    AInt errors{0}, c1{0}, c2{0}, handled{0};
    s->onError([&](const char*) { inc(errors); });
    s->registerHandler([&](const TEvent&) { inc(handled); });
    unsigned how = static_cast<unsigned>(sx_pick(5));
    p2->in = frame("{\"type\":\"event\",\"seq\":6,\"event\":\"tev\",\"body\":{\"ei\":1}}");
    if (how == 0) {}  // destroyed unused
    if (how == 1) { s->connect(p1); s->connect(p2); sx_assert(ld(errors) == 1, "a second connect is reported"); }
    if (how == 4) { s->startProcessingMessages([&] { inc(c1); }); }  // never connected
    if (how == 2 || how == 3) { s->bind(p1, [&] { inc(c1); }); }
    if (how == 2) { s->connect(p2); sx_assert(ld(errors) == 1, "a second connect is reported"); }
    if (how == 3) { s->startProcessingMessages([&] { inc(c2); }); sx_assert(ld(errors) == 1, "a second start is reported"); }
    UEvent e;
    s->send(e);
    if (how && how < 4) sx_assert(!p1->out.empty(), "the first connection is still used");
    sx_assert(p2->out.empty() && p2->pos == 0, "the second connection is not used");
    s.reset();
    sx_assert(ld(errors) == 1, "one error");
    sx_assert(ld(c1) == (how >= 2) && ld(c2) == 0, "only the first onClose runs");
    sx_assert(p2->open && ld(handled) == 0, "the second connection is left alone");
    sx_reach("twice");
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}
// Requests answered later, in any order, possibly by other threads.
extern "C" void h_sess_deferred() {
  warm();
  uint64_t live = sx_live();
  {
    unsigned n = static_cast<unsigned>(sx_param("n", 3));
    auto sink = std::make_shared<Sink>();
    auto src = std::make_shared<Src>();
    auto s = dap::Session::create();
    std::vector<std::function<void(dap::ResponseOrError<TResp>)>> ct;
    std::vector<std::function<void(UResp)>> cu;
    std::vector<std::pair<bool, int>> sent;
    s->registerHandler([&](const TReq&, std::function<void(dap::ResponseOrError<TResp>)> cb) { ct.push_back(cb); });
    s->registerHandler([&](const UReq&, std::function<void(UResp)> cb) { cu.push_back(cb); });
    s->registerSentHandler([&](const dap::ResponseOrError<TResp>& r) { sent.emplace_back(true, static_cast<int>(r.response.i)); });
    s->registerSentHandler([&](const dap::ResponseOrError<UResp>& r) { sent.emplace_back(false, static_cast<int>(r.response.i.value())); });
    s->connect(src, sink);
    std::vector<bool> isT;
    for (unsigned j = 0; j < n; j++) {
      bool t = sx_pick(2);
      isT.push_back(t);
      src->in += frame("{\"type\":\"request\",\"seq\":" + num(30 + j) + (t ? ",\"command\":\"treq\",\"arguments\":{\"qi\":1,\"qs\":\"\"}}" : ",\"command\":\"ureq\"}"));
      auto p = s->getPayload();
      sx_assert(static_cast<bool>(p), "dispatched");
      p();
    }
    sx_assert(sink->out.empty(), "no response before the handler gives one");
    std::vector<unsigned> order;
    std::vector<bool> done(n, false);
    for (unsigned step = 0; step < n; step++) {
      unsigned j = static_cast<unsigned>(sx_pick(n));
      if (done[j]) sx_stop();
      done[j] = true;
      unsigned at = 0;
      for (unsigned x = 0; x < j; x++) at += isT[x] == isT[j];
      if (isT[j]) { TResp r; r.i = 60 + j; ct[at](r); }
      else { UResp r; r.i = dap::integer(60 + j); cu[at](r); }
      auto ms = unframe(sink->out);
      sx_assert(ms.size() == step + 1, "one response per request");
      Msg m(ms.back());
      sx_assert(m.str("type") == "response" && m.boolean("success"), "a successful response");
      sx_assert(m.integer("request_seq") == 30 + j, "the response echoes its own request's sequence number");
      sx_assert(m.str("command") == (isT[j] ? "treq" : "ureq"), "the response echoes its own request's command");
      UResp u;
      sx_assert(m.sub("body", &u) && u.i.value() == dap::integer(60 + j), "the response carries its own value");
      sx_assert(sent.size() == step + 1 && sent.back() == std::make_pair(static_cast<bool>(isT[j]), static_cast<int>(60 + j)), "the response-sent handler of the response type runs once with the value");
    }
    std::vector<int64_t> q;
    for (auto& x : unframe(sink->out)) { q.push_back(Msg(x).integer("seq")); for (size_t y = 0; y + 1 < q.size(); y++) sx_assert(q[y] != q.back(), "sequence numbers differ"); }
    sx_reach("deferred");
    ct.clear(); cu.clear();
  }
  sx_assert(sx_live() == live, "nothing is leaked");
}
// The invalid-data policy chosen for the session is the one its reader follows.
extern "C" void h_sess_policy() {
  warm();
  Server* v = new Server;
  auto src = std::make_shared<Src>();
  auto s = dap::Session::create();
  unsigned pol = static_cast<unsigned>(sx_pick(3));  // 0: default, 1: ignore, 2: close
  if (pol == 1) s->setOnInvalidData(dap::kIgnore);
  if (pol == 2) s->setOnInvalidData(dap::kClose);
  int handled = 0;
  s->registerHandler([&](const UEvent&) { handled++; });
  s->connect(src, std::make_shared<Sink>());
  std::string g = symString(2, "g");
  src->in = g + frame("{\"type\":\"event\",\"seq\":1,\"event\":\"uev\"}");
  auto p = s->getPayload();
  if (p) p();
  if (pol == 2) { sx_assert(!p && handled == 0 && !src->open, "with the close policy, invalid data closes the stream and delivers nothing"); sx_reach("closed"); }
  else { sx_assert(handled == 1 && src->open, "otherwise invalid data is skipped"); sx_reach("skipped"); }
  delete v;
}
// Errors reported by one thread while another registers handlers.
extern "C" void h_sess_register_conc() {
  warm();
  auto peer = std::make_shared<Peer>();
  auto s = dap::Session::create();
  AInt a{0}, b{0};
  s->registerHandler([](const TReq&) { return TResp(); });
  s->registerHandler([](const TEvent&) {});
  s->registerSentHandler([](const dap::ResponseOrError<TResp>&) {});
  s->connect(peer);
  unsigned k = static_cast<unsigned>(sx_param("kind", 0));
  if (k == 3) peer->in = frame("{\"type\":\"response\",\"seq\":1,\"request_seq\":3,\"success\":true}");
  if (k == 4) peer->in = frame("{\"type\":\"request\",\"seq\":1,\"command\":\"nope\"}");
  std::thread t([&] {
    switch (k) {
      case 0: s->registerHandler([](const TReq&) { return TResp(); }); break;
      case 1: s->registerHandler([](const TEvent&) {}); break;
      case 2: s->registerSentHandler([](const dap::ResponseOrError<TResp>&) {}); break;
      default: s->getPayload(); break;
    }
  });
  s->onError([&](const char*) { inc(a); });
  s->onError([&](const char*) { inc(b); });
  t.join();
  sx_assert(ld(a) + ld(b) <= 1, "an error is reported at most once");
  sx_reach("registered");
}
// A message of each kind is handled while another thread registers the handler for it, or another one.
extern "C" void h_sess_register_run() {
  warm();
  auto peer = std::make_shared<Peer>();
  auto s = dap::Session::create();
  AInt errors{0}, handled{0}, sent{0};
  int64_t v = static_cast<int64_t>(sx_sym("v", 4));
  s->onError([&](const char*) { inc(errors); });
  s->connect(peer);
  unsigned k = static_cast<unsigned>(sx_param("kind", 0));
  auto onT = [&](const TReq& r) { sx_assert(r.i == v, "the handler gets the arguments"); inc(handled); return TResp(); };
  auto onU = [&](const UReq&) { inc(handled); return UResp(); };
  auto onE = [&](const TEvent& e) { sx_assert(e.i == v, "the handler gets the body"); inc(handled); };
  auto onS = [&](const dap::ResponseOrError<TResp>&) { inc(sent); };
  bool same = (k & 1) == 0;  // the handler registered is the one needed
  k >>= 1;
  if (k == 0 || k == 2) peer->in = frame("{\"type\":\"request\",\"seq\":1,\"command\":\"treq\",\"arguments\":{\"qi\":" + num(v) + ",\"qs\":\"\"}}");
  if (k == 1) peer->in = frame("{\"type\":\"event\",\"seq\":1,\"event\":\"tev\",\"body\":{\"ei\":" + num(v) + "}}");
  if (k == 2 || !same) { if (k == 1) s->registerHandler(decltype(onE)(onE)); else s->registerHandler(decltype(onT)(onT)); }
  std::vector<dap::future<dap::ResponseOrError<TResp>>> fs;
  if (k == 3) {
    TReq q; q.i = v;
    fs.push_back(s->send(q));
    peer->in = frame("{\"type\":\"response\",\"seq\":1,\"request_seq\":" + num(Msg(unframe(peer->out).at(0)).integer("seq")) + ",\"success\":true,\"body\":{\"ri\":5,\"rs\":\"\"}}");
  }
  std::thread t([&] { auto p = s->getPayload(); if (p) p(); });
  switch (k) {
    case 0: if (same) s->registerHandler(decltype(onT)(onT)); else s->registerHandler(decltype(onU)(onU)); break;
    case 1: if (same) s->registerHandler(decltype(onE)(onE)); else s->registerHandler([](const UEvent&) {}); break;
    case 2: if (same) s->registerSentHandler(decltype(onS)(onS)); else s->registerSentHandler([](const dap::ResponseOrError<UResp>&) {}); break;
    case 3: { TReq q; q.i = v; fs.push_back(s->send(q)); break; }
  }
  t.join();
  if (k < 2) {
    sx_assert(ld(handled) + ld(errors) == 1, "the message is handled, or reported as unknown when its handler came too late");
    if (!same) sx_assert(ld(handled) == 1, "a registered handler is used");
    size_t n = unframe(peer->out).size();
    sx_assert(n == (k == 0 && ld(handled) ? 1u : 0u), "a request that is handled is answered once");
  } else if (k == 2) {
    sx_assert(ld(handled) == 1 && ld(errors) == 0 && unframe(peer->out).size() == 1, "handled and answered once");
    sx_assert(ld(sent) <= 1, "reported once");
  } else {
    sx_assert(ready(fs[0]) && fs[0].get().response.i == 5 && !ready(fs[1]) && ld(errors) == 0, "a response completes its own request");
  }
  // registered handlers are used from then on
  peer->in += frame("{\"type\":\"request\",\"seq\":2,\"command\":\"ureq\",\"arguments\":{}}");
  int before = ld(handled);
  auto p = s->getPayload();
  if (p) p();
  if (k == 0 && !same) sx_assert(ld(handled) == before + 1, "a registered handler is used");
  sx_reach("run");
}
// Many messages in one session.
extern "C" void h_sess_many() {
  warm();
  unsigned n = static_cast<unsigned>(sx_param("n", 270));
  if (sx_param("mode", 0) == 0) {  // outstanding requests
    Client c;
    std::vector<dap::future<dap::ResponseOrError<UResp>>> fut;
    std::vector<int64_t> seq;
    for (unsigned j = 0; j < n; j++) {
      fut.push_back(c.s->send(UReq()));
      auto ms = unframe(c.sink->out);
      c.sink->out.clear();
      sx_assert(ms.size() == 1, "each request is one frame");
      seq.push_back(Msg(ms[0]).integer("seq"));
    }
    auto sorted = seq;
    std::sort(sorted.begin(), sorted.end());
    for (unsigned j = 1; j < n; j++) sx_assert(sorted[j - 1] != sorted[j], "sequence numbers differ");
    static const unsigned at[] = {0, 1, 7, 63, 127, 128, 255, 256, 257, 269};
    unsigned t = at[sx_pick(10)];
    int64_t v = static_cast<int64_t>(sx_sym("v", 5));
    if (t >= n) t = n - 1;
    c.recv("{\"seq\":7,\"type\":\"response\",\"command\":\"ureq\",\"request_seq\":" + num(seq[t]) + ",\"success\":true,\"body\":{\"ri\":" + num(v) + "}}");
    sx_assert(c.errors == 0, "a response to an outstanding request is no error");
    for (unsigned j = 0; j < n; j++) sx_assert(ready(fut[j]) == (j == t), "a future is completed by its own response and by no other message");
    auto r = fut[t].get();
    sx_assert(!r.error && r.response.i.has_value() && r.response.i.value() == v, "the response body is delivered");
  } else {  // requests received and answered
    auto src = std::make_shared<Src>();
    auto sink = std::make_shared<Sink>();
    auto s = dap::Session::create();
    int errors = 0;
    s->onError([&](const char*) { errors++; });
    s->connect(src, sink);
    s->registerHandler([&](const UReq& q) { UResp r; r.i = q.i; return r; });
    int64_t v = static_cast<int64_t>(sx_sym("v", 3)), last = 0;
    for (unsigned j = 0; j < n; j++) {
      src->in += frame("{\"type\":\"request\",\"seq\":" + num(j + 1) + ",\"command\":\"ureq\",\"arguments\":{\"qi\":" + num(j % 90 == 80 ? v : j) + "}}");
      auto p = s->getPayload();
      sx_assert(static_cast<bool>(p), "each request is dispatched");
      p();
      auto ms = unframe(sink->out);
      sink->out.clear();
      sx_assert(ms.size() == 1, "each request is answered once");
      Msg m(ms[0]);
      UResp u;
      sx_assert(m.str("type") == "response" && m.integer("request_seq") == static_cast<int64_t>(j + 1) && m.boolean("success") && m.sub("body", &u) && u.i.value() == (j % 90 == 80 ? v : static_cast<int64_t>(j)), "with the handler's response");
      int64_t q = m.integer("seq");
      sx_assert(q != last, "sequence numbers differ");
      last = q;
    }
    sx_assert(errors == 0, "no error");
  }
  sx_reach("many");
}
