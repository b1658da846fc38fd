// C26: spies, the combined stream and file streams, against wrapped streams and
// a C library whose every result is symbolic.
#include "streams.h"
#include <errno.h>
#include <stdio.h>
#include <atomic>
#include <mutex>
#include <thread>

// ---------------------------------------------------------------- spies
struct In : dap::Reader {
  bool open = true;
  int closes = 0, reads = 0;
  void* buf = nullptr;
  size_t asked = 0, gave = 0;
  std::string all;
  bool isOpen() override { return open; }
  void close() override { closes++; open = false; }
  size_t read(void* p, size_t n) override {
    reads++;
    buf = p; asked = n;
    gave = open ? sx_pick(n + 1) : 0;
    std::string s = symString(gave, "in");
    memcpy(p, s.data(), gave);
    all += s;
    return gave;
  }
};
struct Out : dap::Writer {
  bool open = true, fail = false, full = false;
  int closes = 0, writes = 0;
  const void* buf = nullptr;
  size_t asked = 0;
  std::string all;
  bool isOpen() override { return open; }
  void close() override { closes++; open = false; }
  bool write(const void* p, size_t n) override {
    writes++;
    buf = p; asked = n;
    if (!open || (fail && sx_bool("write_fails"))) { full = true; return false; }
    all.append(static_cast<const char*>(p), n);
    return true;
  }
};
static const char* kPrefix[] = {"\n<-", "", "P", "%s%n", nullptr};

extern "C" void h_spy_reader() {
  unsigned n = sx_param("n", 3), which = sx_param("prefix", 0);
  auto in = std::make_shared<In>();
  auto copy = std::make_shared<Out>();
  copy->fail = sx_param("copyfail", 0);
  auto spy = kPrefix[which] ? dap::spy(std::shared_ptr<dap::Reader>(in), copy, kPrefix[which]) : dap::spy(std::shared_ptr<dap::Reader>(in), copy);
  std::string prefix = kPrefix[which] ? kPrefix[which] : "\n->";
  std::string want;
  for (unsigned i = 0; i < n; i++) {
    switch (sx_pick(3)) {
      case 0: {
        char b[5];
        memset(b, '.', sizeof b);
        size_t ask = 1 + sx_pick(3);
        size_t before = in->all.size();
        int calls = in->reads;
        size_t got = spy->read(b, ask);
        sx_assert(in->reads == calls + 1 && in->asked == ask, "a read is passed on once and unchanged");
        sx_assert(got == in->gave, "the result of the read is passed back");
        sx_assert_same(b, in->all.data() + before, got, "the bytes read are passed back");
        for (size_t j = got; j < sizeof b; j++) sx_assert(b[j] == '.', "only the bytes read are stored");
        if (got) { want += prefix; want += in->all.substr(before); sx_reach("read"); }
        break;
      }
      case 1: spy->close(); sx_assert(in->closes > 0 && !in->open, "close is passed on"); break;
      case 2: in->open = in->open && !sx_bool("ends"); sx_assert(spy->isOpen() == in->open, "isOpen is passed on"); break;
    }
    if (!copy->full) assertSame(copy->all, want, "the spy stream gets exactly the bytes read, each transfer after the prefix");
  }
  sx_assert(copy->closes == 0, "the spy stream is not closed");
  sx_reach("reader");
}
extern "C" void h_spy_writer() {
  unsigned n = sx_param("n", 3), which = sx_param("prefix", 0);
  auto out = std::make_shared<Out>();
  auto copy = std::make_shared<Out>();
  out->fail = true;
  copy->fail = sx_param("copyfail", 0);
  auto spy = kPrefix[which] ? dap::spy(std::shared_ptr<dap::Writer>(out), copy, kPrefix[which]) : dap::spy(std::shared_ptr<dap::Writer>(out), copy);
  std::string prefix = kPrefix[which] ? kPrefix[which] : "\n<-";
  std::string want, sent;
  for (unsigned i = 0; i < n; i++) {
    switch (sx_pick(3)) {
      case 0: {
        std::string s = symString(1 + sx_pick(3), "w");
        int calls = out->writes;
        size_t before = out->all.size();
        bool ok = spy->write(s.data(), s.size());
        sx_assert(out->writes == calls + 1 && out->asked == s.size(), "a write is passed on once and unchanged");
        sx_assert(ok == (out->all.size() > before), "the result of the write is passed back");
        if (ok) { sent += s; want += prefix; want += s; sx_reach("written"); } else sx_reach("refused");
        assertSame(out->all, sent, "the bytes written are passed on");
        break;
      }
      case 1: spy->close(); sx_assert(out->closes > 0 && !out->open, "close is passed on"); break;
      case 2: out->open = out->open && !sx_bool("ends"); sx_assert(spy->isOpen() == out->open, "isOpen is passed on"); break;
    }
    if (!copy->full) assertSame(copy->all, want, "the spy stream gets exactly the bytes written, each transfer after the prefix");
  }
  sx_assert(copy->closes == 0, "the spy stream is not closed");
  sx_reach("writer");
}
// Long transfers, with some arbitrary bytes.
extern "C" void h_spy_long() {
  static const size_t sz[] = {15, 16, 17, 255, 1024, 2047, 2048, 2049, 4097, 8192};
  size_t n = sz[sx_pick(10)];
  std::string s(n, 'm');
  for (size_t i = 0; i < n; i++) s[i] = static_cast<char>('a' + i % 23);
  for (size_t i : {size_t(0), n / 2, n - 1}) sx_sym_bytes(&s[i], 1, "b");
  auto out = std::make_shared<Out>(), copy = std::make_shared<Out>();
  auto w = dap::spy(std::shared_ptr<dap::Writer>(out), copy, "->");
  sx_assert(w->write(s.data(), n), "write");
  assertSame(out->all, s, "a long write is passed on");
  assertSame(copy->all, "->" + s, "a long write is copied");
  auto src = std::make_shared<Src>();
  src->in = s;
  auto copy2 = std::make_shared<Out>();
  auto r = dap::spy(std::shared_ptr<dap::Reader>(src), copy2, "<-");
  std::string got(n, 0);
  sx_assert(r->read(&got[0], n) == n, "read");
  assertSame(got, s, "a long read is passed back");
  assertSame(copy2->all, "<-" + s, "a long read is copied");
  sx_reach("long");
}

// ---------------------------------------------------------------- combined stream
extern "C" void h_combined() {
  auto in = std::make_shared<In>();
  auto out = std::make_shared<Out>();
  out->fail = true;
  in->open = !sx_bool("in_closed");
  out->open = !sx_bool("out_closed");
  auto rw = dap::ReaderWriter::create(in, out);
  for (unsigned i = 0; i < sx_param("n", 3); i++) {
    sx_assert(rw->isOpen() == (in->open && out->open), "a combined stream is open while both halves are");
    switch (sx_pick(4)) {
      case 0: {
        char b[4];
        size_t ask = sx_pick(4), before = in->all.size();
        int calls = in->reads;
        size_t got = rw->read(b, ask);
        sx_assert(in->reads == calls + 1 && in->asked == ask && got == in->gave, "a read goes to the reader unchanged");
        sx_assert_same(b, in->all.data() + before, got, "the bytes read are passed back");
        break;
      }
      case 1: {
        std::string s = symString(sx_pick(4), "w"), was = out->all;
        int calls = out->writes;
        bool ok = rw->write(s.data(), s.size());
        sx_assert(out->writes == calls + 1 && out->asked == s.size(), "a write goes to the writer unchanged");
        sx_assert(ok || out->full, "the result of the write is passed back");
        assertSame(out->all, ok ? was + s : was, "the bytes written are passed on");
        out->full = false;
        break;
      }
      case 2:
        rw->close();
        sx_assert(in->closes > 0 && out->closes > 0 && !in->open && !out->open, "closing a combined stream closes both halves");
        sx_reach("closed");
        break;
      case 3: in->open = in->open && !sx_bool("in_ends"); out->open = out->open && !sx_bool("out_ends"); break;
    }
  }
  sx_reach("combined");
}

// ---------------------------------------------------------------- files
struct CFile {
  bool open = false;
  std::atomic<int> closes{0};
  std::string in;         // what can be read
  size_t pos = 0;
  bool eof = false;
  std::string buffered, stored;  // written but not flushed; flushed
  bool faults = false, failed = false;
  std::atomic<int> busy{0};
  bool opened = false;
  std::string path, mode;
};
static CFile* cf;
static FILE* handle() { static long h[64]; return reinterpret_cast<FILE*>(h); }
static CFile& use(FILE* f) {
  if (f != handle()) sx_fail("a C library call was given a file that is not one");
  if (cf->closes.load(std::memory_order_relaxed)) sx_fail("a file is used after it was closed");
  return *cf;
}
static int storeBuffered(CFile& f) {
  if (f.faults && f.buffered.size() && sx_bool("flush_fails")) { f.failed = true; f.buffered.clear(); errno = ENOSPC; return EOF; }
  f.stored += f.buffered;
  f.buffered.clear();
  return 0;
}
extern "C" {
int sxs_fgetc(FILE* p) {
  CFile& f = use(p);
  if (f.pos == f.in.size()) { f.eof = true; return EOF; }
  sx_yield();
  use(p);
  return static_cast<unsigned char>(f.in[f.pos++]);
}
int sxs_getc(FILE* p) { return sxs_fgetc(p); }
size_t sxs_fread(void* b, size_t s, size_t n, FILE* p) {
  size_t k = 0;
  for (; k < s * n; k++) { int c = sxs_fgetc(p); if (c == EOF) break; static_cast<char*>(b)[k] = static_cast<char>(c); }
  return s ? k / s : 0;
}
int sxs_feof(FILE* p) { return use(p).eof; }
int sxs_ferror(FILE*) { return 0; }
size_t sxs_fwrite(const void* b, size_t s, size_t n, FILE* p) {
  CFile& f = use(p);
  size_t k = s * n;
  if (f.faults && k && sx_bool("fwrite_fails")) { f.failed = true; k = sx_pick(k); }
  for (size_t i = 0; i < k; i++) { f.buffered.push_back(static_cast<const char*>(b)[i]); if (i + 1 < k) { sx_yield(); use(p); } }
  return s ? k / s : 0;
}
int sxs_fputc(int c, FILE* p) { char b = static_cast<char>(c); return sxs_fwrite(&b, 1, 1, p) == 1 ? c : EOF; }
int sxs_putc(int c, FILE* p) { return sxs_fputc(c, p); }
int sxs_fflush(FILE* p) { return storeBuffered(use(p)); }
int sxs_fclose(FILE* p) {
  CFile& f = use(p);
  f.stored += f.buffered;
  f.buffered.clear();
  f.closes.fetch_add(1, std::memory_order_relaxed);
  return 0;
}
int sxs_setvbuf(FILE* p, char*, int, size_t) { use(p); return 0; }
void sxs_setbuf(FILE* p, char*) { use(p); }
FILE* sxs_fopen(const char* path, const char* mode) {
  cf->path = path; cf->mode = mode;
  if (sx_bool("fopen_fails")) return nullptr;
  if (mode[0] == 'w') cf->stored.clear();
  cf->opened = true;
  return handle();
}
}
// Every sequence of calls with every outcome, one thread.
extern "C" void h_file() {
  CFile f;
  cf = &f;
  f.faults = true;
  bool closable = sx_param("closable", 1);
  unsigned n = sx_param("n", 3);
  f.in = symString(3, "file");
  std::string stored;
  {
    auto s = closable ? dap::file(handle()) : dap::file(handle(), false);
    bool closed = false, broken = false;
    for (unsigned i = 0; i < n; i++) {
      sx_assert(s->isOpen() == !closed, "a file stream is open until it is closed");
      switch (sx_pick(3)) {
        case 0: {
          char b[6];
          memset(b, '.', sizeof b);
          size_t ask = sx_pick(5), at = f.pos;
          size_t got = s->read(b, ask);
          size_t due = closed ? 0 : std::min(ask, f.in.size() - at);
          sx_assert(got == due, "a read returns as many bytes as asked for, fewer only at the end");
          sx_assert_same(b, f.in.data() + at, got, "a read returns the bytes of the file");
          for (size_t j = got; j < sizeof b; j++) sx_assert(b[j] == '.', "only the bytes read are stored");
          if (got < ask) sx_reach("short read");
          break;
        }
        case 1: {
          std::string w = symString(1 + sx_pick(2), "w");
          f.failed = false;
          bool ok = s->write(w.data(), w.size());
          if (closed) sx_assert(!ok, "a write to a closed file fails");
          else {
            sx_assert(ok == !f.failed, "a write reports whether the bytes were stored");
            if (ok && !broken) { stored += w; assertSame(f.stored, stored, "a successful write stored exactly its bytes"); sx_reach("stored"); }
            else { broken = true; sx_reach("not stored"); }
          }
          break;
        }
        case 2:
          s->close();
          if (closable) { closed = true; sx_assert(f.closes == 1, "closing closes the file"); }
          else sx_assert(f.closes == 0, "a file that is not closable stays open");
          break;
      }
    }
  }
  sx_assert(f.closes == (closable ? 1 : 0), "a closable file is closed exactly once, another never");
  sx_reach("file");
}
extern "C" void h_file_path() {
  CFile f;
  cf = &f;
  f.stored = "what the file held before";
  {
    auto s = dap::file("/x/y");
    sx_assert(f.path == "/x/y", "the file asked for is opened");
    sx_assert((s != nullptr) == f.opened, "a stream is returned exactly when the file could be opened");
    if (s) {
      sx_assert(s->isOpen(), "the stream is open");
      std::string w = symString(2, "w");
      sx_assert(s->write(w.data(), 1) && s->write(&w[1], 1), "write");
      assertSame(f.stored, w, "the file holds exactly the bytes written");
      sx_reach("opened");
    } else sx_reach("not opened");
  }
  sx_assert(f.closes == (f.opened ? 1 : 0), "an opened file is closed exactly once");
}
// Concurrent use; every schedule.
extern "C" void h_file_conc() {
  unsigned mode = sx_param("mode", 0);
  CFile f;
  cf = &f;
  f.in = symString(2, "file");
  {
    auto s = dap::file(handle());
    std::atomic<int> r{-1}, w{-1};
    char b[2] = {'.', '.'};
    std::thread t, u;
    if (mode == 0) {  // two writers
      t = std::thread([&] { sx_assert(s->write("ab", 2), "write"); });
      sx_assert(s->write("12", 2), "write");
      t.join();
      sx_assert(f.stored == "ab12" || f.stored == "12ab", "concurrent writes are not mixed");
    } else if (mode == 1) {  // two readers
      char c[1];
      t = std::thread([&] { sx_assert(s->read(b, 1) == 1, "read"); });
      sx_assert(s->read(c, 1) == 1, "read");
      t.join();
      bool ab = sameBytes(b, &f.in[0], 1) && sameBytes(c, &f.in[1], 1), ba = sameBytes(b, &f.in[1], 1) && sameBytes(c, &f.in[0], 1);
      sx_assert(ab || ba, "concurrent reads share out the bytes");
    } else {  // close while reading, writing, closing
      if (mode == 2) t = std::thread([&] { r = static_cast<int>(s->read(b, 2)); });
      if (mode == 3) t = std::thread([&] { w = s->write("ab", 2); });
      if (mode == 4) t = std::thread([&] { s->close(); });
      s->close();
      sx_assert(!s->isOpen(), "closed");
      t.join();
      if (r >= 0) sx_assert_same(b, f.in.data(), static_cast<size_t>(r.load()), "a read ended by close returns the bytes of the file");
      if (w >= 0) sx_assert(f.stored == (w ? "ab" : ""), "a write reports whether the bytes were stored");
    }
    sx_reach("done");
  }
  sx_assert(f.closes == 1, "the file is closed exactly once");
}
