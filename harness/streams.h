// Streams the harnesses feed to the code under test.
#pragma once
#include "sx.h"
#include "dap/io.h"
#include <string.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

// How a read of n bytes is answered: every amount 1..n, or a few representative ones.
enum Frag { kWhole, kAny, kFew, kOne };

struct Src : dap::Reader {
  std::string in;
  size_t pos = 0;
  bool open = true;
  int closes = 0;
  Frag frag = kWhole;
  bool merge = false;
  bool eof = false;  // the end of the stream was reported
  std::vector<size_t> cuts;  // reads never cross these positions (ascending)
  size_t cutAt = 0;
  bool isOpen() override { return open; }
  void close() override { open = false; closes++; }
  size_t read(void* p, size_t n) override {
    if (!open) return 0;
    size_t k = std::min(n, in.size() - pos);
    while (cutAt < cuts.size() && cuts[cutAt] <= pos) cutAt++;
    if (cutAt < cuts.size() && cuts[cutAt] - pos < k) k = cuts[cutAt] - pos;
    if (n && !k) eof = true;
    if (k > 1) {
      if (merge) sx_merge();
      if (frag == kAny) k = 1 + sx_pick(k);
      else if (frag == kOne) k = 1;
      else if (frag == kFew) { size_t o[4] = {k, 1, k - 1, (k + 1) / 2}; k = o[sx_pick(4)]; }
    }
    memcpy(p, in.data() + pos, k);
    pos += k;
    return k;
  }
};

struct Sink : dap::Writer {
  std::string out;
  bool open = true;
  int calls = 0;
  bool isOpen() override { return open; }
  void close() override { open = false; }
  bool write(const void* p, size_t n) override {
    if (!open) return false;
    calls++;
    out.append(static_cast<const char*>(p), n);
    return true;
  }
};

static inline std::string symString(size_t n, const char* name) {
  std::string s(n, '\0');
  if (n) sx_sym_bytes(&s[0], n, name);
  return s;
}
// Equality of byte strings, decided by the solver.
static inline void assertSame(const std::string& a, const std::string& b, const char* msg) {
  sx_assert(a.size() == b.size(), msg);
  sx_assert_same(a.data(), b.data(), a.size(), msg);
}
static inline bool sameBytes(const char* a, const char* b, size_t n) {
  unsigned char d = 0;
  for (size_t i = 0; i < n; i++) d |= static_cast<unsigned char>(a[i] ^ b[i]);
  return d == 0;
}
static inline bool sameStr(const std::string& a, const std::string& b) {
  return a.size() == b.size() && sameBytes(a.data(), b.data(), a.size());
}
