// Bitcode models of the libstdc++/libc functions that are only available as
// machine code. Used only inside the symbolic engine; native replay uses the
// real ones.
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <locale.h>
#include <time.h>
#include <chrono>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
#include <unordered_map>
#include <list>
#include <stdexcept>

extern "C" {
uint64_t sx_tid(void);
uint64_t sx_time(void);
void sx_rt_fail(const char*);
double sx_rt_strtod(const char*, char**);
uint64_t sx_rt_fmtd(char*, uint64_t, const char*, double);
void sx_advance_time(uint64_t);
}

namespace std {
// ---- hashing: one bucket; correctness of containers must not depend on it
size_t _Hash_bytes(const void*, size_t, size_t) { return 7; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 7; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t b = n < 13 ? 13 : n | 1;
  _M_next_resize = (size_t)-1;
  return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (nb == 1) { _M_next_resize = (size_t)-1; return {true, 13}; }
  (void)ne; (void)ni;
  return {false, 0};
}
// ---- list
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
}  // namespace __detail

// ---- red-black tree, without rebalancing
typedef _Rb_tree_node_base N;
N* _Rb_tree_increment(N* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const N* _Rb_tree_increment(const N* x) throw() { return _Rb_tree_increment(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const N* _Rb_tree_decrement(const N* x) throw() { return _Rb_tree_decrement(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  auto replace = [&](N* u, N* v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    N* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  N* r = h._M_parent;
  if (!r) { h._M_left = &h; h._M_right = &h; }
  else { N* l = r; while (l->_M_left) l = l->_M_left; h._M_left = l; while (r->_M_right) r = r->_M_right; h._M_right = r; }
  return z;
}

// ---- threads
thread::_State::~_State() = default;
static void* run_state(void* p) {
  thread::_State* s = (thread::_State*)p;
  struct D { thread::_State* s; ~D() { delete s; } } d{s};
  s->_M_run();
  return nullptr;
}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  pthread_create((pthread_t*)&_M_id, nullptr, run_state, s.get());
  s.release();
}
void thread::join() { pthread_join(native_handle(), nullptr); _M_id = id(); }
void thread::detach() { pthread_detach(native_handle()); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)sx_time())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)sx_time())); }
} }
namespace this_thread {
void __sleep_for(chrono::seconds s, chrono::nanoseconds ns) { sx_advance_time(s.count() * 1000000000ull + ns.count()); sched_yield(); }
}
exception::~exception() noexcept {}
// ---- exception objects carry no text
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const std::string&) : _M_p(nullptr) {}
__cow_string::__cow_string(const char*, size_t) : _M_p(nullptr) {}
__cow_string::__cow_string(const __cow_string&) noexcept : _M_p(nullptr) {}
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
runtime_error::runtime_error(const char*) {}
runtime_error::runtime_error(const std::string&) {}
runtime_error::runtime_error(const runtime_error&) noexcept {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
const char* exception::what() const noexcept { return "exception"; }
}  // namespace std

extern "C" {
int* __errno_location(void) { static int e[32]; return &e[sx_tid()]; }
struct lconv* localeconv(void) {
  static char dot[] = ".", emp[] = ""; static struct lconv l = {dot, emp, emp};
  return &l;
}
int nanosleep(const struct timespec* t, struct timespec*) { sx_advance_time(t->tv_sec * 1000000000ull + t->tv_nsec); sched_yield(); return 0; }
int usleep(unsigned us) { sx_advance_time(us * 1000ull); sched_yield(); return 0; }

static void putc_(char* out, size_t cap, size_t& n, char c) { if (out && n + 1 < cap) out[n] = c; n++; }
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
  size_t n = 0;
  for (; *f; f++) {
    if (*f != '%') { putc_(out, cap, n, *f); continue; }
    const char* start = f; f++;
    bool zero = false, minus = false; int width = 0, prec = -1, lng = 0;
    while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = true; if (*f == '-') minus = true; f++; }
    if (*f == '*') { width = va_arg(ap, int); f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng++; f++; }
    char tmp[32]; int tn = 0; bool neg = false;
    switch (*f) {
      case '%': putc_(out, cap, n, '%'); break;
      case 'c': putc_(out, cap, n, (char)va_arg(ap, int)); break;
      case 's': {
        const char* s = va_arg(ap, const char*); if (!s) s = "(null)";
        size_t l = prec >= 0 ? strnlen(s, prec) : strlen(s);
        if (!minus) for (int i = (int)l; i < width; i++) putc_(out, cap, n, ' ');
        for (size_t i = 0; i < l; i++) putc_(out, cap, n, s[i]);
        if (minus) for (int i = (int)l; i < width; i++) putc_(out, cap, n, ' ');
        break;
      }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
        uint64_t v;
        if (*f == 'd' || *f == 'i') { int64_t s = lng ? va_arg(ap, int64_t) : va_arg(ap, int); neg = s < 0; v = neg ? 0 - (uint64_t)s : (uint64_t)s; }
        else v = (lng || *f == 'p') ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
        unsigned b = (*f == 'd' || *f == 'i' || *f == 'u') ? 10 : 16;
        do { unsigned d = v % b; tmp[tn++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= b; } while (v);
        if (*f == 'p') { tmp[tn++] = 'x'; tmp[tn++] = '0'; }
        while (tn < prec && tn < 30) tmp[tn++] = '0';
        int len = tn + neg;
        if (!minus && !zero) for (int i = len; i < width; i++) putc_(out, cap, n, ' ');
        if (neg) putc_(out, cap, n, '-');
        if (!minus && zero) for (int i = len; i < width; i++) putc_(out, cap, n, '0');
        while (tn) putc_(out, cap, n, tmp[--tn]);
        if (minus) for (int i = len; i < width; i++) putc_(out, cap, n, ' ');
        break;
      }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
        char fm[32]; size_t k = 0; for (const char* q = start; q <= f && k < 31; q++) if (*q != '*') fm[k++] = *q; else { int v = prec >= 0 ? prec : width; if (v >= 10) fm[k++] = '0' + v / 10; fm[k++] = '0' + v % 10; } fm[k] = 0;
        char big[512]; size_t l = sx_rt_fmtd(big, sizeof big, fm, va_arg(ap, double));
        for (size_t i = 0; i < l; i++) putc_(out, cap, n, big[i]);
        break;
      }
      default: sx_rt_fail("printf conversion");
    }
  }
  if (out && cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* o, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
int vsprintf(char* o, const char* f, va_list ap) { return vsnprintf(o, (size_t)1 << 40, f, ap); }
int sprintf(char* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, (size_t)1 << 40, f, ap); va_end(ap); return r; }

static uint64_t parse_u(const char* s, char** e, int base, bool* neg, bool* ovf) {
  const char* p = s; *neg = false; *ovf = false;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
  if (base == 0) base = 10;
  uint64_t v = 0; bool any = false;
  for (;; p++) {
    unsigned d; char c = *p;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if ((int)d >= base) break;
    any = true;
    if (v > (UINT64_MAX - d) / base) *ovf = true;
    v = v * base + d;
  }
  if (e) *e = (char*)(any ? p : s);
  return v;
}
unsigned long long strtoull(const char* s, char** e, int b) { bool n, o; uint64_t v = parse_u(s, e, b, &n, &o); if (o) { *__errno_location() = 34; return UINT64_MAX; } return n ? 0 - v : v; }
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long long strtoll(const char* s, char** e, int b) {
  bool n, o; uint64_t v = parse_u(s, e, b, &n, &o);
  if (o || v > (uint64_t)INT64_MAX + (n ? 1 : 0)) { *__errno_location() = 34; return n ? INT64_MIN : INT64_MAX; }
  return n ? (long long)(0 - v) : (long long)v;
}
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
double strtod(const char* s, char** e) { return sx_rt_strtod(s, e); }
char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
}
