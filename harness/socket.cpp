// C22-C25: sockets and the network server, against a stand-in for the operating
// system whose every result is symbolic. Calls of X in the code are redirected
// to sxs_X below, in the engine and in the native replay alike.
#include "streams.h"
#include "dap/network.h"
#include "socket.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

// ---------------------------------------------------------------- the operating system
enum Event { kEstablished, kRefused, kNever };
struct Fd {
  bool open = false, listening = false, bound = false, connected = false, shutR = false, shutW = false, abort = false, sentSome = false, nonblock = false, connecting = false;
  int err = 0;            // SO_ERROR
  int closes = 0;
  int accepted = 0;       // connections accepted from this listener
  std::string in;         // bytes that can be received
  size_t inPos = 0;
  bool inEnd = false;     // the peer closed its side
};
enum { F_GAI = 1, F_SOCKET = 2, F_BIND = 4, F_LISTEN = 8, F_ACCEPT = 16, F_CONNECT = 32, F_FCNTL = 64, F_RECV = 128, F_SEND = 256, F_ERR = 512, F_SELECT = 1024 };
struct Os {
  std::mutex m;
  std::condition_variable cv;
  Fd fd[8];
  int n = 0, base = 3;
  bool down = false;      // descriptors count down from base
  int infos = 0;
  unsigned faults = 0;    // which calls may fail
  bool sigpipeIgnored = false;
  bool any = false;       // a system call was given a closed or foreign descriptor
  const char* wantAddr = nullptr;
  bool local = false;
  uint64_t wantPort = 0;
  // connecting
  bool useClock = false;
  uint64_t now = 0;       // milliseconds waited so far
  unsigned waits = 0;
  uint64_t nowBefore = 0;
  uint64_t eventAt = 0;   // when a pending connection completes
  Event event = kNever;
  bool established = false, refusedNow = false, failedSetup = false;
  int pendingErr = 0;
  // accepting
  int pending = 0, accepted = 0;
  bool accepting = false, acceptFailed = false;
  int acceptFails = 0;
  bool startFailed = false;
  // transfers
  std::string sent;
  bool sizes = false;     // only sizes are tracked
  const char* wbase = nullptr;
  uint64_t wtotal = 0, wsent = 0;
  unsigned sends = 0, recvs = 0;
  bool recvFailed = false, sendFailed = false, blockSend = false, sendBlocked = false, recvBlocked = false;
  bool wholeSends = false;
  uint64_t asked = 0, got = 0;
};
static Os* os;
typedef std::unique_lock<std::mutex> L;

static bool fails(unsigned which, const char* name) { return (os->faults & which) && sx_bool(name); }
static Fd& use(int fd, const char* what) {
  int i = os->down ? os->base - fd : fd - os->base;
  if (i < 0 || i >= os->n) { sx_fail("a system call was given a descriptor that is not one"); }
  if (!os->fd[i].open) { sx_fail("a system call was given a descriptor that is already closed"); }
  (void)what;
  return os->fd[i];
}
static int newFd() {
  if (os->n >= 8) sx_stop();
  int i = os->n++;
  os->fd[i].open = true;
  return os->down ? os->base - i : os->base + i;
}
extern "C" {
int sxs_getaddrinfo(const char* a, const char* p, const addrinfo* h, addrinfo** out) {
  L l(os->m);
  if (os->wantAddr) {  // the address and port the user gave
    bool local = os->local && (!strcmp(a ? a : "", "127.0.0.1") || !strcmp(a ? a : "", "::1"));
    if (!local) { sx_assert(a != nullptr, "the address given is used"); assertSame(a, os->wantAddr, "the address given is used"); }
    sx_assert(p && p[0], "the port given is used");
    uint64_t v = 0;
    for (const char* c = p; *c; c++) { sx_assert((*c >= '0') & (*c <= '9'), "the port is a number"); v = v * 10 + static_cast<uint64_t>(*c - '0'); }
    sx_assert(v == os->wantPort, "the port given is used");
  }
  if (fails(F_GAI, "getaddrinfo_fails")) { os->failedSetup = os->startFailed = true; return EAI_NONAME; }
  os->infos++;
  addrinfo* i = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo)));
  i->ai_family = h ? h->ai_family : AF_INET; i->ai_socktype = SOCK_STREAM; i->ai_protocol = IPPROTO_TCP;
  i->ai_addr = static_cast<sockaddr*>(calloc(1, sizeof(sockaddr_in)));
  i->ai_addrlen = sizeof(sockaddr_in);
  memcpy(i->ai_addr, "resolved", 8);
  *out = i;
  return 0;
}
void sxs_freeaddrinfo(addrinfo* i) {
  L l(os->m);
  os->infos--;
  sx_assert(os->infos >= 0, "an address list is freed once");
  free(i->ai_addr);
  free(i);
}
int sxs_socket(int, int, int) {
  L l(os->m);
  if (fails(F_SOCKET, "socket_fails")) { os->failedSetup = os->startFailed = true; errno = EMFILE; return -1; }
  return newFd();
}
int sxs_setsockopt(int fd, int level, int name, const void* v, socklen_t n) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "setsockopt");
  if (level == SOL_SOCKET && name == SO_LINGER && n >= sizeof(linger)) {
    linger g;
    memcpy(&g, v, sizeof g);
    f.abort = g.l_onoff && !g.l_linger;  // closing resets the connection
  }
  return 0;
}
int sxs_getsockopt(int fd, int level, int name, void* v, socklen_t* len) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "getsockopt");
  int e = 0;
  if (level == SOL_SOCKET && name == SO_ERROR) { e = f.err; f.err = 0; }
  memcpy(v, &e, *len < sizeof e ? *len : sizeof e);
  if (*len > sizeof e) *len = sizeof e;
  return 0;
}
int sxs_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "fcntl");
  if (cmd == F_GETFL || cmd == F_SETFL) if (fails(F_FCNTL, "fcntl_fails")) { os->failedSetup = true; errno = EINVAL; return -1; }
  if (cmd == F_GETFL) return O_RDWR | (f.nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { f.nonblock = (arg & O_NONBLOCK) != 0; return 0; }
  return 0;
}
int sxs_ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); int* arg = va_arg(ap, int*); va_end(ap);
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "ioctl");
  if (req == 0x5421 /* FIONBIO */) { if (fails(F_FCNTL, "fcntl_fails")) { os->failedSetup = true; errno = EINVAL; return -1; } f.nonblock = *arg != 0; }
  return 0;
}
static void resolved(const sockaddr* a, socklen_t n) { if (os->wantAddr) sx_assert(n == sizeof(sockaddr_in) && memcmp(a, "resolved", 8) == 0, "the address looked up is used"); }
int sxs_bind(int fd, const sockaddr* a, socklen_t n) {
  L l(os->m);
  resolved(a, n);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "bind");
  if (fails(F_BIND, "bind_fails")) { os->startFailed = true; errno = EADDRINUSE; return -1; }
  f.bound = true;
  return 0;
}
int sxs_listen(int fd, int) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "listen");
  if (fails(F_LISTEN, "listen_fails")) { os->startFailed = true; errno = EADDRINUSE; return -1; }
  f.listening = true;
  return 0;
}
int sxs_shutdown(int fd, int how) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "shutdown");
  if (!f.connected && !f.listening) { errno = ENOTCONN; return -1; }
  if (how != SHUT_WR) f.shutR = true;
  if (how != SHUT_RD) f.shutW = true;
  os->cv.notify_all();
  return 0;
}
int sxs_close(int fd) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "close");
  if (f.abort && f.sentSome) sx_fail("closing the socket discards bytes a write reported as sent");
  f.open = false;
  f.closes++;
  os->cv.notify_all();
  return 0;
}
int sxs_accept(int fd, sockaddr*, socklen_t*) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "accept");
  if (!f.listening) { errno = EINVAL; return -1; }
  if (fails(F_ACCEPT, "accept_fails")) { os->acceptFailed = true; os->acceptFails++; errno = ECONNABORTED; return -1; }
  os->accepting = true;
  while (!f.shutR && f.open && os->pending == 0) os->cv.wait(l);
  os->accepting = false;
  if (!f.open) sx_fail("the descriptor was closed while accept was using it");
  if (f.shutR) { errno = EINVAL; return -1; }
  os->pending--;
  os->accepted++;
  f.accepted++;
  int n = newFd();
  Fd& a = use(n, "accept");
  a.connected = true;
  a.abort = f.abort;  // inherited
  return n;
}
int sxs_accept4(int fd, sockaddr* a, socklen_t* n, int) { return sxs_accept(fd, a, n); }
int sxs_connect(int fd, const sockaddr* a, socklen_t n) {
  L l(os->m);
  resolved(a, n);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "connect");
  if (!(os->faults & F_CONNECT)) { f.connected = true; os->established = true; return 0; }
  // 0: at once; 1: refused at once; 2: in progress
  unsigned k = sx_pick(f.nonblock ? 3 : 2);
  if (k == 0) { f.connected = true; os->established = true; return 0; }
  if (k == 1) {
    static const int errs[] = {ECONNREFUSED, ENETUNREACH, EACCES, EADDRNOTAVAIL};
    os->refusedNow = true; errno = errs[sx_pick(4)]; return -1;
  }
  f.connecting = true;
  os->event = static_cast<Event>(sx_pick(3));
  os->eventAt = sx_sym("event", 33);
  if (os->event == kRefused) { os->pendingErr = static_cast<int>(sx_sym("err", 7)); sx_assume(os->pendingErr != 0); }
  errno = EINPROGRESS;
  return -1;
}
// Waits until the descriptor is writable, at most ms milliseconds. 1: writable, 0: not.
static int waitWritable(Fd& f, uint64_t ms, bool forever) {
  if (++os->waits % 16 == 0) {
    sx_assert(os->now != os->nowBefore, "connect keeps waiting although its time is over");
    os->nowBefore = os->now;
  }
  if (!f.connecting) return 1;  // connected, or never connecting (reported with a hangup)
  if (os->event == kNever) { if (forever) sx_stop(); os->now += ms; return 0; }
  uint64_t left = os->eventAt > os->now ? os->eventAt - os->now : 0;
  if (!forever && left > ms) { os->now += ms; return 0; }
  os->now += left;
  f.connecting = false;
  if (os->event == kEstablished) { f.connected = true; os->established = true; }
  else f.err = os->pendingErr;
  return 1;
}
int sxs_select(int nfds, fd_set* r, fd_set* w, fd_set* e, timeval* tv) {
  L l(os->m);
  int fd = -1;
  for (int i = 0; i < os->n; i++) if (os->base + i < FD_SETSIZE && w && FD_ISSET(os->base + i, w)) fd = os->base + i;
  sx_assert(fd >= 0, "select waits for the socket");
  sx_assert(nfds > fd, "select is told about the socket");
  Fd& f = use(fd, "select");
  if (r) FD_ZERO(r);
  if (e) FD_ZERO(e);
  if (fails(F_SELECT, "select_fails")) { os->failedSetup = true; errno = ENOMEM; return -1; }
  bool forever = !tv;
  if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) { os->failedSetup = false; errno = EINVAL; return -1; }
  int k = waitWritable(f, forever ? 0 : static_cast<uint64_t>(tv->tv_sec) * 1000u + static_cast<uint64_t>(tv->tv_usec) / 1000u, forever);
  if (!k) FD_ZERO(w);
  return k;
}
static int pollUs(pollfd* p, nfds_t n, uint64_t ms, bool forever) {
  L l(os->m);
  sx_assert(n == 1, "poll waits for one socket");
  if (p->fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(p->fd, "poll");
  p->revents = 0;
  if (fails(F_SELECT, "select_fails")) { os->failedSetup = true; errno = ENOMEM; return -1; }
  bool hup = !f.connecting && !f.connected;
  int k = waitWritable(f, ms, forever);
  if (k) p->revents = static_cast<short>((p->events & POLLOUT) | (f.err ? POLLERR | POLLHUP : 0) | (hup ? POLLHUP : 0));
  return k;
}
int sxs_poll(pollfd* p, nfds_t n, int ms) { return pollUs(p, n, ms < 0 ? 0 : static_cast<uint64_t>(ms), ms < 0); }
int sxs_ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t*) { return pollUs(p, n, t ? static_cast<uint64_t>(t->tv_sec) * 1000u + static_cast<uint64_t>(t->tv_nsec) / 1000000u : 0, !t); }
ssize_t sxs_recv(int fd, void* b, size_t n, int flags) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "recv");
  if (flags & MSG_OOB) { errno = EINVAL; return -1; }  // there is no urgent data
  if (os->sizes) {
    sx_assert(n >= 1 && n <= os->asked, "recv is asked for at least one and at most the bytes wanted");
    os->got = sx_sym("received", 32);
    sx_assume(os->got <= n && os->got <= 0x7ffff000);  // the most one call transfers
    return static_cast<ssize_t>(os->got);
  }
  if (fails(F_RECV, "recv_fails")) { os->recvFailed = true; errno = ECONNRESET; return -1; }
  os->recvBlocked = true;
  if ((flags & MSG_DONTWAIT) && f.open && !f.shutR && !f.inEnd && f.inPos == f.in.size()) { os->recvBlocked = false; errno = EAGAIN; return -1; }
  while (f.open && !f.shutR && !f.inEnd && f.inPos == f.in.size()) os->cv.wait(l);
  os->recvBlocked = false;
  if (!f.open) sx_fail("the descriptor was closed while recv was using it");
  size_t k = f.in.size() - f.inPos;
  if (k > n) k = n;
  if (k > 1) k = 1 + sx_pick(k);
  memcpy(b, f.in.data() + f.inPos, k);
  if (!(flags & MSG_PEEK)) f.inPos += k;
  return static_cast<ssize_t>(k);
}
ssize_t sxs_send(int fd, const void* b, size_t n, int flags) {
  L l(os->m);
  if (fd == -1) { errno = EBADF; return -1; }
  Fd& f = use(fd, "send");
  os->sends++;
  if (flags & MSG_OOB) sx_fail("bytes are sent out of band");
  if (os->sizes) {
    unsigned parts = static_cast<unsigned>(sx_param("parts", 2));
    sx_assert(static_cast<const char*>(b) == os->wbase + os->wsent, "send continues where the bytes accepted so far end");
    sx_assert(n >= 1 && n <= os->wtotal - os->wsent, "send is given at least one and at most the bytes left");
    if (os->sends > 12) sx_stop();
    if (os->sends <= parts) {
      if (sx_bool("send_fails")) { os->sendFailed = true; errno = ECONNRESET; return -1; }
      uint64_t k = sx_sym("accepted", 36);
      sx_assume(k >= 1 && k <= n);
      os->wsent += k;
      return static_cast<ssize_t>(k);
    }
    uint64_t left = os->wtotal - os->wsent;
    if (n == left) { os->wsent = os->wtotal; return static_cast<ssize_t>(left); }
    n = sx_concretize(n);  // the most the code passes at once
    os->wsent += n;
    return static_cast<ssize_t>(n);
  }
  if (os->blockSend) {
    if ((flags & MSG_DONTWAIT) && f.open && !f.shutW) { errno = EAGAIN; return -1; }
    os->sendBlocked = true;
    os->cv.notify_all();
    while (f.open && !f.shutW) os->cv.wait(l);
    os->sendBlocked = false;
    if (!f.open) sx_fail("the descriptor was closed while send was using it");
  }
  bool gone = f.shutW;
  if (gone || fails(F_SEND, "send_fails")) {
    os->sendFailed = true;
    // a connection that is gone raises SIGPIPE, which ends the process
    if (!(flags & MSG_NOSIGNAL) && !os->sigpipeIgnored) sx_fail("writing to a connection that is gone raises SIGPIPE, ending the process");
    errno = EPIPE;
    return -1;
  }
  size_t k = n > 1 && !os->wholeSends ? 1 + sx_pick(n) : n;
  os->sent.append(static_cast<const char*>(b), k);
  f.sentSome = true;
  return static_cast<ssize_t>(k);
}
ssize_t sxs_read(int fd, void* b, size_t n) { return sxs_recv(fd, b, n, 0); }
ssize_t sxs_write(int fd, const void* b, size_t n) { return sxs_send(fd, b, n, 0); }
ssize_t sxs_recvfrom(int fd, void* b, size_t n, int fl, sockaddr*, socklen_t*) { return sxs_recv(fd, b, n, fl); }
ssize_t sxs_sendto(int fd, const void* b, size_t n, int fl, const sockaddr*, socklen_t) { return sxs_send(fd, b, n, fl); }
sighandler_t sxs_signal(int s, sighandler_t h) { if (s == SIGPIPE) os->sigpipeIgnored = h == SIG_IGN; return SIG_DFL; }
}

static void begin(unsigned faults) {
  os = new Os;
  os->faults = faults;
}
// Everything obtained was given back, exactly once.
static void finish() {
  for (int i = 0; i < os->n; i++) {
    sx_assert(!os->fd[i].open, "every socket descriptor is closed in the end");
    sx_assert(os->fd[i].closes == 1, "a socket descriptor is closed once");
  }
  sx_assert(os->infos == 0, "every address list is freed");
  sx_assert(sx_threads() == 0, "no thread is left running");
  delete os;
  os = nullptr;
}
static void checkClosed(dap::ReaderWriter& rw) {
  char c = 'x';
  sx_assert(!rw.isOpen(), "a closed socket is not open");
  sx_assert(rw.read(&c, 1) == 0, "a read from a closed socket returns 0");
  sx_assert(c == 'x', "a read from a closed socket stores nothing");
  sx_assert(!rw.write("a", 1), "a write to a closed socket fails");
}

// ---------------------------------------------------------------- C22
// connect with every outcome, then every sequence of calls, one thread.
extern "C" void h_sock_client() {
  begin(F_GAI | F_SOCKET | F_CONNECT | F_FCNTL | F_RECV | F_SEND | F_SELECT);
  os->base = sx_param("base", 3);
  unsigned n = sx_param("n", 3);
  {
    auto rw = dap::Socket::connect("localhost", "1234", sx_param("timeout", 0));
    if (rw) {
      Fd& f = os->fd[0];
      f.in = symString(2, "in");
      bool closed = false;
      for (unsigned i = 0; i < n; i++) {
        switch (sx_pick(5)) {
          case 0: rw->close(); closed = true; break;
          case 1: if (f.open && !closed && sx_bool("error")) { f.err = ECONNRESET; closed = true; sx_assert(!rw->isOpen(), "a socket in error is not open"); }
                  else sx_assert(rw->isOpen() == !closed, "a socket is open until it is closed or in error");
                  break;
          case 2: { char b[3]; f.inEnd = true; size_t k = rw->read(b, 2); if (closed) sx_assert(k == 0, "reads return 0 after close"); break; }
          case 3: { bool ok = rw->write("ab", 2); if (closed) sx_assert(!ok, "writes fail after close"); break; }
          case 4: rw->write("", 0); break;
        }
        if (closed) checkClosed(*rw);
      }
      sx_reach("connected");
    } else sx_reach("not connected");
  }
  finish();
}
// A listening socket with every outcome of each call.
extern "C" void h_sock_server() {
  begin(F_GAI | F_SOCKET | F_BIND | F_LISTEN | F_ACCEPT);
  os->base = sx_param("base", 3);
  os->down = sx_param("down", 0);
  {
    dap::Socket s("localhost", "1234");
    sx_assert(s.isOpen() == !os->startFailed, "a listening socket is open exactly when it could be set up");
    if (s.isOpen()) {
      std::shared_ptr<dap::ReaderWriter> c[2];
      for (int i = 0; i < 2; i++) {
        os->pending = 1;
        os->acceptFailed = false;
        c[i] = s.accept();
        sx_assert((c[i] != nullptr) == !os->acceptFailed, "accept returns a stream exactly when a connection was accepted");
        if (c[i]) sx_assert(c[i]->isOpen(), "an accepted stream is open");
      }
      switch (sx_pick(3)) {
        case 0: s.close(); sx_assert(!s.isOpen(), "a closed listener is not open"); sx_assert(!s.accept(), "a closed listener accepts nothing"); break;
        case 1: if (c[0]) { c[0]->close(); checkClosed(*c[0]); } sx_assert(s.isOpen(), "closing a connection leaves the listener open"); break;
      }
      if (c[1]) sx_assert(c[1]->isOpen(), "an accepted stream stays open");
      sx_reach("listening");
    } else {
      sx_assert(!s.accept(), "a listener that could not be set up accepts nothing");
      s.close();
      sx_reach("not listening");
    }
  }
  finish();
}
// A reader, a writer, isOpen and close on one connection; every schedule.
extern "C" void h_sock_conc() {
  unsigned mode = sx_param("mode", 0);
  begin(0);
  os->wholeSends = true;
  {
    auto rw = dap::Socket::connect("localhost", "1234", 0);
    sx_assert(rw != nullptr, "connected");
    Fd& f = os->fd[0];
    os->blockSend = mode == 2;
    std::atomic<int> r{-1}, w{-1};
    std::thread a, b, c;
    if (mode == 0 || mode == 3) a = std::thread([&] { char x[2]; r.store(static_cast<int>(rw->read(x, 2)), std::memory_order_relaxed); });
    if (mode == 0 || mode == 2 || mode == 4) b = std::thread([&] { w.store(rw->write("q", 1), std::memory_order_relaxed); });
    if (mode == 1 || mode == 3) c = std::thread([&] { (void)rw->isOpen(); });
    if (mode == 4 || mode == 1) a = std::thread([&] { rw->close(); });
    if (mode == 5) {  // the connection breaks while being read and asked about
      { L l(os->m); f.err = ECONNRESET; f.inEnd = true; }
      a = std::thread([&] { char x[2]; r.store(static_cast<int>(rw->read(x, 2)), std::memory_order_relaxed); });
      c = std::thread([&] { (void)rw->isOpen(); });
    }
    if (mode == 5) (void)rw->isOpen();
    else rw->close();
    if (mode != 5) { sx_assert(!rw->isOpen(), "a closed socket is not open"); }
    if (a.joinable()) a.join();
    if (b.joinable()) b.join();
    if (c.joinable()) c.join();
    if (mode != 5) checkClosed(*rw);
    if (r.load() >= 0) sx_assert(r.load() == 0, "a read ended by close returns 0");
    if (w.load() >= 0) {
      sx_assert((w.load() == 1) == (os->sent.size() == 1), "a write reports whether the byte was taken");
      if (w.load()) sx_reach("written first"); else sx_reach("closed first");
    }
    sx_reach("closed");
  }
  finish();
}
// accept in one thread, close in the other.
extern "C" void h_sock_accept_close() {
  begin(0);
  {
    dap::Socket s("localhost", "1234");
    sx_assert(s.isOpen(), "listening");
    os->pending = sx_param("pending", 0);
    int got = 0;
    std::thread t([&] { for (;;) { auto c = s.accept(); if (!c) break; got++; sx_assert(c->isOpen(), "an accepted stream is open"); } });
    s.close();
    t.join();
    sx_assert(got == os->accepted, "every accepted connection is handed out");
    sx_assert(!s.isOpen(), "a closed listener is not open");
    sx_reach("closed");
  }
  finish();
}

// ---------------------------------------------------------------- C23
// Every way the operating system can take the bytes in parts, or fail.
extern "C" void h_sock_write() {
  begin(F_SEND);
  {
    auto rw = dap::Socket::connect("localhost", "1234", 0);
    sx_assert(rw != nullptr, "connected");
    unsigned n = sx_param("n", 5), m = sx_param("m", 2);
    std::string a = symString(n, "a"), b = symString(m, "b");
    bool ok = rw->write(a.data(), n);
    sx_assert(ok == !os->sendFailed, "a write succeeds exactly when no send failed");
    if (ok) {
      assertSame(os->sent, a, "a successful write sent every byte once and in order");
      os->sent.clear();
      ok = rw->write(b.data(), m);
      if (ok) { assertSame(os->sent, b, "a successful write sent every byte once and in order"); sx_reach("sent"); }
    }
    if (!ok) {
      sx_assert(os->sent.size() <= n, "a failed write sent a part");
      sx_reach("failed");
    }
  }
  finish();
}
extern "C" void h_sock_write_size() {
  begin(0);
  {
    auto rw = dap::Socket::connect("localhost", "1234", 0);
    sx_assert(rw != nullptr, "connected");
    char b[16];
    os->sizes = true;
    os->wbase = b;
    os->wtotal = sx_sym("n", 33);
    bool ok = rw->write(b, os->wtotal);
    if (ok) { sx_assert(os->wsent == os->wtotal, "a successful write sent every byte"); sx_reach("sent"); }
    else { sx_assert(os->sendFailed, "a write fails only when a send failed"); sx_reach("failed"); }
  }
  finish();
}
extern "C" void h_sock_read() {
  begin(F_RECV);
  {
    auto rw = dap::Socket::connect("localhost", "1234", 0);
    sx_assert(rw != nullptr, "connected");
    Fd& f = os->fd[0];
    unsigned n = sx_param("n", 4);
    f.in = symString(n, "in");
    f.inEnd = true;
    std::string got;
    for (unsigned i = 0; i < n + 2; i++) {
      char b[8];
      memset(b, '.', sizeof b);
      size_t before = f.inPos, want = 1 + sx_pick(n);
      size_t k = rw->read(b, want);
      sx_assert(k == f.inPos - before, "a read returns the number of bytes received");
      sx_assert(k <= want, "a read returns no more than asked for");
      sx_assert_same(b, f.in.data() + before, k, "a read stores the bytes received");
      for (size_t j = k; j < sizeof b; j++) sx_assert(b[j] == '.', "a read stores only the bytes received");
      sx_merge();
      if (f.inPos == n && k == 0) { sx_reach("end"); break; }
      if (k == 0) { sx_assert(os->recvFailed, "a read returns 0 only at the end or after a failure"); sx_reach("failed"); break; }
    }
    sx_assert(rw->isOpen(), "reading does not close the socket");
  }
  finish();
}
extern "C" void h_sock_read_size() {
  begin(0);
  {
    auto rw = dap::Socket::connect("localhost", "1234", 0);
    sx_assert(rw != nullptr, "connected");
    char b[16];
    os->sizes = true;
    os->asked = sx_sym("n", 64);
    sx_assume(os->asked >= 1);
    size_t k = rw->read(b, os->asked);
    sx_assert(k == os->got, "a read returns the number of bytes received");
    sx_reach("read");
  }
  finish();
}
// Bytes of two writers do not get lost, and the writes of each stay in order.
extern "C" void h_sock_write_conc() {
  begin(0);
  os->wholeSends = sx_param("whole", 0);
  {
    auto rw = dap::Socket::connect("localhost", "1234", 0);
    std::thread t([&] { sx_assert(rw->write("abc", 3), "write"); });
    sx_assert(rw->write("12", 2), "write");
    t.join();
    std::string a, d;
    for (char c : os->sent) (c >= 'a' ? a : d).push_back(c);
    sx_assert(a == "abc" && d == "12", "every byte of concurrent writes is sent once and in order");
    sx_reach("sent");
  }
  finish();
}

// ---------------------------------------------------------------- C24
extern "C" void h_connect() {
  bool timed = sx_param("timed", 1);
  begin((timed ? F_FCNTL | F_SELECT : 0) | F_GAI | F_SOCKET | F_CONNECT);
  os->base = sx_param("base", 3);
  if (sx_param("nofault", 0)) os->faults &= ~(F_FCNTL | F_SELECT);
  uint32_t ms = 0;
  if (timed) { ms = static_cast<uint32_t>(sx_sym("timeout", 32)); sx_assume(ms != 0); }
  {
    auto rw = sx_param("net", 0) ? dap::net::connect("localhost", 1234, ms) : dap::Socket::connect("localhost", "1234", ms);
    uint64_t limit = ms;
    if (timed) sx_assert(os->now <= limit, "connect waits no longer than the timeout");
    if (rw) {
      sx_assert(os->established, "connect returns a stream only when the connection was established");
      sx_assert(!os->fd[0].nonblock, "the stream returned is in blocking mode");
      sx_assert(rw->isOpen(), "the stream returned is open");
      sx_reach("connected");
    } else if (!os->failedSetup) {
      if (timed && os->event == kEstablished) sx_assert(os->eventAt > limit, "a connection established before the timeout is returned");
      sx_assert(!os->established, "connect returns the connection that was established");
      if (os->refusedNow) sx_reach("refused");
      else if (os->event == kNever) { sx_assert(os->now == limit, "connect waits until the timeout"); sx_reach("timed out"); }
      else if (os->event == kEstablished) { sx_assert(os->now == limit, "connect waits until the timeout"); sx_reach("too late"); }
      else sx_reach("failed later");
    } else sx_reach("setup failed");
  }
  finish();
}

// ---------------------------------------------------------------- C25
struct Calls { std::atomic<int> connects{0}, errors{0}; std::atomic<bool> over{false}; };
static void wireServer(Calls& c, dap::net::Server::OnConnect& oc, dap::net::Server::OnError& oe) {
  oc = [&c](const std::shared_ptr<dap::ReaderWriter>& rw) {
    sx_assert(!c.over.load(std::memory_order_relaxed), "no callback runs once the server was stopped");
    sx_assert(rw && rw->isOpen(), "the connection passed to the callback is open");
    L l(os->m);
    c.connects.fetch_add(1, std::memory_order_relaxed);
    os->cv.notify_all();
  };
  oe = [&c](const char* m) {
    sx_assert(!c.over.load(std::memory_order_relaxed), "no callback runs once the server was stopped");
    sx_assert(m && m[0], "an error has a text");
    c.errors.fetch_add(1, std::memory_order_relaxed);
  };
}
// start with every outcome, k connections, then stop, destruction or restart.
extern "C" void h_server() {
  unsigned k = sx_param("k", 1), end = sx_param("end", 0), arrive = sx_param("arrive", 0);
  begin((sx_param("setup", 0) ? F_GAI | F_SOCKET | F_BIND | F_LISTEN : 0) | (sx_param("accfail", 0) ? F_ACCEPT : 0));
  Calls c, c2;
  {
    auto s = dap::net::Server::create();
    dap::net::Server::OnConnect oc, oc2; dap::net::Server::OnError oe, oe2;
    wireServer(c, oc, oe); wireServer(c2, oc2, oe2);
    if (!arrive) os->pending = static_cast<int>(k);
    bool ok = sx_param("addr", 0) ? s->start("127.0.0.1", 1234, oc, oe) : s->start(1234, oc, oe);
    bool failed = os->startFailed;
    sx_assert(ok == !failed, "start reports whether the server is listening");
    Fd* lf = nullptr;
    {
      L l(os->m);
      for (int i = 0; i < os->n; i++) if (os->fd[i].listening) lf = &os->fd[i];
      os->faults &= F_ACCEPT;
    }
    if (ok) {
      sx_assert(lf && (lf->open || os->acceptFails), "a started server listens");
      for (unsigned i = 0; arrive && i < k; i++) { L l(os->m); os->pending++; os->cv.notify_all(); }
      sx_reach("started");
    } else {
      sx_assert(c.errors.load() == 1, "a start that fails reports one error");
      sx_assert(sx_threads() == 0, "a start that fails leaves no thread");
      sx_reach("not started");
    }
    bool quiet = sx_threads() == 0;  // the accept thread is past its last call
    auto check = [&] {
      c.over = true;
      int accFails = os->acceptFails;
      sx_assert(c.connects.load() == (lf ? lf->accepted : 0), "each accepted connection is passed to the callback once");
      sx_assert(c.errors.load() >= (failed ? 1 : quiet ? accFails : 0), "each failure is reported");
      sx_assert(c.errors.load() <= (failed ? 1 : accFails), "each failure is reported once, and nothing else is");
      if (quiet && accFails) sx_reach("accept failed");
      if (lf) sx_assert(!lf->open, "the listener is closed");
    };
    if (end >= 4 && ok) { L l(os->m); os->cv.wait(l, [&] { return c.connects.load() == static_cast<int>(k); }); sx_reach("all connected"); }
    if (end == 4) { s->stop(); check(); s->stop(); }
    else if (end == 5) { s.reset(); check(); }
    else if (end == 0) { s->stop(); check(); s->stop(); }
    else if (end == 1) { s.reset(); check(); }
    else if (end == 2) {
      { L l(os->m); os->faults = 0; }
      bool ok2 = s->start(1235, oc2, oe2);
      c.over = true;
      sx_assert(ok2, "the server starts again");
      sx_assert(sx_threads() <= 1, "the previous listener's thread has ended");
      { L l(os->m); check(); }
      s->stop();
      c2.over = true;
      sx_assert(c2.errors.load() == 0, "the second start reports no error");
      sx_assert(c.connects.load() + c2.connects.load() == os->accepted, "each accepted connection is passed to the callback once");
      sx_reach("restarted");
    } else if (end == 3) {
      std::thread t([&] { s->stop(); });
      s->stop();
      sx_assert(sx_threads() <= 1, "the listener's thread has ended when stop returns");
      t.join();
      check();
    }
    sx_assert(sx_threads() == 0, "the listener's thread has ended");
    sx_reach("ended");
  }
  finish();
}
// The address and port given are the ones used.
extern "C" void h_net_addr() {
  unsigned mode = sx_param("mode", 0);
  begin(mode == 0 ? F_CONNECT : 0);
  static char addr[5];
  std::string a = symString(4, "addr");
  for (char c : a) sx_assume(c != 0);
  memcpy(addr, a.c_str(), 5);
  uint64_t port = sx_sym("port", 16);
  os->wantAddr = addr;
  os->wantPort = port;
  if (mode == 0) {
    uint32_t t = sx_pick(2) ? 500 : 0;
    auto rw = dap::net::connect(addr, static_cast<int>(port), t);
    sx_reach("connect");
  } else {
    auto s = dap::net::Server::create();
    if (mode == 1) { os->wantAddr = "localhost"; os->local = true; s->start(static_cast<int>(port), [](const std::shared_ptr<dap::ReaderWriter>&) {}); }
    else s->start(addr, static_cast<int>(port), [](const std::shared_ptr<dap::ReaderWriter>&) {});
    sx_reach("start");
  }
  finish();
}
// Starts and stops by two threads.
extern "C" void h_server_conc() {
  unsigned mode = sx_param("mode", 0);
  begin(0);
  Calls c, c2;
  {
    auto s = dap::net::Server::create();
    dap::net::Server::OnConnect oc, oc2; dap::net::Server::OnError oe, oe2;
    wireServer(c, oc, oe); wireServer(c2, oc2, oe2);
    os->pending = static_cast<int>(sx_param("k", 1));
    if (mode & 2) s->start(1234, oc, oe);
    std::thread t([&] { if (mode & 1) s->start(1235, oc2, oe2); else s->stop(); });
    sx_assert(s->start(1234, oc, oe), "the server starts");
    t.join();
    s->stop();
    c.over = true; c2.over = true;
    sx_assert(sx_threads() == 0, "the listener's thread has ended");
    sx_assert(c.errors.load() + c2.errors.load() == 0, "no error is reported");
    sx_assert(c.connects.load() + c2.connects.load() == os->accepted, "each accepted connection is passed to the callback once");
    sx_reach("ended");
  }
  finish();
}
