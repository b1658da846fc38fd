// Built-in functions and intrinsics. Included by sx.cpp.
R threadFinished();
static Val A(unsigned i) { return slot(ki->ci->args[i].op); }
static unsigned AW(unsigned i) { return ki->ci->args[i].w; }
static uint64_t C(unsigned i) { return conc(A(i), AW(i)); }
static R ret(const Val& v) { if (ki->dst >= 0) fr->s[ki->dst] = v; return NEXT; }
static R ret0() { return NEXT; }
static unsigned aliveThreads() { unsigned n = 0; for (auto& t : S->th) n += !t.done; return n; }
static double D(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
static uint64_t UD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static float F32(uint64_t x) { uint32_t y = x; float d; memcpy(&d, &y, 4); return d; }
static uint64_t UF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

// visible() with the rule that a lone live enabled thread takes no scheduling decision
static bool vis(PendKind k, uint64_t a) {
  Thread& T = S->th[S->cur];
  if (!T.permit && aliveThreads() == 1) { T.pend = k; T.pa = a; if (enabled(*S, S->cur)) { T.pend = P_None; return true; } }
  return visible(k, a);
}

static Expr* cmpChain(uint64_t a, uint64_t b, uint64_t n, bool str) {
  // three-way comparison of byte ranges; str stops at NUL
  std::vector<std::pair<Val, Val>> v;
  for (uint64_t i = 0; i < n; i++) {
    Obj* oa = check(a + i, 1, false, "memory comparison"); Obj* ob = check(b + i, 1, false, "memory comparison");
    Val x = simp(byteAt(oa, a + i - oa->base)), y = simp(byteAt(ob, b + i - ob->base));
    v.push_back({x, y});
    if (!x.e && !y.e && x.c != y.c) break;
    if (str && ((!x.e && x.c == 0) || (!y.e && y.c == 0))) break;
  }
  if (n) { Obj* oa = findObj(*S, a); raceAccess(oa, a - oa->base, v.size(), false); Obj* ob = findObj(*S, b); raceAccess(ob, b - ob->base, v.size(), false); }
  Expr* r = mkConst(32, 0);
  for (size_t i = v.size(); i-- > 0;) {
    Expr *x = E(v[i].first, 8), *y = E(v[i].second, 8);
    if (str) r = mkIte(mkEq(x, mkConst(8, 0)), mkConst(32, 0), r);
    r = mkIte(mkEq(x, y), r, mkIte(mkBin(K_Ult, x, y), mkConst(32, (uint32_t)-1), mkConst(32, 1)));
  }
  return r;
}

static uint64_t strLen(uint64_t a) {
  uint64_t n = 0;
  for (;;) { Obj* o = check(a + n, 1, false, "strlen"); Val v = simp(byteAt(o, a + n - o->base)); if (v.e ? decide(mkEq(v.e, mkConst(8, 0))) : v.c == 0) { raceAccess(o, a - o->base, n + 1, false); return n; } n++; }
}
static R fpUnary(double (*f)(double)) { return ret(V(UD(f(D(C(0)))))); }
static R fpBinary(double (*f)(double, double)) { return ret(V(UD(f(D(C(0)), D(C(1)))))); }

static void symInput(const std::string& full, Expr* e) { S->inputs.push_back({full, e}); }
static std::string symName(const std::string& n) {
  Thread& T = S->th[S->cur];
  return (S->cur ? "t" + std::to_string(S->cur) + ":" : "") + n + "#" + std::to_string(T.varCount[n]++);
}
static uint64_t allocSize(Val v) {
  v = simp(v);
  if (v.e && evalFast(v.e, *S->model) > (16u << 20)) { if (decide(mkBin(K_Ult, mkConst(64, 16u << 20), v.e))) return ~0ull; }
  uint64_t n = conc(v, 64);
  return n > (16u << 20) ? ~0ull : n;
}
static R opNew(ObjKind k, bool nothrow) { uint64_t n = allocSize(A(0)); if (n == ~0ull) { if (nothrow) return ret(V(0)); return throwNamed("_ZTISt9bad_alloc"); } return ret(V(heapAlloc(n, k))); }
static R opDel(ObjKind k, const char* w) { uint64_t a = C(0); heapFree(a, k, w); return ret0(); }
static R lockMutex() {
  uint64_t m = C(0); check(m, 8, true, "mutex lock");
  if (!vis(P_Lock, m)) return RETRY;
  S->mutexOwner[m] = S->cur; acq(m);
  return ret(V(0));
}
static R unlockMutex() {
  uint64_t m = C(0); check(m, 8, true, "mutex unlock");
  auto it = S->mutexOwner.find(m);
  if (it == S->mutexOwner.end()) fail("mutex", "unlock of a mutex that is not locked");
  if (it->second != S->cur) fail("mutex", "unlock of a mutex locked by another thread");
  S->mutexOwner.erase(it); rel(m);
  return ret(V(0));
}
static R condWait(bool timed, int tsArg) {
  Thread& T = S->th[S->cur];
  uint64_t c = C(0), m = C(1);
  if (!T.inWait) {
    uint64_t dl = 0;
    if (timed) { uint64_t ts = C(tsArg); dl = conc(loadScalar(V(ts), 64), 64) * 1000000000ull + conc(loadScalar(V(ts + 8), 64), 64); }
    check(c, 8, true, "condition wait");
    if (!vis(P_Op, c)) return RETRY;
    auto it = S->mutexOwner.find(m);
    if (it == S->mutexOwner.end() || it->second != S->cur) fail("mutex", "condition wait without holding the mutex");
    S->mutexOwner.erase(it); rel(m);
    T.inWait = true; T.signalled = false; T.timed = timed; T.deadline = dl; T.pend = P_Wake; T.pa = c; T.pm = m;
    return schedule();
  }
  if (T.timed && !T.signalled && o_spurious && !T.wakeKind) {  // the time is up, or a spurious wake-up
    State* N = new State(*S); N->th[N->cur].wakeKind = 2; N->dec.push_back("w2"); work.push_back(N);
    S->dec.push_back("w1"); S->th[S->cur].wakeKind = 1;
    return condWait(timed, tsArg);
  }
  bool spur = T.wakeKind == 2;
  T.wakeKind = 0;
  T.permit = false; T.inWait = false; T.pend = P_None;
  S->mutexOwner[m] = S->cur; acq(m);
  bool to = T.timed && !T.signalled && !spur;
  if (to) S->time = std::max(S->time, T.deadline);
  T.signalled = false; T.timed = false; T.deadline = 0;
  return ret(V(to ? 110 : 0));
}
static R condSignal(bool all) {
  uint64_t c = C(0); check(c, 8, true, "condition notify");
  if (!vis(P_Op, c)) return RETRY;
  std::vector<int> w;
  for (int t = 0; t < (int)S->th.size(); t++) if (S->th[t].inWait && S->th[t].pend == P_Wake && S->th[t].pa == c && !S->th[t].signalled) w.push_back(t);
  if (all) { for (int t : w) S->th[t].signalled = true; return ret(V(0)); }
  if (w.empty()) return ret(V(0));
  if (w.size() > 1) for (size_t i = 1; i < w.size(); i++) {
    State* T = new State(*S); T->th[w[i]].signalled = true; T->dec.push_back("n" + std::to_string(w[i]));
    Frame& f = *T->th[T->cur].st.back(); if (ki->dst >= 0) f.s[ki->dst] = V(0);
    if (ki->op != Instruction::Call) unsupported("notify_one through invoke");
    f.pc++; work.push_back(T);
  }
  if (w.size() > 1) S->dec.push_back("n" + std::to_string(w[0]));
  S->th[w[0]].signalled = true;
  return ret(V(0));
}
static R threadCreate() {
  uint64_t tp = C(0), fn = C(2), arg = C(3);
  if (S->th.size() >= (size_t)MAXT) unsupported("too many threads");
  Function* F = fnAt(fn);
  if (!F || F->isDeclaration()) unsupported("thread routine");
  int t = S->th.size();
  if (o_races) {}
  S->th.emplace_back();
  Thread& N = S->th.back(); Thread& P = S->th[S->cur];
  N.pend = P_Start;
  for (int i = 0; i < MAXT; i++) N.vc[i] = P.vc[i];
  N.vc[t]++; P.vc[S->cur]++;
  int save = S->cur; S->cur = t;
  Frame* sf = fr;
  pushFrame(getKF(F), -1); fr->s[0] = V(arg);
  S->cur = save; fr = sf;
  storeScalar(V(tp), 64, V(t + 0x100));
  return ret(V(0));
}

typedef R (*BF)();
static std::unordered_map<std::string, int> bIds; static std::vector<BF> bFns;
static void reg(const char* n, BF f) { bIds[n] = bFns.size(); bFns.push_back(f); }
static void initBuiltins() {
  // ---- harness interface
  reg("sx_sym", [] { std::string n = readStr(C(0)); unsigned w = C(1); std::string full = symName(n); Expr* e = mkVar(full, w); symInput(full, e); return ret(VE(mkZExt(e, 64))); });
  reg("sx_sym_bytes", [] {
    uint64_t p = C(0), n = C(1); std::string full = symName(readStr(C(2)));
    if (!n) return ret0();
    Obj* o = check(p, n, true, "sx_sym_bytes"); o = writable(*S, o);
    for (uint64_t i = 0; i < n; i++) { std::string b = full + "[" + std::to_string(i) + "]"; Expr* e = mkVar(b, 8); symInput(b, e); storeTo(o, p - o->base + i, 8, VE(e)); }
    return ret0();
  });
  reg("sx_assume", [] {
    Val c = simp(A(0));
    if (!c.e) { if (!c.c) { st_assumeKill++; endPath(); } return ret0(); }
    Expr* e = c.e; if (e->w > 1) e = mkNot(mkEq(e, mkConst(e->w, 0)));
    if (e->isConst()) { if (!e->v) { st_assumeKill++; endPath(); } return ret0(); }
    ModelP m2; int r = solverCheck(S->cs, e, S->model, &m2);
    if (r == 0) { st_assumeKill++; endPath(); }
    if (r < 0) { g_unsupported["solver unknown"]++; endPath(); }
    S->model = m2; addC(*S, e); return ret0();
  });
  reg("sx_assert", [] {
    Val c = simp(A(0)); st_asserts++;
    if (!c.e) { if (!c.c) { std::string m = readStr(C(1)); fail("assert", m); } return ret0(); }
    Expr* e = c.e; if (e->w > 1) e = mkNot(mkEq(e, mkConst(e->w, 0)));
    if (e->isConst()) { if (!e->v) fail("assert", readStr(C(1))); return ret0(); }
    ModelP m2; st_assertQ++;
    int r = solverCheck(S->cs, mkNot(e), S->model, &m2);
    if (r == 1) {
      report(*S, m2, "assert", readStr(C(1)));
      r = solverCheck(S->cs, e, S->model, &m2);
      if (r != 1) endPath();
      S->model = m2; addC(*S, e);
    } else if (r < 0) { g_unsupported["solver unknown"]++; }
    return ret0();
  });
  reg("sx_assert_same", [] {
    uint64_t a = C(0), b = C(1), n = C(2); st_asserts++;
    if (!n) return ret0();
    Obj* oa = check(a, n, false, "comparison"); Obj* ob = check(b, n, false, "comparison");
    raceAccess(oa, a - oa->base, n, false); raceAccess(ob, b - ob->base, n, false); oa = findObj(*S, a); ob = findObj(*S, b);
    std::vector<std::pair<Expr*, Expr*>> p;
    for (uint64_t i = 0; i < n; i++) { Val x = byteAt(oa, a - oa->base + i), y = byteAt(ob, b - ob->base + i); if (!x.e && !y.e) { if (x.c != y.c) fail("assert", readStr(C(3))); } else p.push_back({E(x, 8), E(y, 8)}); }
    if (p.empty()) return ret0();
    ModelP m2; st_assertQ++;
    int r = solverDiffer(S->cs, p, S->model, &m2);
    if (r == 1) { report(*S, m2, "assert", readStr(C(3))); endPath(); }
    if (r < 0) g_unsupported["solver unknown"]++;
    return ret0();
  });
  reg("sx_fail", [] { fail("assert", readStr(C(0))); return ret0(); });
  reg("sx_stop", [] { pathDoneHook(); endPath(); return ret0(); });
  reg("sx_reach", [] { std::string l = readStr(C(0)); if (!g_reached.count(l)) S->reached.insert(l); return ret0(); });
  reg("sx_observe", [] { if (S->obs.size() < 4096) S->obs.push_back(A(0)); return ret0(); });
  reg("sx_param", [] { auto it = o_params.find(readStr(C(0))); return ret(it == o_params.end() ? A(1) : V(it->second)); });
  reg("sx_concretize", [] { return ret(V(C(0))); });
  reg("sx_pick", [] {  // nondeterministic choice 0..n-1: forks, leaves no constraint behind
    uint64_t n = C(0); if (n == 0) unsupported("sx_pick(0)");
    std::string nm = "pick#" + std::to_string(S->picks++);
    for (uint64_t i = n; i-- > 1;) {
      State* T = forkState(); T->inputs.push_back({nm, mkConst(64, i)});
      Frame& f = *T->th[T->cur].st.back(); if (ki->dst >= 0) f.s[ki->dst] = V(i);
      if (ki->op == Instruction::Invoke) { Frame* sv = fr; fr = &f; takeEdge((*ki->edges)[0]); fr = sv; } else f.pc++;
      work.push_back(T);
    }
    S->inputs.push_back({nm, mkConst(64, 0)});
    return ret(V(0));
  });
  reg("sx_merge", [] {  // prune a path whose complete symbolic state was seen here before
    uint64_t h = hashState(*S); h = hmix(h, 0x5EED);
    for (auto& o : S->obs) h = hval(h, o);
    if (!visited.insert(h).second) { st_pruned++; endPath(); }
    st_states++; return ret0();
  });
  reg("sx_live", [] { return ret(V((uint64_t)S->live[1])); });
  reg("sx_live_malloc", [] { return ret(V((uint64_t)S->live[0])); });
  reg("sx_yield", [] { if (!vis(P_Op, 0)) return RETRY; return ret0(); });
  reg("sx_threads", [] { return ret(V(aliveThreads() - 1)); });
  reg("sx_tid", [] { return ret(V(S->cur)); });
  reg("sx_time", [] { return ret(V(S->time)); });
  reg("sx_advance_time", [] { S->time += C(0); return ret0(); });
  reg("sx_native", [] { return ret(V(0)); });
  reg("sx_run_atexit", [] { S->kv[1] = 1; return ret0(); });
  reg("sx_expect_live_at_exit", [] { S->kv[2] = C(0); return ret0(); });
  reg("sx_is_freed", [] { Obj* o = findObj(*S, C(0)); return ret(V(!o || o->freed)); });
  reg("sx_rt_fail", [] { unsupported("rt: " + readStr(C(0))); return ret0(); });
  reg("sx_rt_strtod", [] {
    uint64_t p = C(0), ep = C(1); std::string s = readStr(p); char* e; double d = strtod(s.c_str(), &e);
    if (ep) storeScalar(V(ep), 64, V(p + (e - s.c_str())));
    return ret(V(UD(d)));
  });
  reg("sx_rt_fmtd", [] {  // (char* out, size, const char* fmt, double)
    uint64_t p = C(0), n = C(1); std::string f = readStr(C(2)); char buf[512]; snprintf(buf, sizeof buf, f.c_str(), D(C(3)));
    size_t l = strlen(buf); for (size_t i = 0; i <= l && i < n; i++) storeScalar(V(p + i), 8, V((uint8_t)(i == n - 1 ? 0 : buf[i])));
    return ret(V(l));
  });
  // ---- heap
  reg("malloc", [] { uint64_t n = allocSize(A(0)); return ret(V(n == ~0ull ? 0 : heapAlloc(n, O_Malloc))); });
  reg("calloc", [] { uint64_t n = C(0) * C(1); if (n > (16u << 20)) return ret(V(0)); uint64_t a = heapAlloc(n, O_Malloc); Obj* o = findObj(*S, a); memset(o->d.data(), 0, n); return ret(V(a)); });
  reg("realloc", [] {
    uint64_t p = C(0), n = allocSize(A(1)); if (n == ~0ull) return ret(V(0));
    uint64_t a = heapAlloc(n, O_Malloc);
    if (p) { Obj* o = findObj(*S, p); if (!o || o->base != p || o->kind != O_Malloc) fail("badfree", "realloc of a pointer that was not allocated"); if (o->freed) fail("uaf", "realloc of freed memory"); copyMem(a, p, std::min(n, (uint64_t)o->size)); heapFree(p, O_Malloc, "realloc"); }
    return ret(V(a));
  });
  reg("aligned_alloc", [] { return ret(V(heapAlloc(C(1), O_Malloc))); });
  reg("posix_memalign", [] { uint64_t a = heapAlloc(C(2), O_Malloc); storeScalar(A(0), 64, V(a)); return ret(V(0)); });
  reg("free", [] { return opDel(O_Malloc, "free"); });
  for (const char* n : {"_Znwm", "_ZnwmSt11align_val_t"}) reg(n, [] { return opNew(O_New, false); });
  for (const char* n : {"_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) reg(n, [] { return opNew(O_New, true); });
  for (const char* n : {"_Znam", "_ZnamSt11align_val_t"}) reg(n, [] { return opNew(O_NewArr, false); });
  for (const char* n : {"_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t"}) reg(n, [] { return opNew(O_NewArr, true); });
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, [] { return opDel(O_New, "delete"); });
  for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) reg(n, [] { return opDel(O_NewArr, "delete[]"); });
  // ---- mem / str
  for (const char* n : {"memcpy", "memmove"}) reg(n, [] { copyMem(C(0), C(1), C(2)); return ret(A(0)); });
  reg("memset", [] { uint64_t p = C(0), n = C(2); Val v = A(1); if (n) { Obj* o = check(p, n, true, "memset"); raceAccess(o, p - o->base, n, true); o = writable(*S, findObj(*S, p)); Val b = v.e ? VE(mkExtract(v.e, 0, 8)) : V(v.c & 255); for (uint64_t i = 0; i < n; i++) storeTo(o, p - o->base + i, 8, b); } return ret(A(0)); });
  for (const char* n : {"memcmp", "bcmp"}) reg(n, [] { return ret(VE(cmpChain(C(0), C(1), C(2), false))); });
  reg("strcmp", [] { return ret(VE(cmpChain(C(0), C(1), ~0ull >> 1, true))); });
  reg("strncmp", [] { return ret(VE(cmpChain(C(0), C(1), C(2), true))); });
  reg("strlen", [] { return ret(V(strLen(C(0)))); });
  reg("strnlen", [] { uint64_t a = C(0), mx = C(1), n = 0; for (; n < mx; n++) { Obj* o = check(a + n, 1, false, "strnlen"); Val v = simp(byteAt(o, a + n - o->base)); if (v.e ? decide(mkEq(v.e, mkConst(8, 0))) : v.c == 0) break; } return ret(V(n)); });
  for (const char* n : {"memchr", "rawmemchr"}) reg(n, [] {
    uint64_t a = C(0), n = C(2); Val c = simp(A(1)); Expr* ce = c.e ? mkExtract(c.e, 0, 8) : mkConst(8, c.c & 255);
    if (c.e && n <= 64) {  // concrete haystack, symbolic needle: no forking
      bool con = true; Expr* r = mkConst(64, 0);
      for (uint64_t i = n; i-- > 0 && con;) { Obj* o = check(a + i, 1, false, "memchr"); Val v = simp(byteAt(o, a + i - o->base)); if (v.e) con = false; else r = mkIte(mkEq(ce, mkConst(8, v.c)), mkConst(64, a + i), r); }
      if (con) return ret(VE(r));
    }
    for (uint64_t i = 0; i < n; i++) { Obj* o = check(a + i, 1, false, "memchr"); Val v = byteAt(o, a + i - o->base); if (decide(mkEq(E(v, 8), ce))) return ret(V(a + i)); }
    return ret(V(0));
  });
  reg("strchr", [] {
    uint64_t a = C(0); Val c = simp(A(1)); Expr* ce = c.e ? mkExtract(c.e, 0, 8) : mkConst(8, c.c & 255);
    std::vector<Val> bytes; bool conc_ = true;
    for (uint64_t i = 0;; i++) { Obj* o = check(a + i, 1, false, "strchr"); Val v = simp(byteAt(o, a + i - o->base)); if (v.e) { conc_ = false; break; } bytes.push_back(v); if (!v.c) break; if (i > 4096) unsupported("strchr"); }
    if (conc_) { Expr* r = mkConst(64, 0); for (size_t i = bytes.size(); i-- > 0;) r = mkIte(mkEq(ce, mkConst(8, bytes[i].c)), mkConst(64, a + i), r); return ret(VE(r)); }
    for (uint64_t i = 0;; i++) { Obj* o = check(a + i, 1, false, "strchr"); Val v = byteAt(o, a + i - o->base); if (decide(mkEq(E(v, 8), ce))) return ret(V(a + i)); if (decide(mkEq(E(v, 8), mkConst(8, 0)))) return ret(V(0)); }
  });
  // ---- process
  for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual"}) reg(n, [] { fail("abort", std::string("the process is aborted") + (S->th[S->cur].caught.empty() ? "" : " (exception escapes a noexcept function)")); return ret0(); });
  for (const char* n : {"exit", "_exit", "quick_exit"}) reg(n, [] { fail("abort", "the process exits"); return ret0(); });
  reg("__assert_fail", [] { fail("assertfail", "assertion failed: " + readStr(C(0))); return ret0(); });
  reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", [] { fail("assertfail", "libstdc++ precondition violated: " + readStr(C(3))); return ret0(); });
  reg("__cxa_atexit", [] { S->atexits.push_back({C(0), C(1)}); return ret(V(0)); });
  reg("atexit", [] { S->atexits.push_back({C(0), 0}); return ret(V(0)); });
  reg("__stack_chk_fail", [] { fail("stack", "stack smashing"); return ret0(); });
  // ---- exceptions
  reg("__cxa_allocate_exception", [] { Thread& T = S->th[S->cur]; return ret(V(allocAt(*S, regHeap(S->cur), T.heapNext, C(0), O_Exc, 0)->base)); });
  reg("__cxa_free_exception", [] { return ret0(); });
  reg("__cxa_throw", [] { S->th[S->cur].inflight.push_back({C(0), C(1)}); return unwind(); });
  reg("__cxa_begin_catch", [] { Thread& T = S->th[S->cur]; if (T.inflight.empty()) unsupported("begin_catch"); T.caught.push_back(T.inflight.back()); T.inflight.pop_back(); return ret(A(0)); });
  reg("__cxa_end_catch", [] { Thread& T = S->th[S->cur]; if (!T.caught.empty()) T.caught.pop_back(); return ret0(); });
  reg("__cxa_rethrow", [] { Thread& T = S->th[S->cur]; if (T.caught.empty()) fail("abort", "rethrow without exception"); T.inflight.push_back(T.caught.back()); return unwind(); });
  reg("_ZSt17__throw_bad_allocv", [] { return throwNamed("_ZTISt9bad_alloc"); });
  reg("_ZSt28__throw_bad_array_new_lengthv", [] { return throwNamed("_ZTISt20bad_array_new_length"); });
  reg("_ZSt20__throw_length_errorPKc", [] { return throwNamed("_ZTISt12length_error"); });
  reg("_ZSt19__throw_logic_errorPKc", [] { return throwNamed("_ZTISt11logic_error"); });
  reg("_ZSt20__throw_out_of_rangePKc", [] { return throwNamed("_ZTISt12out_of_range"); });
  reg("_ZSt24__throw_out_of_range_fmtPKcz", [] { return throwNamed("_ZTISt12out_of_range"); });
  reg("_ZSt24__throw_invalid_argumentPKc", [] { return throwNamed("_ZTISt16invalid_argument"); });
  reg("_ZSt21__throw_runtime_errorPKc", [] { return throwNamed("_ZTISt13runtime_error"); });
  reg("_ZSt20__throw_system_errori", [] { return throwNamed("_ZTISt12system_error"); });
  reg("_ZSt25__throw_bad_function_callv", [] { return throwNamed("_ZTISt17bad_function_call"); });
  // ---- threads
  reg("pthread_mutex_lock", lockMutex);
  reg("pthread_mutex_unlock", unlockMutex);
  reg("pthread_mutex_trylock", [] { uint64_t m = C(0); if (!vis(P_Op, m)) return RETRY; if (S->mutexOwner.count(m)) return ret(V(16)); S->mutexOwner[m] = S->cur; acq(m); return ret(V(0)); });
  for (const char* n : {"pthread_mutex_init", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy"}) reg(n, [] { return ret(V(0)); });
  reg("pthread_mutex_destroy", [] { if (S->mutexOwner.count(C(0))) fail("mutexdestroy", "a locked mutex is destroyed"); return ret(V(0)); });
  reg("pthread_cond_wait", [] { return condWait(false, 0); });
  reg("pthread_cond_timedwait", [] { return condWait(true, 2); });
  reg("pthread_cond_clockwait", [] { return condWait(true, 3); });
  reg("pthread_cond_signal", [] { return condSignal(false); });
  reg("pthread_cond_broadcast", [] { return condSignal(true); });
  reg("pthread_create", threadCreate);
  reg("pthread_join", [] {
    uint64_t t = C(0) - 0x100; if (t >= S->th.size()) fail("thread", "join of an invalid thread");
    if ((int)t == S->cur) fail("thread", "a thread joins itself");
    if (S->th[t].detached) fail("thread", "join of a thread already joined or detached");
    if (!vis(P_Join, t)) return RETRY;
    S->th[t].detached = true; acq(0xFFFF0000ull + t);
    return ret(V(0));
  });
  reg("pthread_detach", [] { uint64_t t = C(0) - 0x100; if (t < S->th.size()) S->th[t].detached = true; return ret(V(0)); });
  reg("pthread_self", [] { return ret(V(S->cur + 0x100)); });
  reg("sched_yield", [] { if (!vis(P_Op, 0)) return RETRY; return ret(V(0)); });
  reg("__cxa_guard_acquire", [] {
    uint64_t g = C(0); Obj* o = check(g, 8, true, "static guard");
    if (o->d[g - o->base]) { acq(g); return ret(V(0)); }
    if (o->d[g - o->base + 1] == S->cur + 1) fail("abort", "recursive initialisation of a local static");
    if (!vis(P_Guard, g)) return RETRY;
    o = findObj(*S, g); acq(g);
    if (o->d[g - o->base]) return ret(V(0));
    o = writable(*S, o); o->d[g - o->base + 1] = S->cur + 1;
    return ret(V(1));
  });
  reg("__cxa_guard_release", [] { uint64_t g = C(0); Obj* o = writable(*S, check(g, 8, true, "static guard")); o->d[g - o->base] = 1; o->d[g - o->base + 1] = 0; rel(g); return ret0(); });
  reg("__cxa_guard_abort", [] { uint64_t g = C(0); Obj* o = writable(*S, check(g, 8, true, "static guard")); o->d[g - o->base + 1] = 0; return ret0(); });
  // ---- libm (concrete)
  reg("floor", [] { return fpUnary(floor); }); reg("ceil", [] { return fpUnary(ceil); }); reg("log10", [] { return fpUnary(log10); });
  reg("trunc", [] { return fpUnary(trunc); }); reg("round", [] { return fpUnary(round); }); reg("sqrt", [] { return fpUnary(sqrt); });
  reg("exp", [] { return fpUnary(exp); }); reg("log", [] { return fpUnary(log); });
  reg("pow", [] { return fpBinary(pow); }); reg("fmod", [] { return fpBinary(fmod); });
}
static int builtinId(const std::string& n) { if (bFns.empty()) initBuiltins(); auto it = bIds.find(n); return it == bIds.end() ? -1 : it->second; }
static R runBuiltin(int id, KInst*) { return bFns[id](); }

static R doIntrinsic(KInst* k, unsigned id) {
  unsigned w = k->w;
  auto mm = [&](unsigned pred) { Val a = A(0), b = A(1); Val c = icmp_(pred, w, a, b); if (!c.e) return ret(c.c ? a : b); return ret(VE(mkIte(c.e, E(a, w), E(b, w)))); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = C(2); uint64_t d = C(0), s = C(1); copyMem(d, s, n); return NEXT; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      uint64_t n = C(2), p = C(0); Val b = A(1);
      if (n) { Obj* o = check(p, n, true, "memset"); raceAccess(o, p - o->base, n, true); o = writable(*S, findObj(*S, p)); if (!b.e) { memset(&o->d[p - o->base], (int)b.c, n); if (o->sy) for (uint64_t i = 0; i < n; i++) (*o->sy)[p - o->base + i].e = nullptr; } else for (uint64_t i = 0; i < n; i++) storeTo(o, p - o->base + i, 8, b); }
      return NEXT;
    }
    case Intrinsic::lifetime_start: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return ret(V(0));
    case Intrinsic::lifetime_end: {
      uint64_t p = C(1); Obj* o = findObj(*S, p);
      if (o && o->kind == O_Stack && !o->freed && p == o->base) {
        for (auto& m : S->mutexOwner) if (m.first >= p && m.first < p + o->size) fail("mutexdestroy", "a locked mutex goes out of scope");
        o = writable(*S, o); memset(o->d.data(), 0xCD, o->size); delete o->sy; o->sy = nullptr; }
      return NEXT;
    }
    case Intrinsic::umin: return mm(CmpInst::ICMP_ULT); case Intrinsic::umax: return mm(CmpInst::ICMP_UGT);
    case Intrinsic::smin: return mm(CmpInst::ICMP_SLT); case Intrinsic::smax: return mm(CmpInst::ICMP_SGT);
    case Intrinsic::abs: { Val a = A(0); Expr* e = E(a, w); return ret(VE(mkIte(mkBin(K_Slt, e, mkConst(w, 0)), mkBin(K_Sub, mkConst(w, 0), e), e))); }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: return ret(A(0));
    case Intrinsic::is_constant: return ret(V(0));
    case Intrinsic::objectsize: return ret(V(C(1) ? 0 : m64(w)));
    case Intrinsic::ctlz: { if (A(0).e) concVars(A(0).e); uint64_t x = C(0); unsigned n = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); i--) n++; return ret(V(n)); }
    case Intrinsic::cttz: { uint64_t x = C(0); unsigned n = 0; for (unsigned i = 0; i < w && !((x >> i) & 1); i++) n++; return ret(V(n)); }
    case Intrinsic::ctpop: return ret(V(__builtin_popcountll(C(0))));
    case Intrinsic::bswap: { Val a = A(0); if (!a.e) { uint64_t x = a.c, r = 0; for (unsigned i = 0; i < w / 8; i++) r = r << 8 | ((x >> (8 * i)) & 255); return ret(V(r)); } Expr* r = mkExtract(a.e, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(a.e, 8 * i, 8)); return ret(VE(r)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Expr *a = E(A(0), w), *b = E(A(1), w); uint64_t s = C(2) % w;
      if (s == 0) return ret(id == Intrinsic::fshl ? A(0) : A(1));
      unsigned sh = id == Intrinsic::fshl ? s : w - s;
      return ret(VE(mkConcat(mkExtract(a, 0, w - sh), mkExtract(b, w - sh, sh))));
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = k->flat->l[0].w; if (ww > 64) unsupported("wide overflow op");
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Kind kk = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K_Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K_Sub : K_Mul;
      unsigned dw = ww * 2; Expr *a = E(A(0), ww), *b = E(A(1), ww);
      Expr* wide = mkBin(kk, sg ? mkSExt(a, dw) : mkZExt(a, dw), sg ? mkSExt(b, dw) : mkZExt(b, dw));
      Expr* lo = mkExtract(wide, 0, ww); Expr* back = sg ? mkSExt(lo, dw) : mkZExt(lo, dw);
      fr->s[k->dst] = VE(lo); fr->s[k->dst + 1] = VE(mkNot(mkEq(wide, back))); return NEXT;
    }
    case Intrinsic::uadd_sat: { Expr *a = E(A(0), w), *b = E(A(1), w), *s = mkBin(K_Add, a, b); return ret(VE(mkIte(mkBin(K_Ult, s, a), mkConst(w, maskw(w)), s))); }
    case Intrinsic::usub_sat: { Expr *a = E(A(0), w), *b = E(A(1), w); return ret(VE(mkIte(mkBin(K_Ult, a, b), mkConst(w, 0), mkBin(K_Sub, a, b)))); }
    case Intrinsic::vastart: { uint64_t p = C(0); storeScalar(V(p), 32, V(48)); storeScalar(V(p + 4), 32, V(176)); storeScalar(V(p + 8), 64, V(fr->vaBase)); storeScalar(V(p + 16), 64, V(0)); return NEXT; }
    case Intrinsic::vacopy: { copyMem(C(0), C(1), 24); return NEXT; }
    case Intrinsic::vaend: return NEXT;
    case Intrinsic::stacksave: return ret(V(0));
    case Intrinsic::stackrestore: return NEXT;
    case Intrinsic::eh_typeid_for: { uint64_t a = C(0); return ret(V((a >> 12) & 0x7fffffff)); }
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail("trap", "trap");
    case Intrinsic::threadlocal_address: return ret(A(0));
    case Intrinsic::fabs: { Val a = A(0); return ret(w == 64 ? (a.e ? VE(mkBin(K_And, a.e, mkConst(64, ~0ull >> 1))) : V(a.c & (~0ull >> 1))) : V(C(0) & 0x7fffffff)); }
    case Intrinsic::floor: return ret(w == 64 ? V(UD(floor(D(C(0))))) : V(UF(floorf(F32(C(0))))));
    case Intrinsic::ceil: return ret(w == 64 ? V(UD(ceil(D(C(0))))) : V(UF(ceilf(F32(C(0))))));
    case Intrinsic::trunc: return ret(w == 64 ? V(UD(trunc(D(C(0))))) : V(UF(truncf(F32(C(0))))));
    case Intrinsic::fmuladd: return ret(w == 64 ? V(UD(D(C(0)) * D(C(1)) + D(C(2)))) : V(UF(F32(C(0)) * F32(C(1)) + F32(C(2)))));
    case Intrinsic::pow: return ret(V(UD(pow(D(C(0)), D(C(1))))));
    case Intrinsic::is_fpclass: {
      unsigned m = C(1); unsigned aw = AW(0); uint64_t x = C(0); double d = aw == 64 ? D(x) : F32(x); bool r = false; bool neg = signbit(d);
      if (isnan(d)) r = m & 3; else if (isinf(d)) r = m & (neg ? 4 : 512); else if (d == 0) r = m & (neg ? 32 : 64);
      else { bool sub = aw == 64 ? fpclassify(d) == FP_SUBNORMAL : fpclassify(F32(x)) == FP_SUBNORMAL; r = sub ? m & (neg ? 16 : 128) : m & (neg ? 8 : 256); }
      return ret(V(r));
    }
    case Intrinsic::copysign: return ret(V((C(0) & (m64(w) >> 1)) | (C(1) & (1ull << (w - 1)))));
    case Intrinsic::load_relative: { uint64_t p = C(0), o = C(1); Val v = loadScalar(V(p + o), 32); return ret(V(p + (int64_t)(int32_t)conc(v, 32))); }
    case Intrinsic::ptrmask: return ret(binop_(Instruction::And, 64, A(0), A(1)));
    default: unsupported(std::string("intrinsic ") + k->ci->fn->getName().str());
  }
}
