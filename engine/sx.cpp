// Symbolic executor for LLVM 18 bitcode. See DESIGN.md.
#include "sx.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <math.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <chrono>
#include <cstdarg>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace llvm;

// ================================================================ options
static std::string o_entry, o_outdir = ".", o_name = "h";
static std::map<std::string, uint64_t> o_params;
static double o_maxTime = 600; static uint64_t o_instLimit = 20000000; static int o_preempt = -1;
static bool o_races = false, o_verbose = false, o_spurious = false, o_hash = true, o_trace = false; static int o_atomics = 1;
static int o_samples = 4, o_maxViol = 2, o_jobs = 1; static uint64_t o_maxMem = 6ull << 30;
static uint64_t o_seed = 1;

static std::unique_ptr<Module> M; static const DataLayout* DL; static LLVMContext Ctx;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0;

// ================================================================ results
struct Viol { std::string kind, msg, loc, file; };
static std::vector<Viol> viols; static std::set<std::string> violKeys;
static std::set<std::string> g_reached; static std::map<std::string, uint64_t> g_unsupported;
static uint64_t st_paths = 0, st_forks = 0, st_insts = 0, st_states = 0, st_pruned = 0, st_asserts = 0, st_assertQ = 0, st_scheds = 0, st_trans = 0, st_assumeKill = 0, st_limit = 0, st_samples = 0, st_raceChecks = 0, st_maxCs = 0;
static bool st_timeout = false; static uint64_t nextStateId = 1;
static std::vector<std::string> sampleFiles;
static int partNo = 0;

static std::deque<State*> work;

// ================================================================ values
static inline Val V(uint64_t c) { return Val{c, nullptr}; }
static inline Val VE(Expr* e) { if (e->k == K_Const && e->w <= 64) return V((uint64_t)e->v); return Val{0, e}; }
static inline Expr* E(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ================================================================ types
static std::unordered_map<Type*, Flat*> flatCache;
static void flatten(Type* T, uint64_t off, std::vector<Leaf>& out) {
  if (auto* ST = dyn_cast<StructType>(T)) {
    auto* SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) flatten(ST->getElementType(i), off + SL->getElementOffset(i), out);
  } else if (auto* AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); i++) flatten(AT->getElementType(), off + i * es, out);
  } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    uint64_t es = DL->getTypeSizeInBits(VT->getElementType()) / 8;
    if (!es) es = 1;
    for (unsigned i = 0; i < VT->getNumElements(); i++) flatten(VT->getElementType(), off + i * es, out);
  } else {
    unsigned w = DL->getTypeSizeInBits(T);
    out.push_back({(uint32_t)off, (uint16_t)w});
  }
}
static const Flat* flat(Type* T) {
  auto it = flatCache.find(T);
  if (it != flatCache.end()) return it->second;
  auto* f = new Flat;
  if (!T->isVoidTy() && T->isSized()) { flatten(T, 0, f->l); f->size = DL->getTypeStoreSize(T); } else f->size = 0;
  return flatCache[T] = f;
}
static unsigned leafIndex(Type* T, ArrayRef<unsigned> idx) {
  unsigned n = 0;
  for (unsigned i : idx) {
    if (auto* ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) n += flat(ST->getElementType(k))->l.size(); T = ST->getElementType(i); }
    else if (auto* AT = dyn_cast<ArrayType>(T)) { n += i * flat(AT->getElementType())->l.size(); T = AT->getElementType(); }
    else abort();
  }
  return n;
}

// ================================================================ state
State::State(const State& o) {
  id = nextStateId++;
  for (int i = 0; i < NREG; i++) { reg[i] = o.reg[i]; for (auto* c : reg[i]) if (c) c->rc++; }
  th = o.th; cur = o.cur; cs = o.cs; model = o.model; eqs = o.eqs; mutexOwner = o.mutexOwner; syncVC = o.syncVC;
  time = o.time; preempts = o.preempts; switches = o.switches; for (int i = 0; i < 3; i++) live[i] = o.live[i];
  globNext = o.globNext; picks = o.picks; dec = o.dec; obs = o.obs; inputs = o.inputs; atexits = o.atexits; exiting = o.exiting; ctorIdx = o.ctorIdx;
  insts = o.insts; instLimit = o.instLimit; reached = o.reached; kv = o.kv; memHash = o.memHash; dirty = o.dirty;
  // the copy gets its own top frame of the running thread
  auto& st = th[cur].st;
  if (!st.empty()) st.back() = std::make_shared<Frame>(*st.back());
}
static void relObj(Obj* o) { if (--o->rc == 0) delete o; }
static void relChunk(Chunk* c) { if (--c->rc == 0) { for (int i = 0; i < 256; i++) if (c->o[i]) relObj(c->o[i]); delete c; } }
State::~State() { for (auto& r : reg) for (auto* c : r) if (c) relChunk(c); }

static Obj* findObj(State& S, uint64_t addr) {
  uint64_t r = addr >> 36;
  if (r == 0 || r >= (uint64_t)NREG) return nullptr;
  uint64_t unit = (addr & ((1ull << 36) - 1)) >> 12, ch = unit >> 8;
  auto& v = S.reg[r];
  if (ch >= v.size() || !v[ch]) return nullptr;
  Chunk* c = v[ch];
  unsigned i = unit & 255;
  if (c->back[i]) {
    uint64_t u = unit - c->back[i];
    c = v[u >> 8]; i = u & 255;
  }
  return c->o[i];
}
static Obj** slotFor(State& S, uint64_t addr) {  // writable chunk slot
  uint64_t r = addr >> 36, unit = (addr & ((1ull << 36) - 1)) >> 12, ch = unit >> 8;
  auto& v = S.reg[r];
  if (ch >= v.size()) v.resize(ch + 1);
  if (!v[ch]) { v[ch] = new Chunk; memset(v[ch]->o, 0, sizeof v[ch]->o); memset(v[ch]->back, 0, sizeof v[ch]->back); }
  else if (v[ch]->rc > 1) {
    Chunk* n = new Chunk(*v[ch]); n->rc = 1;
    for (auto* o : n->o) if (o) o->rc++;
    v[ch]->rc--; v[ch] = n;
  }
  return &v[ch]->o[unit & 255];
}
static Obj* writable(State& S, Obj* o) {
  Obj** sl = slotFor(S, o->base);
  if (*sl != o) abort();
  if (o->rc > 1) {
    Obj* n = new Obj(*o); n->rc = 1;
    if (o->sy) n->sy = new std::vector<SymB>(*o->sy);
    if (o->sh) n->sh = new Shadow(*o->sh);
    o->rc--; *sl = n; o = n;
  }
  if (o->hashed) { S.memHash -= o->hash; o->hashed = false; S.dirty.push_back(o->base); }
  return o;
}
// like writable, but only the race shadow changes (does not disturb the content hash)
static Obj* writableShadow(State& S, Obj* o) {
  Obj** sl = slotFor(S, o->base);
  if (o->rc > 1) {
    Obj* n = new Obj(*o); n->rc = 1;
    if (o->sy) n->sy = new std::vector<SymB>(*o->sy);
    if (o->sh) n->sh = new Shadow(*o->sh);
    o->rc--; *sl = n; o = n;
  }
  return o;
}
static Obj* allocAt(State& S, unsigned region, uint64_t& next, uint64_t size, ObjKind k, uint8_t fill) {
  uint64_t units = (size + 2048 + 4095) / 4096;
  uint64_t unit = next; next += units;
  Obj* o = new Obj;
  o->base = ((uint64_t)region << 36) | (unit << 12) | 1024; o->size = size; o->kind = k; o->d.assign(size, fill);
  Obj** sl = slotFor(S, o->base);
  if (*sl) relObj(*sl);
  *sl = o;
  if (units > 1) for (uint64_t i = 1; i < units; i++) {
    uint64_t a = ((uint64_t)region << 36) | ((unit + i) << 12);
    Obj** s2 = slotFor(S, a);
    if (*s2) { relObj(*s2); *s2 = nullptr; }
    S.reg[region][(unit + i) >> 8]->back[(unit + i) & 255] = (uint16_t)i;
  }
  // first unit may have been a continuation before (stack reuse)
  S.reg[region][unit >> 8]->back[unit & 255] = 0;
  S.dirty.push_back(o->base);
  return o;
}

// ================================================================ constants / globals
static std::unordered_map<const GlobalValue*, uint64_t> gaddr; static std::vector<Function*> fnByIdx; static std::unordered_map<const Function*, uint64_t> faddr;
static uint64_t fnAddr(const Function* F) {
  auto it = faddr.find(F);
  if (it != faddr.end()) return it->second;
  uint64_t a = (2ull << 36) + ((uint64_t)(fnByIdx.size() + 1) << 12);
  fnByIdx.push_back(const_cast<Function*>(F)); faddr[F] = a;
  return a;
}
static Function* fnAt(uint64_t a) {
  if ((a >> 36) != 2 || (a & 4095)) return nullptr;
  uint64_t i = ((a & ((1ull << 36) - 1)) >> 12) - 1;
  return i < fnByIdx.size() ? fnByIdx[i] : nullptr;
}
static uint64_t gvAddr(const GlobalValue* G) {
  if (auto* A = dyn_cast<GlobalAlias>(G)) G = cast<GlobalValue>(A->getAliasee()->stripPointerCasts());
  if (auto* F = dyn_cast<Function>(G)) return fnAddr(F);
  auto it = gaddr.find(G);
  if (it == gaddr.end()) { errs() << "no address for global " << G->getName() << "\n"; abort(); }
  return it->second;
}
static void constVals(const Constant* C, std::vector<Val>& out);
static u128 constScalar(const Constant* C) {
  if (auto* CI = dyn_cast<ConstantInt>(C)) { const APInt& a = CI->getValue(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v & maskw(a.getBitWidth()); }
  if (auto* CF = dyn_cast<ConstantFP>(C)) { APInt a = CF->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto* G = dyn_cast<GlobalValue>(C)) return gvAddr(G);
  if (auto* D = dyn_cast<DSOLocalEquivalent>(C)) return gvAddr(D->getGlobalValue());
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    unsigned w = DL->getTypeSizeInBits(CE->getType());
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* G = cast<GEPOperator>(CE); APInt off(64, 0);
        if (!G->accumulateConstantOffset(*DL, off)) abort();
        return (uint64_t)(constScalar(cast<Constant>(G->getPointerOperand())) + off.getZExtValue());
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
        return constScalar(CE->getOperand(0)) & maskw(w);
      case Instruction::Add: return (constScalar(CE->getOperand(0)) + constScalar(CE->getOperand(1))) & maskw(w);
      case Instruction::Sub: return (constScalar(CE->getOperand(0)) - constScalar(CE->getOperand(1))) & maskw(w);
      default: errs() << "constexpr? " << *CE << "\n"; abort();
    }
  }
  errs() << "const? " << *C << "\n"; abort();
}
static void constVals(const Constant* C, std::vector<Val>& out) {
  Type* T = C->getType();
  if (T->isAggregateType() || T->isVectorTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto& l : flat(T)->l) out.push_back(l.w > 64 ? Val{0, mkConst(l.w, 0)} : V(0)); return; }
    for (unsigned i = 0; i < n; i++) constVals(C->getAggregateElement(i), out);
    return;
  }
  u128 v = constScalar(C); unsigned w = DL->getTypeSizeInBits(T);
  if (w > 64) out.push_back(Val{0, mkConst(w, v)}); else out.push_back(V((uint64_t)v));
}
static void storeConst(Obj* o, uint64_t off, const Constant* C) {
  Type* T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { auto s = CD->getRawDataValues(); memcpy(&o->d[off], s.data(), s.size()); return; }
  if (auto* ST = dyn_cast<StructType>(T)) { auto* SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) storeConst(o, off + SL->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto* AT = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(AT->getElementType()); for (uint64_t i = 0; i < AT->getNumElements(); i++) storeConst(o, off + i * es, C->getAggregateElement(i)); return; }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) { uint64_t es = DL->getTypeAllocSize(VT->getElementType()); for (uint64_t i = 0; i < VT->getNumElements(); i++) storeConst(o, off + i * es, C->getAggregateElement(i)); return; }
  u128 v = constScalar(C); memcpy(&o->d[off], &v, DL->getTypeStoreSize(T));
}

// ================================================================ decode
static std::unordered_map<Function*, KFunc*> kfs; static std::vector<KFunc*> kfList;
static std::vector<Val> cpool; static std::unordered_map<const Constant*, int> cidx;
static int builtinId(const std::string& n);

static int32_t constOp(const Constant* C) {
  auto it = cidx.find(C);
  if (it != cidx.end()) return -(it->second + 1);
  std::vector<Val> v; constVals(C, v);
  int i = cpool.size(); for (auto& x : v) cpool.push_back(x);
  cidx[C] = i;
  return -(i + 1);
}

static KFunc* getKF(Function* F) {
  auto it = kfs.find(F);
  if (it != kfs.end()) return it->second;
  auto* K = new KFunc; kfs[F] = K; K->F = F; K->name = F->getName().str(); K->vararg = F->isVarArg(); K->id = kfList.size(); kfList.push_back(K);
  auto& slotOf = K->slotOf;
  unsigned n = 0;
  for (auto& A : F->args()) { slotOf[&A] = n; K->argSlot.push_back(n); n += flat(A.getType())->l.size(); }
  std::unordered_map<const BasicBlock*, int> bidx; int bi = 0;
  for (auto& B : *F) { bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) { slotOf[&I] = n; n += flat(I.getType())->l.size(); } }
  K->nslots = n;
  auto op = [&](Value* v) -> int32_t {
    if (auto* C = dyn_cast<Constant>(v)) return constOp(C);
    auto i = slotOf.find(v);
    if (i == slotOf.end()) return 0;  // metadata, basic block
    return i->second;
  };
  auto mkEdge = [&](BasicBlock* from, BasicBlock* to) {
    Edge e; e.target = bidx[to];
    for (auto& P : to->phis()) {
      int n = flat(P.getType())->l.size(); int32_t s = op(P.getIncomingValueForBlock(from)), d = slotOf[&P];
      for (int i = 0; i < n; i++) e.moves.push_back({d + i, s >= 0 ? s + i : s - i});
    }
    return e;
  };
  for (auto& B : *F) {
    K->blockStart.push_back(K->code.size());
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        auto id = II->getIntrinsicID();
        if (id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch) continue;
      }
      KInst k{}; k.I = &I; k.op = I.getOpcode(); k.dst = -1;
      if (!I.getType()->isVoidTy()) { k.dst = slotOf[&I]; k.flat = flat(I.getType()); k.ndst = k.flat->l.size(); k.w = k.ndst ? k.flat->l[0].w : 0; }
      switch (I.getOpcode()) {
        case Instruction::ICmp: { auto* C = cast<ICmpInst>(&I); k.pred = C->getPredicate(); k.a = op(C->getOperand(0)); k.b = op(C->getOperand(1)); k.w = flat(C->getOperand(0)->getType())->l[0].w; break; }
        case Instruction::FCmp: { auto* C = cast<FCmpInst>(&I); k.pred = C->getPredicate(); k.a = op(C->getOperand(0)); k.b = op(C->getOperand(1)); k.w = flat(C->getOperand(0)->getType())->l[0].w; break; }
        case Instruction::Load: { auto* L = cast<LoadInst>(&I); k.a = op(L->getPointerOperand()); k.isAtomic = L->isAtomic(); k.seqcst = L->getOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
        case Instruction::Store: { auto* L = cast<StoreInst>(&I); k.a = op(L->getPointerOperand()); k.b = op(L->getValueOperand()); k.flat = flat(L->getValueOperand()->getType()); k.isAtomic = L->isAtomic(); k.seqcst = L->getOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
        case Instruction::AtomicRMW: { auto* A = cast<AtomicRMWInst>(&I); k.a = op(A->getPointerOperand()); k.b = op(A->getValOperand()); k.pred = A->getOperation(); k.isAtomic = true; k.seqcst = A->getOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
        case Instruction::AtomicCmpXchg: { auto* A = cast<AtomicCmpXchgInst>(&I); k.a = op(A->getPointerOperand()); k.b = op(A->getCompareOperand()); k.c = op(A->getNewValOperand()); k.isAtomic = true; k.seqcst = A->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
        case Instruction::GetElementPtr: {
          auto* G = cast<GetElementPtrInst>(&I); k.a = op(G->getPointerOperand()); k.gi = new GepInfo; k.gi->off = 0;
          for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            Value* ix = gi.getOperand();
            if (StructType* ST = gi.getStructTypeOrNull()) { k.gi->off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* CI = dyn_cast<ConstantInt>(ix)) k.gi->off += CI->getSExtValue() * (int64_t)es;
            else k.gi->terms.push_back({op(ix), {es, (unsigned)DL->getTypeSizeInBits(ix->getType())}});
          }
          break;
        }
        case Instruction::Alloca: { auto* A = cast<AllocaInst>(&I); k.a = op(A->getArraySize()); k.w2 = 0; k.o[0] = DL->getTypeAllocSize(A->getAllocatedType()); break; }
        case Instruction::Br: {
          auto* Br = cast<BranchInst>(&I); k.edges = new std::vector<Edge>;
          if (Br->isConditional()) k.a = op(Br->getCondition());
          for (unsigned si = 0; si < Br->getNumSuccessors(); si++) k.edges->push_back(mkEdge(&B, Br->getSuccessor(si)));
          break;
        }
        case Instruction::Switch: {
          auto* Sw = cast<SwitchInst>(&I); k.a = op(Sw->getCondition()); k.w = flat(Sw->getCondition()->getType())->l[0].w; k.edges = new std::vector<Edge>; k.cases = new std::vector<std::pair<u128, int>>;
          k.edges->push_back(mkEdge(&B, Sw->getDefaultDest()));
          std::unordered_map<BasicBlock*, int> em; em[Sw->getDefaultDest()] = 0;
          for (auto& c : Sw->cases()) {
            auto f = em.find(c.getCaseSuccessor()); int ei;
            if (f == em.end()) { ei = k.edges->size(); k.edges->push_back(mkEdge(&B, c.getCaseSuccessor())); em[c.getCaseSuccessor()] = ei; } else ei = f->second;
            k.cases->push_back({constScalar(c.getCaseValue()), ei});
          }
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto* C = cast<CallBase>(&I); auto* ci = k.ci = new CallInfo;
          if (C->isInlineAsm()) { ci->builtin = -2; }
          else {
            auto* F2 = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
            if (auto* GA = dyn_cast<GlobalAlias>(C->getCalledOperand()->stripPointerCasts())) F2 = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
            ci->fn = F2;
            if (F2 && F2->isIntrinsic()) ci->intrin = F2->getIntrinsicID();
            if (!F2) ci->calleeOp = op(C->getCalledOperand());
          }
          for (unsigned i = 0; i < C->arg_size(); i++) {
            Value* v = C->getArgOperand(i);
            if (v->getType()->isMetadataTy()) continue;
            auto* fl = flat(v->getType()); Arg a; a.op = op(v); a.n = fl->l.size(); a.w = a.n ? fl->l[0].w : 0; a.byval = 0;
            if (C->isByValArgument(i)) a.byval = DL->getTypeAllocSize(C->getParamByValType(i));
            ci->args.push_back(a);
          }
          ci->nfixed = C->getFunctionType()->getNumParams();
          if (auto* Inv = dyn_cast<InvokeInst>(C)) {
            k.edges = new std::vector<Edge>; k.edges->push_back(mkEdge(&B, Inv->getNormalDest())); k.edges->push_back(mkEdge(&B, Inv->getUnwindDest()));
          }
          break;
        }
        case Instruction::ExtractValue: { auto* X = cast<ExtractValueInst>(&I); int32_t b = op(X->getAggregateOperand()); unsigned li = leafIndex(X->getAggregateOperand()->getType(), X->getIndices()); k.a = b >= 0 ? b + (int)li : b - (int)li; break; }
        case Instruction::InsertValue: { auto* X = cast<InsertValueInst>(&I); k.a = op(X->getAggregateOperand()); k.b = op(X->getInsertedValueOperand()); k.o[0] = leafIndex(X->getType(), X->getIndices()); k.o[1] = flat(X->getInsertedValueOperand()->getType())->l.size(); break; }
        case Instruction::Ret: { auto* R = cast<ReturnInst>(&I); if (R->getReturnValue()) { k.a = op(R->getReturnValue()); k.flat = flat(R->getReturnValue()->getType()); k.ndst = k.flat->l.size(); } break; }
        case Instruction::Resume: k.a = op(I.getOperand(0)); break;
        case Instruction::ShuffleVector: k.a = op(I.getOperand(0)); k.b = op(I.getOperand(1)); break;
        default:
          if (I.getNumOperands() > 0) k.a = op(I.getOperand(0));
          if (I.getNumOperands() > 1) k.b = op(I.getOperand(1));
          if (I.getNumOperands() > 2) k.c = op(I.getOperand(2));
          if (I.getNumOperands() > 0 && !isa<LandingPadInst>(I)) { auto* fl = flat(I.getOperand(0)->getType()); if (fl->l.size()) k.w2 = fl->l[0].w; }
      }
      K->code.push_back(std::move(k));
    }
  }
  return K;
}

// ================================================================ liveness (for canonical hashing)
static const std::vector<uint32_t>& liveAt(KFunc* K, int pc, bool afterCall) {
  int key = pc * 2 + afterCall;
  auto it = K->live.find(key);
  if (it != K->live.end()) return it->second;
  static std::unordered_map<KFunc*, std::vector<std::vector<bool>>> blockOut;
  auto& bo = blockOut[K];
  Function* F = K->F;
  unsigned nb = K->blockStart.size();
  auto uses = [&](Instruction& I, std::vector<bool>& L) {
    for (Value* v : I.operands()) { auto f = K->slotOf.find(v); if (f != K->slotOf.end()) for (unsigned i = 0; i < flat(v->getType())->l.size(); i++) L[f->second + i] = true; }
  };
  auto def = [&](Instruction& I, std::vector<bool>& L) { auto f = K->slotOf.find(&I); if (f != K->slotOf.end()) for (unsigned i = 0; i < flat(I.getType())->l.size(); i++) L[f->second + i] = false; };
  std::vector<BasicBlock*> bbs; std::unordered_map<BasicBlock*, int> bidx; for (auto& B : *F) { bidx[&B] = bbs.size(); bbs.push_back(&B); }
  auto blockIn = [&](int b, std::vector<bool> L) { for (auto i = bbs[b]->rbegin(); i != bbs[b]->rend(); ++i) { def(*i, L); if (!isa<PHINode>(*i)) uses(*i, L); } return L; };
  if (bo.empty()) {
    bo.assign(nb, std::vector<bool>(K->nslots, false));
    std::vector<std::vector<bool>> in(nb, std::vector<bool>(K->nslots, false));
    bool ch = true;
    while (ch) {
      ch = false;
      for (int b = nb - 1; b >= 0; b--) {
        std::vector<bool> L(K->nslots, false);
        for (auto* s : successors(bbs[b])) {
          auto& si = in[bidx[s]];
          for (unsigned i = 0; i < K->nslots; i++) if (si[i]) L[i] = true;
          for (auto& P : s->phis()) { Value* v = P.getIncomingValueForBlock(bbs[b]); auto f = K->slotOf.find(v); if (f != K->slotOf.end()) for (unsigned i = 0; i < flat(v->getType())->l.size(); i++) L[f->second + i] = true; }
        }
        if (L != bo[b]) { bo[b] = L; ch = true; }
        auto ni = blockIn(b, L);
        if (ni != in[b]) { in[b] = ni; ch = true; }
      }
    }
  }
  int b = std::upper_bound(K->blockStart.begin(), K->blockStart.end(), pc) - K->blockStart.begin() - 1;
  std::vector<bool> L = bo[b];
  Instruction* T = K->code[pc].I;
  for (auto i = bbs[b]->rbegin(); i != bbs[b]->rend(); ++i) {
    if (&*i == T) { def(*i, L); if (!afterCall) uses(*i, L); break; }
    def(*i, L); if (!isa<PHINode>(*i)) uses(*i, L);
  }
  if (afterCall && isa<InvokeInst>(T)) uses(*T, L);  // conservative
  std::vector<uint32_t> r; for (unsigned i = 0; i < K->nslots; i++) if (L[i]) r.push_back(i);
  return K->live[key] = r;
}

static inline uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static uint64_t hval(uint64_t h, const Val& v) { return v.e ? hmix(h, 0xE000000000000000ull + v.e->id) : hmix(h, v.c); }
static uint64_t hashState(State& S) {
  for (uint64_t b : S.dirty) {
    Obj* o = findObj(S, b);
    if (!o || o->freed || o->hashed || o->base != b) continue;
    uint64_t h = hmix(0x1234567, o->base); h = hmix(h, o->size);
    const uint8_t* p = o->d.data(); size_t n = o->d.size(), i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t x; memcpy(&x, p + i, 8); h = hmix(h, x); }
    for (; i < n; i++) h = hmix(h, p[i]);
    if (o->sy) for (size_t j = 0; j < o->sy->size(); j++) if ((*o->sy)[j].e) h = hmix(hmix(h, j), (uint64_t)(*o->sy)[j].e->id * 17 + (*o->sy)[j].idx);
    // writable chunk not needed: the object may be shared, but sharers have the same content; only this state's sum differs
    if (o->rc > 1) { Obj** sl = slotFor(S, b); Obj* nn = new Obj(*o); nn->rc = 1; if (o->sy) nn->sy = new std::vector<SymB>(*o->sy); if (o->sh) nn->sh = new Shadow(*o->sh); o->rc--; *sl = nn; o = nn; }
    o->hash = h; o->hashed = true; S.memHash += h;
  }
  S.dirty.clear();
  uint64_t h = S.memHash;
  for (auto& T : S.th) {
    h = hmix(h, T.done); h = hmix(h, T.pend); h = hmix(h, T.pa); h = hmix(h, T.pm); h = hmix(h, T.signalled | T.timed << 1 | T.timeoutFired << 2 | T.inWait << 3); h = hmix(h, T.deadline);
    h = hmix(h, T.heapNext); h = hmix(h, T.stackNext);
    for (auto& kv : T.varCount) h = hmix(h, kv.second);
    for (auto& x : T.inflight) h = hmix(h, x.obj);
    for (auto& x : T.caught) h = hmix(h, x.obj);
    for (size_t i = 0; i < T.st.size(); i++) {
      Frame& f = *T.st[i]; bool top = i + 1 == T.st.size();
      h = hmix(h, f.f->id * 1000003ull + f.pc);
      for (uint32_t s : liveAt(f.f, f.pc, !top)) h = hval(h, f.s[s]);
    }
    if (o_races) for (int i = 0; i < MAXT; i++) h = hmix(h, 0);
  }
  for (auto& m : S.mutexOwner) h = hmix(hmix(h, m.first), m.second);
  h = hmix(h, S.time);
  uint64_t ch = 0; for (auto* c : S.cs) ch += hmix(7, c->id);
  h = hmix(h, ch);
  for (auto& k : S.kv) h = hmix(hmix(h, k.first), k.second);
  if (o_preempt >= 0) { h = hmix(h, S.preempts); h = hmix(h, S.cur); }
  return h;
}

// ================================================================ executor
enum R { NEXT, JUMPED, RETRY, END };
struct PathEnd {};
static State* S; static Frame* fr; static KInst* ki;

static std::string locOf(Instruction* I) {
  std::string r;
  if (!I) return r;
  r = demangle(I->getFunction()->getName().str());
  if (r.size() > 120) r = r.substr(0, 120) + "...";
  if (auto& d = I->getDebugLoc()) { r += " at "; r += d->getFilename().str(); r += ":" + std::to_string(d.getLine()); if (auto* ia = d->getInlinedAt()) { r += " (inlined at " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()) + ")"; } }
  return r;
}
static std::string backtrace(State& st) {
  std::string r; int n = 0;
  auto& t = st.th[st.cur];
  for (int i = (int)t.st.size() - 1; i >= 0 && n < 12; i--, n++) { Frame& f = *t.st[i]; if (f.pc < (int)f.f->code.size()) r += (n ? " <- " : "") + locOf(f.f->code[f.pc].I); }
  return r;
}
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static void writeCase(const std::string& path, State& st, const Model& m, const std::string& kind, const std::string& msg, const std::string& loc) {
  std::ofstream f(path);
  f << "harness " << o_entry << "\n";
  f << "param sx.atomics " << o_atomics << "\n";
  if (o_spurious) f << "param sx.spurious 1\n";
  for (auto& p : o_params) f << "param " << p.first << " " << p.second << "\n";
  for (auto& in : st.inputs) f << "in " << in.first << " " << (uint64_t)evalFast(in.second, m) << "\n";
  f << "sched";
  for (auto& d : st.dec) f << " " << d;
  f << "\n";
  for (auto& o : st.obs) f << "obs " << (uint64_t)(o.e ? evalFast(o.e, m) : o.c) << "\n";
  f << "kind " << kind << "\nmsg " << msg << "\nloc " << loc << "\n";
}

static bool report(State& st, const ModelP& m, const std::string& kind, const std::string& msg) {
  std::string loc = backtrace(st);
  std::string key = kind + "|" + msg + "|" + (kind == "assert" || kind == "deadlock" ? "" : loc.substr(0, loc.find(" <- ")));
  if (violKeys.count(key)) return false;
  if (violKeys.size() >= 40) return false;
  violKeys.insert(key);
  std::string file = o_outdir + "/" + o_name + ".viol" + std::to_string(partNo) + "_" + std::to_string(viols.size()) + ".case";
  writeCase(file, st, *m, kind, msg, loc);
  viols.push_back({kind, msg, loc, file});
  if (o_verbose) fprintf(stderr, "VIOL %s: %s\n   %s\n   %s\n", kind.c_str(), msg.c_str(), loc.c_str(), file.c_str());
  return true;
}
[[noreturn]] static void endPath() { throw PathEnd(); }
[[noreturn]] static void fail(const std::string& kind, const std::string& msg) { report(*S, S->model, kind, msg); endPath(); }
[[noreturn]] static void unsupported(const std::string& what) { g_unsupported[what]++; if (o_verbose && g_unsupported[what] == 1) fprintf(stderr, "UNSUPPORTED %s at %s\n", what.c_str(), backtrace(*S).c_str()); endPath(); }

static void addEq(State& st, Expr* e) {
  if (!st.eqs) st.eqs = std::make_shared<std::unordered_map<Expr*, Expr*>>();
  else if (st.eqs.use_count() > 1) st.eqs = std::make_shared<std::unordered_map<Expr*, Expr*>>(*st.eqs);
  auto& q = *st.eqs;
  if (e->k == K_Eq && e->b->isConst()) q[e->a] = e->b;
  q[e] = mkTrue();
  Expr* n = mkNot(e);
  if (!n->isConst()) q[n] = mkFalse();
}
static void addC(State& st, Expr* e) {
  if (e->isConst()) return;
  if (e->k == K_And && e->w == 1) { addC(st, e->a); addC(st, e->b); return; }
  st.cs.push_back(e); addEq(st, e);
  if (st.cs.size() > st_maxCs) st_maxCs = st.cs.size();
}
static std::unordered_map<Instruction*, uint64_t> forkAt; static std::unordered_map<Instruction*, double> timeAt;
static State* forkState() { st_forks++; if (o_verbose) forkAt[ki->I]++; State* T = new State(*S); return T; }

// Decide a width-1 condition in the current state, forking if both outcomes are possible.
static bool decide(Expr* c) {
  if (c->isConst()) return c->v;
  if (S->eqs) c = substFast(c, *S->eqs);
  if (c->isConst()) return c->v;
  bool v = evalFast(c, *S->model);
  Expr* here = v ? c : mkNot(c); Expr* other = v ? mkNot(c) : c;
  ModelP m2; double tq = o_verbose ? now() : 0; int r = solverCheck(S->cs, other, S->model, &m2); if (o_verbose) timeAt[ki->I] += now() - tq;
  if (r == 1) {
    State* T = forkState(); addC(*T, other); T->model = m2; work.push_back(T);
    addC(*S, here);
  } else if (r == 0) addEq(*S, here);
  else { g_unsupported["solver unknown"]++; addC(*S, here); }
  return v;
}
static uint64_t conc(const Val& v, unsigned w) {
  if (!v.e) return v.c;
  Expr* e = S->eqs ? substFast(v.e, *S->eqs) : v.e;
  if (e->isConst()) return (uint64_t)e->v;
  uint64_t x = (uint64_t)evalFast(e, *S->model);
  decide(mkEq(e, mkConst(e->w, x)));
  return x;
}
// One path per value of the few input bytes the value depends on.
static Val concSmall(const Val& v, unsigned w) {
  if (!v.e) return v;
  Expr* e = S->eqs ? substFast(v.e, *S->eqs) : v.e;
  if (e->isConst()) return V((uint64_t)e->v);
  if (e->hi - e->lo <= 2) return V(conc(v, w));
  if (e->vars->v.size() > 3) return VE(e);
  for (uint32_t x : e->vars->v) if (g_vars[x].w > 8) return VE(e);
  for (uint32_t x : e->vars->v) conc(VE(g_vars[x].e), g_vars[x].w);
  return V((uint64_t)evalFast(e, *S->model));
}
static void concVars(Expr* e) {
  if (S->eqs) e = substFast(e, *S->eqs);
  if (e->isConst() || e->vars->v.size() > 3) return;
  for (uint32_t x : e->vars->v) if (g_vars[x].w > 8) return;
  for (uint32_t x : e->vars->v) conc(VE(g_vars[x].e), g_vars[x].w);
}
static Val simp(const Val& v) { if (!v.e || !S->eqs) return v; return VE(substFast(v.e, *S->eqs)); }

// ---------------------------------------------------------------- memory access
static std::string objDesc(Obj* o) { static const char* k[] = {"global", "stack", "malloc", "new", "new[]", "exception"}; return std::string(k[o->kind]) + " object of " + std::to_string(o->size) + " bytes"; }
static bool multi() { return S->th.size() > 1; }
static void raceAccess(Obj* o, uint64_t off, uint64_t n, bool wr) {
  if (!o_races || !multi() || (o->kind == O_Global && o->ro)) return;
  st_raceChecks++;
  int t = S->cur; Thread& T = S->th[t];
  uint32_t cur = T.vc[t];
  // fast check
  bool need = !o->sh;
  if (o->sh) for (uint64_t i = 0; i < n && !need; i++) { auto& b = o->sh->b[off + i]; if (wr ? b.w != ((uint32_t)t << 24 | cur) : b.r[t] != cur) need = true; }
  if (!need) return;
  o = writableShadow(*S, o);
  if (!o->sh) { o->sh = new Shadow; o->sh->b.resize(o->size); memset((void*)o->sh->b.data(), 0, o->size * sizeof(Shadow::B)); }
  for (uint64_t i = 0; i < n; i++) {
    auto& b = o->sh->b[off + i];
    uint32_t wt = b.w >> 24, wc = b.w & 0xFFFFFF;
    if (b.w && (int)wt != t && wc > T.vc[wt]) fail("race", std::string("data race: ") + (wr ? "write" : "read") + " of " + objDesc(o) + " +" + std::to_string(off + i) + " by thread " + std::to_string(t) + " conflicts with an unordered write by thread " + std::to_string(wt));
    if (wr) {
      for (int u = 0; u < MAXT; u++) if (u != t && b.r[u] > T.vc[u]) fail("race", "data race: write of " + objDesc(o) + " +" + std::to_string(off + i) + " by thread " + std::to_string(t) + " conflicts with an unordered read by thread " + std::to_string(u));
      b.w = (uint32_t)t << 24 | cur;
    } else b.r[t] = cur;
  }
}
static Obj* check(uint64_t addr, uint64_t n, bool wr, const char* what) {
  Obj* o = findObj(*S, addr);
  if (!o) {
    if (addr < 4096) fail("null", std::string(what) + " through a null pointer (address " + std::to_string(addr) + ")");
    fail("wild", std::string(what) + " through an invalid pointer");
  }
  if (o->freed) fail("uaf", std::string(what) + " of freed memory (" + objDesc(o) + ")");
  if (addr < o->base || addr + n > o->base + o->size || addr + n < addr) fail("oob", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)(addr - o->base)) + " of " + objDesc(o));
  if (wr && o->ro) fail("ro", std::string(what) + " to read-only memory");
  return o;
}
static Val loadFrom(Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool sy = false;
  if (o->sy) for (unsigned i = 0; i < n; i++) if ((*o->sy)[off + i].e) { sy = true; break; }
  if (!sy) {
    if (w <= 64) { uint64_t x = 0; memcpy(&x, &o->d[off], n); return V(x & m64(w)); }
    u128 x = 0; memcpy(&x, &o->d[off], n); return Val{0, mkConst(w, x)};
  }
  auto& y = *o->sy;
  SymB f = y[off];
  if (f.e && f.idx == 0 && f.e->w == n * 8) {
    bool all = true; for (unsigned i = 1; i < n; i++) if (y[off + i].e != f.e || y[off + i].idx != i) { all = false; break; }
    if (all) return VE(w == f.e->w ? f.e : mkExtract(f.e, 0, w));
  }
  Expr* r = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    Expr* b = y[off + i].e ? mkExtract(y[off + i].e, y[off + i].idx * 8, 8) : mkConst(8, o->d[off + i]);
    r = r ? mkConcat(r, b) : b;
  }
  if (r->w != w) r = mkExtract(r, 0, w);
  if (w > 64) return Val{0, r};
  return VE(r);
}
static void storeTo(Obj* o, uint64_t off, unsigned w, const Val& v) {  // o writable
  unsigned n = (w + 7) / 8;
  if (!v.e || (v.e->isConst())) {
    u128 x = v.e ? v.e->v : v.c; memcpy(&o->d[off], &x, n);
    if (o->sy) for (unsigned i = 0; i < n; i++) (*o->sy)[off + i].e = nullptr;
    return;
  }
  if (!o->sy) o->sy = new std::vector<SymB>(o->size, SymB{nullptr, 0});
  Expr* e = w % 8 ? mkZExt(v.e, n * 8) : v.e;
  for (unsigned i = 0; i < n; i++) {
    // store single-byte pieces directly where they simplify
    (*o->sy)[off + i] = SymB{e, i}; o->d[off + i] = 0;
  }
}
// A table lookup indexed by one variable often just returns that variable.
static Val asVar(const Val& v) {
  if (!v.e || v.e->k == K_Var || v.e->vars->v.size() != 1) return v;
  Expr* x = g_vars[v.e->vars->v[0]].e;
  if (x->w != v.e->w) return v;
  if (solverCheck(S->cs, mkNot(mkEq(v.e, x)), S->model, nullptr) == 0) return Val{0, x};
  return v;
}
// Sign extension of a value known to be non-negative is zero extension (keeps later arithmetic narrow).
static Expr* sextVal(Expr* e, unsigned w) {
  if (e->isConst() || e->vars->v.size() != 1) return mkSExt(e, w);
  Expr* sb = mkExtract(e, e->w - 1, 1);
  if (S->eqs) sb = substFast(sb, *S->eqs);
  if (sb->isConst()) return sb->v ? mkSExt(e, w) : mkZExt(e, w);
  if (solverCheck(S->cs, sb, S->model, nullptr) == 0) { addEq(*S, mkNot(sb)); return mkZExt(e, w); }
  return mkSExt(e, w);
}
static Val byteAt(Obj* o, uint64_t off) { return loadFrom(o, off, 8); }
static Val loadScalar(Val p, unsigned w, const char* what = "load") {
  unsigned n = (w + 7) / 8;
  p = simp(p);
  if (!p.e) { Obj* o = check(p.c, n, false, what); raceAccess(o, p.c - o->base, n, false); o = findObj(*S, p.c); return loadFrom(o, p.c - o->base, w); }
  uint64_t a = (uint64_t)evalFast(p.e, *S->model);
  Obj* o = findObj(*S, a);
  if (!o || o->freed || a < o->base || a + n > o->base + o->size || o->size > 4096) { uint64_t x = conc(p, 64); o = check(x, n, false, what); return loadFrom(o, x - o->base, w); }
  // all values inside this object?
  Expr* rel = mkBin(K_Sub, p.e, mkConst(64, o->base));
  Expr* inb = mkBin(K_Ule, rel, mkConst(64, o->size - n));
  decide(inb);  // true under the model; the other side re-executes
  raceAccess(o, 0, o->size, false); o = findObj(*S, a);
  // possible offsets: enumerate by alignment of known structure
  std::vector<uint64_t> offs;
  // find the feasible range cheaply by bisection on bounds
  uint64_t lo = 0, hi = o->size - n, cur = a - o->base;
  uint64_t l = 0, h = cur;
  while (l < h) { uint64_t mid = (l + h) / 2; if (solverCheck(S->cs, mkBin(K_Ule, rel, mkConst(64, mid)), S->model, nullptr) != 0) h = mid; else l = mid + 1; }
  lo = l; l = cur; h = hi;
  while (l < h) { uint64_t mid = (l + h + 1) / 2; if (solverCheck(S->cs, mkBin(K_Ule, mkConst(64, mid), rel), S->model, nullptr) != 0) l = mid; else h = mid - 1; }
  hi = l;
  uint64_t step = 1;
  if (rel->k == K_Concat && rel->b->isConst()) { step = 1ull << std::min(12u, (unsigned)rel->b->w); lo = (lo - (uint64_t)rel->b->v + step - 1) / step * step + (uint64_t)rel->b->v; }
  else if (rel->k == K_Add && rel->b->isConst() && rel->a->k == K_Concat && rel->a->b->isConst() && rel->a->b->v == 0) { step = 1ull << std::min(12u, (unsigned)rel->a->b->w); uint64_t r0 = (uint64_t)rel->b->v % step; while (lo % step != r0) lo++; }
  else if (rel->k == K_ZExt && rel->a->k == K_Concat && rel->a->b->isConst() && rel->a->b->v == 0) { step = 1ull << std::min(12u, (unsigned)rel->a->b->w); while (lo % step) lo++; }
  if ((hi - lo) / step > 600) { uint64_t x = conc(p, 64); return loadFrom(o, x - o->base, w); }
  for (uint64_t x = lo; x <= hi; x += step) offs.push_back(x);
  std::function<Expr*(size_t, size_t)> mux = [&](size_t i, size_t j) -> Expr* {
    if (j - i == 1) return E(loadFrom(o, offs[i], w), w);
    size_t m = (i + j) / 2;
    Expr *x = mux(i, m), *y = mux(m, j);
    return mkIte(mkBin(K_Ult, rel, mkConst(64, offs[m])), x, y);
  };
  return asVar(VE(mux(0, offs.size())));
}
static void storeScalar(Val p, unsigned w, const Val& v, const char* what = "store") {
  uint64_t a = conc(p, 64); unsigned n = (w + 7) / 8;
  Obj* o = check(a, n, true, what);
  if (o_races && multi() && w == 64 && !v.e) {
    // A destructor stores the vtable pointer that is already there: as in ThreadSanitizer, no race.
    Val cur = loadFrom(o, a - o->base, 64); Obj* t;
    if (!cur.e && cur.c == v.c && v.c && (t = findObj(*S, v.c)) && t->kind == O_Global && t->ro) return;
  }
  raceAccess(o, a - o->base, n, true); o = findObj(*S, a);
  o = writable(*S, o);
  storeTo(o, a - o->base, w, v);
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj* so = check(s, n, false, "memcpy source"); raceAccess(so, s - so->base, n, false);
  Obj* dob = check(d, n, true, "memcpy destination"); raceAccess(dob, d - dob->base, n, true);
  dob = writable(*S, findObj(*S, d)); so = findObj(*S, s);
  uint64_t a = d - dob->base, b = s - so->base;
  memmove(&dob->d[a], &so->d[b], n);
  if (so->sy) {
    if (!dob->sy) dob->sy = new std::vector<SymB>(dob->size, SymB{nullptr, 0});
    memmove((void*)&(*dob->sy)[a], (void*)&(*so->sy)[b], n * sizeof(SymB));
  } else if (dob->sy) for (uint64_t i = 0; i < n; i++) (*dob->sy)[a + i].e = nullptr;
}
static std::string readStr(uint64_t a) {
  std::string r;
  for (;;) { Obj* o = check(a, 1, false, "string read"); Val v = byteAt(o, a - o->base); if (v.e) { v = V(conc(v, 8)); } if (!v.c) return r; r += (char)v.c; a++; if (r.size() > 100000) unsupported("string too long"); }
}
static uint64_t heapAlloc(uint64_t n, ObjKind k) {
  Thread& T = S->th[S->cur];
  Obj* o = allocAt(*S, regHeap(S->cur), T.heapNext, n, k, 0xCD);
  if (k == O_Malloc) S->live[0]++; else S->live[1]++;
  return o->base;
}
static void heapFree(uint64_t a, ObjKind k, const char* what) {
  if (!a) return;
  Obj* o = findObj(*S, a);
  if (!o || o->base != a || o->kind < O_Malloc) fail("badfree", std::string(what) + " of a pointer that was not allocated");
  if (o->freed) fail("doublefree", std::string(what) + " of memory already freed");
  if (o->kind != k) fail("mismatch", std::string(what) + " of " + objDesc(o));
  raceAccess(o, 0, o->size, true); o = findObj(*S, a);
  for (auto& m : S->mutexOwner) if (m.first >= a && m.first < a + o->size) fail("mutexdestroy", "memory of a locked mutex is freed");
  o = writable(*S, o);
  o->freed = true; delete o->sy; o->sy = nullptr;
  if (k == O_Malloc) S->live[0]--; else S->live[1]--;
}

// ---------------------------------------------------------------- frames
static Val& slot(int32_t o) { return o >= 0 ? fr->s[o] : cpool[-(o + 1)]; }
static Val slotN(int32_t o, unsigned j) { return o >= 0 ? fr->s[o + j] : cpool[-(o + 1) + j]; }
static void setDst(const Val& v) { fr->s[ki->dst] = v; }
static void refreshTop() {
  auto& st = S->th[S->cur].st;
  if (st.empty()) { fr = nullptr; return; }
  if (st.back().use_count() > 1) st.back() = std::make_shared<Frame>(*st.back());
  fr = st.back().get();
}
static void popAllocas(Frame& f) {
  Thread& T = S->th[S->cur];
  for (uint64_t a : f.allocas) {
    Obj** sl = slotFor(*S, a); Obj* o = *sl;
    if (!o) continue;
    if (o->hashed) S->memHash -= o->hash;
    for (auto& m : S->mutexOwner) if (m.first >= a && m.first < a + o->size) fail("mutexdestroy", "a locked mutex goes out of scope");
    uint64_t units = (o->size + 2048 + 4095) / 4096;
    for (uint64_t i = 1; i < units; i++) { slotFor(*S, a + i * 4096); S->reg[a >> 36][((a & ((1ull << 36) - 1)) >> 12) + i >> 8]->back[(((a & ((1ull << 36) - 1)) >> 12) + i) & 255] = 0; }
    relObj(o); *sl = nullptr;
  }
  T.stackNext = f.stackMark;
}
static void pushFrame(KFunc* K, int retDst) {
  Thread& T = S->th[S->cur];
  if (T.st.size() > 4000) fail("stack", "stack overflow (more than 4000 nested calls)");
  auto f = std::make_shared<Frame>();
  f->f = K; f->pc = K->blockStart[0]; f->retDst = retDst; f->s.resize(K->nslots); f->stackMark = T.stackNext;
  K->calls++;
  T.st.push_back(f); fr = f.get();
}
static void takeEdge(Edge& e) {
  auto& mv = e.moves;
  if (mv.size() == 1) fr->s[mv[0].dst] = slot(mv[0].src);
  else if (!mv.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto& m : mv) tmp.push_back(slot(m.src));
    for (size_t i = 0; i < mv.size(); i++) fr->s[mv[i].dst] = tmp[i];
  }
  fr->pc = fr->f->blockStart[e.target];
}

// ---------------------------------------------------------------- exceptions
static const std::map<std::string, std::string> stdBase = {
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
  {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
static std::unordered_map<uint64_t, std::string> tiName; static std::unordered_map<std::string, uint64_t> tiAddr;
static bool tiDerives(uint64_t ti, uint64_t target) {
  if (ti == target) return true;
  auto n = tiName.find(ti), m = tiName.find(target);
  if (n != tiName.end() && m != tiName.end() && n->second == m->second) return true;
  if (n == tiName.end()) return false;
  auto b = stdBase.find(n->second);
  if (b != stdBase.end()) { auto a = tiAddr.find(b->second); if (a != tiAddr.end()) return tiDerives(a->second, target); return false; }
  GlobalVariable* G = M->getGlobalVariable(n->second, true);
  if (!G || !G->hasInitializer()) return false;
  auto* CS = dyn_cast<ConstantStruct>(G->getInitializer());
  if (!CS) return false;
  for (unsigned i = 2; i < CS->getNumOperands(); i++) {
    auto* o = CS->getOperand(i);
    if (o->getType()->isPointerTy() && !isa<ConstantPointerNull>(o)) if (tiDerives((uint64_t)constScalar(o), target)) return true;
  }
  return false;
}
static std::string curExcName() { auto& T = S->th[S->cur]; return T.inflight.empty() ? "?" : tiName.count(T.inflight.back().ti) ? demangle(tiName[T.inflight.back().ti]) : "unknown type"; }
static R unwind() {
  Thread& T = S->th[S->cur];
  uint64_t ti = T.inflight.back().ti;
  // phase 1: is there a handler at all?
  bool any = false;
  for (size_t i = T.st.size(); i-- > 0 && !any;) {
    KInst* k = &T.st[i]->f->code[T.st[i]->pc];
    if (k->op != Instruction::Invoke) continue;
    auto* LP = cast<InvokeInst>(k->I)->getLandingPadInst();
    for (unsigned c = 0; c < LP->getNumClauses() && !any; c++) any = !LP->isCatch(c) || isa<ConstantPointerNull>(LP->getClause(c)) || tiDerives(ti, (uint64_t)constScalar(LP->getClause(c)));
  }
  if (!any) fail("exception", "uncaught exception of type " + curExcName());
  while (!T.st.empty()) {
    refreshTop();
    KInst* k = &fr->f->code[fr->pc];
    if (k->op == Instruction::Invoke) {
      auto* LP = cast<InvokeInst>(k->I)->getLandingPadInst();
      bool stop = LP->isCleanup(); uint64_t sel = 0;
      for (unsigned i = 0; i < LP->getNumClauses() && !sel; i++) {
        Constant* C = LP->getClause(i);
        if (LP->isCatch(i)) {
          if (isa<ConstantPointerNull>(C)) { sel = 1; stop = true; break; }
          uint64_t a = (uint64_t)constScalar(C);
          if (tiDerives(ti, a)) { sel = (a >> 12) & 0x7fffffff; stop = true; break; }
        } else { stop = true; sel = 0x7ffffff1; break; }
      }
      if (stop) {
        takeEdge((*k->edges)[1]);
        KInst* l = &fr->f->code[fr->pc];
        if (l->op != Instruction::LandingPad) unsupported("landingpad position");
        fr->s[l->dst] = V(T.inflight.back().obj); fr->s[l->dst + 1] = V(sel);
        fr->pc++;
        return JUMPED;
      }
    }
    popAllocas(*fr);
    T.st.pop_back();
  }
  fail("exception", "uncaught exception of type " + curExcName());
}
static R throwNamed(const char* tiSym) {
  Thread& T = S->th[S->cur];
  auto it = tiAddr.find(tiSym);
  uint64_t a;
  if (it == tiAddr.end()) { a = 0x7000 + tiAddr.size(); tiAddr[tiSym] = a; tiName[a] = tiSym; } else a = it->second;
  Obj* o = allocAt(*S, regHeap(S->cur), T.heapNext, 64, O_Exc, 0);
  T.inflight.push_back({o->base, a});
  return unwind();
}

// ---------------------------------------------------------------- threads
static std::unordered_set<uint64_t> visited;
static bool enabled(State& st, int t) {
  Thread& T = st.th[t];
  if (T.done) return false;
  switch (T.pend) {
    case P_Start: case P_Op: return true;
    case P_Lock: return !st.mutexOwner.count(T.pa);
    case P_Wake: return (T.signalled || T.timed || o_spurious) && !st.mutexOwner.count(T.pm);
    case P_Join: return T.pa < st.th.size() && st.th[T.pa].done;
    case P_Guard: { Obj* o = findObj(st, T.pa); if (!o || o->freed) return true; return o->d[T.pa - o->base + 1] == 0; }
    default: return false;
  }
}
static const char* pendName(PendKind k) { static const char* n[] = {"none", "start", "mutex lock", "condition wait", "op", "join", "static init"}; return n[k]; }
// Choose who runs next; the current thread (if not finished) is at a visible operation.
static R schedule() {
  st_scheds++;
  if (o_hash && S->th.size() > 1) {
    uint64_t h = hashState(*S);
    if (!visited.insert(h).second) { st_pruned++; endPath(); }
    st_states++;
  }
  std::vector<int> en;
  for (int t = 0; t < (int)S->th.size(); t++) if (enabled(*S, t)) en.push_back(t);
  // run a timed waiter's timeout only as an alternative, never as progress by itself unless nothing else can run
  if (en.empty()) {
    std::string m = "deadlock:";
    for (int t = 0; t < (int)S->th.size(); t++) if (!S->th[t].done) {
      m += " thread " + std::to_string(t) + " blocked in " + pendName(S->th[t].pend);
      std::string where; for (int i = (int)S->th[t].st.size() - 1; i >= 0; i--) { Frame& f = *S->th[t].st[i]; std::string n = demangle(f.f->name); if (n.find("dap::") == 0 || n.find("harness") != std::string::npos) { where = n; break; } }
      if (!where.empty()) m += " (" + where.substr(0, 80) + ")";
      m += ";";
    }
    fail("deadlock", m);
  }
  int prev = S->cur; bool prevEn = false; for (int t : en) if (t == prev) prevEn = true;
  std::vector<int> ch;
  if (prevEn) ch.push_back(prev);
  for (int t : en) if (t != prev || !prevEn) { if (prevEn && o_preempt >= 0 && S->preempts >= o_preempt) continue; ch.push_back(t); }
  auto go = [&](State& st, int t) {
    if (prevEn && t != prev) st.preempts++;
    if (t != prev) st.switches++;
    st.cur = t; if (st.th[t].pend == P_Start) st.th[t].pend = P_None; else st.th[t].permit = true; st.dec.push_back("s" + std::to_string(t));
    st_trans++;
  };
  for (size_t i = ch.size(); i-- > 1;) {
    State* T = new State(*S);
    auto& stk = T->th[ch[i]].st;
    if (!stk.empty()) stk.back() = std::make_shared<Frame>(*stk.back());
    go(*T, ch[i]); work.push_back(T);
  }
  go(*S, ch[0]);
  refreshTop();
  return RETRY;
}
// Called before a visible operation. Returns true if it may execute now.
static bool visible(PendKind k, uint64_t a) {
  Thread& T = S->th[S->cur];
  if (T.permit) { T.permit = false; T.pend = P_None; return true; }
  T.pend = k; T.pa = a;
  if (S->th.size() == 1) { if (enabled(*S, S->cur)) { T.pend = P_None; return true; } }
  schedule();
  return false;
}
static void acq(uint64_t a) { if (!o_races) return; auto& v = S->syncVC[a]; auto& T = S->th[S->cur]; for (int i = 0; i < MAXT; i++) T.vc[i] = std::max(T.vc[i], v.c[i]); }
static void rel(uint64_t a) { if (!o_races) return; auto& v = S->syncVC[a]; auto& T = S->th[S->cur]; for (int i = 0; i < MAXT; i++) v.c[i] = std::max(v.c[i], T.vc[i]); T.vc[S->cur]++; }

static Val icmp_(unsigned p, unsigned w, const Val& a, const Val& b);
static Val binop_(unsigned op, unsigned w, const Val& a, const Val& b);
static void pathDoneHook();
#include "builtins.inc"

// ---------------------------------------------------------------- instructions
static Kind binKind(unsigned op) {
  switch (op) {
    case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub; case Instruction::Mul: return K_Mul;
    case Instruction::UDiv: return K_UDiv; case Instruction::SDiv: return K_SDiv; case Instruction::URem: return K_URem; case Instruction::SRem: return K_SRem;
    case Instruction::And: return K_And; case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor;
    case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr; case Instruction::AShr: return K_AShr;
    case Instruction::FAdd: return K_FAdd; case Instruction::FSub: return K_FSub; case Instruction::FMul: return K_FMul; case Instruction::FDiv: return K_FDiv;
  }
  abort();
}
static Val binop(unsigned op, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, m = m64(w);
    switch (op) {
      case Instruction::Add: return V((x + y) & m);
      case Instruction::Sub: return V((x - y) & m);
      case Instruction::Mul: return V((x * y) & m);
      case Instruction::And: return V(x & y);
      case Instruction::Or: return V(x | y);
      case Instruction::Xor: return V(x ^ y);
      case Instruction::Shl: return V(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return V(y >= w ? 0 : x >> y);
      default: return V((uint64_t)foldOp(binKind(op), w, w, x, y));
    }
  }
  Kind k = binKind(op);
  if (k >= K_FAdd) return VE(mkFOp(k, E(a, w), E(b, w), w));
  Expr* r = mkBin(k, E(a, w), E(b, w));
  return w > 64 ? Val{0, r} : VE(r);
}
static Val icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)), sy = (int64_t)(y << (64 - w));
    switch (p) {
      case CmpInst::ICMP_EQ: return V(x == y); case CmpInst::ICMP_NE: return V(x != y);
      case CmpInst::ICMP_UGT: return V(x > y); case CmpInst::ICMP_UGE: return V(x >= y); case CmpInst::ICMP_ULT: return V(x < y); case CmpInst::ICMP_ULE: return V(x <= y);
      case CmpInst::ICMP_SGT: return V(sx > sy); case CmpInst::ICMP_SGE: return V(sx >= sy); case CmpInst::ICMP_SLT: return V(sx < sy); case CmpInst::ICMP_SLE: return V(sx <= sy);
    }
  }
  Expr *x = E(a, w), *y = E(b, w), *r;
  switch (p) {
    case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
    case CmpInst::ICMP_UGT: r = mkBin(K_Ult, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K_Ule, y, x); break;
    case CmpInst::ICMP_ULT: r = mkBin(K_Ult, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K_Ule, x, y); break;
    case CmpInst::ICMP_SGT: r = mkBin(K_Slt, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(K_Sle, y, x); break;
    case CmpInst::ICMP_SLT: r = mkBin(K_Slt, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(K_Sle, x, y); break;
    default: abort();
  }
  return VE(r);
}
static Val fcmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  Expr *x = E(a, w), *y = E(b, w);
  Expr* un = mkFCmp(K_FUno, x, y);
  auto o = [&](Kind k, Expr* l, Expr* r) { return mkFCmp(k, l, r); };
  Expr* r;
  switch (p) {
    case CmpInst::FCMP_FALSE: r = mkFalse(); break; case CmpInst::FCMP_TRUE: r = mkTrue(); break;
    case CmpInst::FCMP_OEQ: r = o(K_FOeq, x, y); break;
    case CmpInst::FCMP_OGT: r = o(K_FOlt, y, x); break;
    case CmpInst::FCMP_OGE: r = o(K_FOle, y, x); break;
    case CmpInst::FCMP_OLT: r = o(K_FOlt, x, y); break;
    case CmpInst::FCMP_OLE: r = o(K_FOle, x, y); break;
    case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un), mkNot(o(K_FOeq, x, y))); break;
    case CmpInst::FCMP_ORD: r = mkNot(un); break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = mkOr(un, o(K_FOeq, x, y)); break;
    case CmpInst::FCMP_UGT: r = mkOr(un, o(K_FOlt, y, x)); break;
    case CmpInst::FCMP_UGE: r = mkOr(un, o(K_FOle, y, x)); break;
    case CmpInst::FCMP_ULT: r = mkOr(un, o(K_FOlt, x, y)); break;
    case CmpInst::FCMP_ULE: r = mkOr(un, o(K_FOle, x, y)); break;
    case CmpInst::FCMP_UNE: r = mkNot(o(K_FOeq, x, y)); break;
    default: abort();
  }
  return VE(r);
}

static Val icmp_(unsigned p, unsigned w, const Val& a, const Val& b) { return icmp(p, w, a, b); }
static Val binop_(unsigned op, unsigned w, const Val& a, const Val& b) { return binop(op, w, a, b); }
static R doReturn(std::vector<Val>* rv) {
  Thread& T = S->th[S->cur];
  popAllocas(*fr);
  int rd = fr->retDst; (void)rd;
  T.st.pop_back();
  if (T.st.empty()) return threadFinished();
  refreshTop();
  KInst* k = &fr->f->code[fr->pc];
  if (k->dst >= 0 && rv) for (size_t i = 0; i < rv->size() && i < k->ndst; i++) fr->s[k->dst + i] = (*rv)[i];
  if (k->op == Instruction::Invoke) takeEdge((*k->edges)[0]); else fr->pc++;
  return JUMPED;
}

static R doCall(KInst* k) {
  CallInfo* ci = k->ci;
  Function* F = ci->fn;
  if (ci->builtin == -2) { if (cast<InlineAsm>(cast<CallBase>(k->I)->getCalledOperand())->getAsmString().empty() && k->dst < 0) return NEXT; unsupported("inline asm"); }
  if (!F) {
    uint64_t a = conc(slot(ci->calleeOp), 64);
    F = fnAt(a);
    if (!F) { if (a == 0) fail("null", "call through a null function pointer"); fail("wild", "call through an invalid function pointer"); }
  } else if (ci->intrin) return doIntrinsic(k, ci->intrin);
  KFunc* K = nullptr; int bid = -1;
  if (ci->resolved) { K = ci->kf; bid = ci->builtin; }
  else {
    bid = builtinId(F->getName().str());
    if (bid < 0 && !F->isDeclaration()) K = getKF(F);
    if (ci->fn) { ci->resolved = true; ci->kf = K; ci->builtin = bid; }
  }
  if (bid >= 0) return runBuiltin(bid, k);
  if (!K) unsupported("external " + F->getName().str());
  if (o_trace) fprintf(stderr, "%*s[%d] %s\n", (int)S->th[S->cur].st.size(), "", S->cur, demangle(K->name).c_str());
  // gather arguments
  static std::vector<Val> av; av.clear();
  std::vector<std::pair<int, uint32_t>> byv;
  unsigned fixedLeaves = 0; size_t nparams = F->arg_size();
  for (size_t i = 0; i < ci->args.size() && i < nparams; i++) {
    auto& a = ci->args[i];
    if (a.byval) byv.push_back({(int)av.size(), a.byval});
    for (unsigned j = 0; j < a.n; j++) av.push_back(slotN(a.op, j));
    fixedLeaves += a.n;
  }
  uint64_t va = 0; Thread& T = S->th[S->cur];
  std::vector<std::pair<uint64_t, Val>> vas; std::vector<unsigned> vaw; uint64_t vsz = 0;
  if (K->vararg) for (size_t i = nparams; i < ci->args.size(); i++) {
    auto& a = ci->args[i];
    if (a.byval) unsupported("byval vararg");
    for (unsigned j = 0; j < a.n; j++) { vas.push_back({vsz, slotN(a.op, j)}); vaw.push_back(a.w); vsz += 8; }
  }
  pushFrame(K, k->dst);
  unsigned tot = K->argSlot.empty() ? 0 : av.size();
  for (unsigned i = 0; i < tot && i < K->nslots; i++) fr->s[i] = av[i];
  for (auto& b : byv) {
    Obj* o = allocAt(*S, regStack(S->cur), T.stackNext, b.second, O_Stack, 0xCD); fr->allocas.push_back(o->base);
    copyMem(o->base, conc(fr->s[b.first], 64), b.second); fr->s[b.first] = V(o->base);
  }
  if (K->vararg) {
    Obj* o = allocAt(*S, regStack(S->cur), T.stackNext, vsz ? vsz : 8, O_Stack, 0); fr->allocas.push_back(o->base); va = o->base;
    for (size_t i = 0; i < vas.size(); i++) storeTo(writable(*S, findObj(*S, va)), vas[i].first, std::max(32u, vaw[i]), vas[i].second);
    fr->vaBase = va;
  }
  return JUMPED;
}

static R step() {
  KInst* k = ki;
  switch (k->op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      if (k->op == Instruction::FAdd || k->op == Instruction::FSub || k->op == Instruction::FMul || k->op == Instruction::FDiv) {
        // floating-point arithmetic is done on values, one path per value
        for (unsigned j = 0; j < k->ndst; j++) { unsigned w = k->flat->l[j].w; Val a = slotN(k->a, j), b = slotN(k->b, j); if (w <= 64) { a = concSmall(a, w); b = concSmall(b, w); if (a.e) a = V(conc(a, w)); if (b.e) b = V(conc(b, w)); } fr->s[k->dst + j] = binop(k->op, w, a, b); }
        return NEXT;
      }
      for (unsigned j = 0; j < k->ndst; j++) {
        Val a = slotN(k->a, j), b = slotN(k->b, j);
        if (k->op == Instruction::Mul && k->flat->l[j].w == 128 && (a.e || b.e)) { if (a.e) concVars(a.e); if (b.e) concVars(b.e); a = simp(a); b = simp(b); }  // wide products: on values
        fr->s[k->dst + j] = binop(k->op, k->flat->l[j].w, a, b);
      }
      return NEXT;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val a = slot(k->a), b = slot(k->b);
      if (!b.e ? b.c == 0 : !b.e->isConst() && decide(mkEq(b.e, mkConst(b.e->w, 0)))) fail("div", "division by zero");
      setDst(binop(k->op, k->w, a, b)); return NEXT;
    }
    case Instruction::FRem: { Val a = slot(k->a), b = slot(k->b); uint64_t x = conc(a, 64), y = conc(b, 64); if (k->w != 64) unsupported("frem"); double p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); p = fmod(p, q); memcpy(&x, &p, 8); setDst(V(x)); return NEXT; }
    case Instruction::FNeg: for (unsigned j = 0; j < k->ndst; j++) { unsigned w = k->flat->l[j].w; fr->s[k->dst + j] = binop(Instruction::Xor, w, slotN(k->a, j), V(1ull << (w - 1))); } return NEXT;
    case Instruction::ICmp: for (unsigned j = 0; j < k->ndst; j++) fr->s[k->dst + j] = icmp(k->pred, k->w, slotN(k->a, j), slotN(k->b, j)); return NEXT;
    case Instruction::FCmp: if (k->w > 64) unsupported("fp80"); for (unsigned j = 0; j < k->ndst; j++) fr->s[k->dst + j] = fcmp(k->pred, k->w, slotN(k->a, j), slotN(k->b, j)); return NEXT;
    case Instruction::ZExt: for (unsigned j = 0; j < k->ndst; j++) { Val a = slotN(k->a, j); unsigned w = k->flat->l[j].w; if (!a.e && w <= 64) fr->s[k->dst + j] = a; else { Expr* r = mkZExt(E(a, k->w2), w); fr->s[k->dst + j] = w > 64 ? Val{0, r} : VE(r); } } return NEXT;
    case Instruction::SExt: for (unsigned j = 0; j < k->ndst; j++) { Val a = slotN(k->a, j); unsigned w = k->flat->l[j].w; if (!a.e && w <= 64) fr->s[k->dst + j] = V((uint64_t)((int64_t)(a.c << (64 - k->w2)) >> (64 - k->w2)) & m64(w)); else { Expr* r = sextVal(E(a, k->w2), w); fr->s[k->dst + j] = w > 64 ? Val{0, r} : VE(r); } } return NEXT;
    case Instruction::Trunc: for (unsigned j = 0; j < k->ndst; j++) { Val a = slotN(k->a, j); unsigned w = k->flat->l[j].w; if (!a.e) fr->s[k->dst + j] = V(a.c & m64(w)); else { Expr* r = mkExtract(a.e, 0, w); fr->s[k->dst + j] = w > 64 ? Val{0, r} : VE(r); } } return NEXT;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = slot(k->a); if (k->w == k->w2) setDst(a); else if (!a.e) setDst(V(a.c & m64(k->w))); else setDst(VE(mkZExt(a.e, k->w))); return NEXT; }
    case Instruction::BitCast: {
      if (k->ndst == 1 && k->w == k->w2) { setDst(slot(k->a)); return NEXT; }
      unsupported("bitcast");
    }
    case Instruction::Freeze: for (unsigned j = 0; j < k->ndst; j++) fr->s[k->dst + j] = slotN(k->a, j); return NEXT;
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
      if (k->w > 64 || k->w2 > 64) unsupported("wide fp conversion");
      Kind kk = k->op == Instruction::SIToFP ? K_SIToFP : k->op == Instruction::UIToFP ? K_UIToFP : k->op == Instruction::FPToSI ? K_FPToSI : k->op == Instruction::FPToUI ? K_FPToUI : k->op == Instruction::FPExt ? K_FPExt : K_FPTrunc;
      Val a = simp(slot(k->a));
      if (a.e && (kk == K_SIToFP || kk == K_UIToFP)) a = concSmall(a, k->w2);
      setDst(VE(mkFOp(kk, E(a, k->w2), nullptr, k->w))); return NEXT;
    }
    case Instruction::Select: {
      Val c = slot(k->a);
      auto* ct = cast<SelectInst>(k->I)->getCondition()->getType();
      for (unsigned j = 0; j < k->ndst; j++) {
        if (ct->isVectorTy()) c = slotN(k->a, j);
        Val x = slotN(k->b, j), y = slotN(k->c, j); unsigned w = k->flat->l[j].w;
        if (!c.e) fr->s[k->dst + j] = c.c ? x : y;
        else { Expr* r = mkIte(c.e, E(x, w), E(y, w)); fr->s[k->dst + j] = w > 64 ? Val{0, r} : VE(r); }
      }
      return NEXT;
    }
    case Instruction::GetElementPtr: {
      Val p = slot(k->a); GepInfo* g = k->gi;
      bool sym = p.e != nullptr; for (auto& t : g->terms) if (slot(t.first).e) sym = true;
      if (!sym) {
        uint64_t a = p.c + g->off;
        for (auto& t : g->terms) { unsigned w = t.second.second; int64_t ix = (int64_t)(slot(t.first).c << (64 - w)) >> (64 - w); a += ix * t.second.first; }
        setDst(V(a));
      } else {
        Expr* a = mkBin(K_Add, E(p, 64), mkConst(64, (uint64_t)g->off));
        for (auto& t : g->terms) { unsigned w = t.second.second; Expr* ix = mkSExt(E(slot(t.first), w), 64); a = mkBin(K_Add, a, mkBin(K_Mul, ix, mkConst(64, t.second.first))); }
        setDst(VE(a));
      }
      return NEXT;
    }
    case Instruction::Load: {
      if (k->isAtomic) {
        uint64_t a = conc(slot(k->a), 64);
        if ((o_atomics >= 2 || (o_atomics == 1 && k->seqcst)) && multi() && !vis(P_Op, a)) return RETRY;
        acq(a);
        Obj* o = check(a, k->w / 8 ? k->w / 8 : 1, false, "atomic load"); setDst(loadFrom(o, a - o->base, k->w)); return NEXT;
      }
      if (k->ndst == 1) { setDst(loadScalar(slot(k->a), k->w)); return NEXT; }
      uint64_t a = conc(slot(k->a), 64);
      for (unsigned j = 0; j < k->ndst; j++) fr->s[k->dst + j] = loadScalar(V(a + k->flat->l[j].off), k->flat->l[j].w);
      return NEXT;
    }
    case Instruction::Store: {
      if (k->isAtomic) {
        uint64_t a = conc(slot(k->a), 64);
        if ((o_atomics >= 2 || (o_atomics == 1 && k->seqcst)) && multi() && !vis(P_Op, a)) return RETRY;
        rel(a); unsigned w = k->flat->l[0].w;
        Obj* o = check(a, (w + 7) / 8, true, "atomic store"); storeTo(writable(*S, o), a - o->base, w, slot(k->b)); return NEXT;
      }
      if (k->flat->l.size() == 1) { storeScalar(slot(k->a), k->flat->l[0].w, slot(k->b)); return NEXT; }
      uint64_t a = conc(slot(k->a), 64);
      for (unsigned j = 0; j < k->flat->l.size(); j++) storeScalar(V(a + k->flat->l[j].off), k->flat->l[j].w, slotN(k->b, j));
      return NEXT;
    }
    case Instruction::AtomicRMW: {
      uint64_t a = conc(slot(k->a), 64); unsigned w = k->w;
      if ((o_atomics >= 2 || (o_atomics == 1 && k->seqcst)) && multi() && !vis(P_Op, a)) return RETRY;
      Obj* o = check(a, (w + 7) / 8, true, "atomic update"); acq(a); rel(a);
      Val old = loadFrom(o, a - o->base, w), v = slot(k->b), nv;
      switch (k->pred) {
        case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, w, old, v); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, w, old, v); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, w, old, v); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, w, old, v); break; case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, w, old, v); break;
        default: unsupported("atomicrmw");
      }
      storeTo(writable(*S, o), a - o->base, w, nv); setDst(old); return NEXT;
    }
    case Instruction::AtomicCmpXchg: {
      uint64_t a = conc(slot(k->a), 64); unsigned w = k->w;
      if ((o_atomics >= 2 || (o_atomics == 1 && k->seqcst)) && multi() && !vis(P_Op, a)) return RETRY;
      Obj* o = check(a, (w + 7) / 8, true, "atomic compare-exchange");
      Val old = loadFrom(o, a - o->base, w); Val eq = icmp(CmpInst::ICMP_EQ, w, old, slot(k->b));
      bool ok = eq.e ? decide(eq.e) : eq.c;
      acq(a);
      if (ok) { rel(a); storeTo(writable(*S, findObj(*S, a)), a - o->base, w, slot(k->c)); }
      fr->s[k->dst] = old; fr->s[k->dst + 1] = V(ok); return NEXT;
    }
    case Instruction::Fence: return NEXT;
    case Instruction::Alloca: {
      Thread& T = S->th[S->cur];
      uint64_t n = conc(slot(k->a), 64) * k->o[0];
      Obj* o = allocAt(*S, regStack(S->cur), T.stackNext, n, O_Stack, 0xCD);
      fr->allocas.push_back(o->base); setDst(V(o->base)); return NEXT;
    }
    case Instruction::Br: {
      if (k->edges->size() == 1) { takeEdge((*k->edges)[0]); return JUMPED; }
      Val c = slot(k->a);
      bool t = c.e ? decide(c.e) : c.c;
      takeEdge((*k->edges)[t ? 0 : 1]); return JUMPED;
    }
    case Instruction::Switch: {
      Val c = simp(slot(k->a));
      if (!c.e) { int ei = 0; for (auto& x : *k->cases) if ((uint64_t)x.first == c.c) { ei = x.second; break; } takeEdge((*k->edges)[ei]); return JUMPED; }
      // group conditions by edge
      std::map<int, Expr*> cond; Expr* any = mkFalse();
      for (auto& x : *k->cases) { Expr* q = mkEq(c.e, mkConst(k->w, x.first)); any = mkOr(any, q); auto f = cond.find(x.second); if (f == cond.end()) cond[x.second] = q; else f->second = mkOr(f->second, q); }
      uint64_t mv = (uint64_t)evalFast(c.e, *S->model); int ei = 0;
      for (auto& x : *k->cases) if ((uint64_t)x.first == mv) { ei = x.second; break; }
      Expr* ec = ei == 0 ? (cond.count(0) ? mkOr(cond[0], mkNot(any)) : mkNot(any)) : cond[ei];
      decide(ec);  // true under the model; the alternative re-executes the switch
      takeEdge((*k->edges)[ei]); return JUMPED;
    }
    case Instruction::Call: case Instruction::Invoke: {
      R r = doCall(k);
      if (r == NEXT && k->op == Instruction::Invoke) { takeEdge((*k->edges)[0]); return JUMPED; }
      return r;
    }
    case Instruction::Ret: {
      static std::vector<Val> rv; rv.clear();
      if (k->flat) for (unsigned j = 0; j < k->ndst; j++) rv.push_back(slotN(k->a, j));
      return doReturn(&rv);
    }
    case Instruction::Resume: { Thread& T = S->th[S->cur]; if (T.inflight.empty()) unsupported("resume"); popAllocas(*fr); T.st.pop_back(); return unwind(); }
    case Instruction::Unreachable: fail("unreachable", "execution reached a point the compiler proved impossible (undefined behaviour)");
    case Instruction::ExtractValue: for (unsigned j = 0; j < k->ndst; j++) fr->s[k->dst + j] = slotN(k->a, k->a >= 0 ? j : j); return NEXT;
    case Instruction::InsertValue: {
      for (unsigned j = 0; j < k->ndst; j++) { Val v = (j >= k->o[0] && j < k->o[0] + k->o[1]) ? slotN(k->b, j - k->o[0]) : slotN(k->a, j); fr->s[k->dst + j] = v; }
      return NEXT;
    }
    case Instruction::ExtractElement: { uint64_t i = conc(slot(k->b), 64); setDst(slotN(k->a, i)); return NEXT; }
    case Instruction::InsertElement: { uint64_t i = conc(slot(k->c), 64); for (unsigned j = 0; j < k->ndst; j++) fr->s[k->dst + j] = j == i ? slot(k->b) : slotN(k->a, j); return NEXT; }
    case Instruction::ShuffleVector: {
      auto* SV = cast<ShuffleVectorInst>(k->I); unsigned n = cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements();
      for (unsigned j = 0; j < k->ndst; j++) { int m = SV->getMaskValue(j); fr->s[k->dst + j] = m < 0 ? V(0) : (unsigned)m < n ? slotN(k->a, m) : slotN(k->b, m - n); }
      return NEXT;
    }
    default: unsupported(std::string("instruction ") + k->I->getOpcodeName());
  }
}

// ---------------------------------------------------------------- path end
static void pathDone() {
  st_paths++;
  for (auto& r : S->reached) g_reached.insert(r);
  // export sample paths for native validation: 1st, 2nd, 4th, 8th ... and a tail
  static uint64_t nextSample = 1;
  if ((int)st_samples < o_samples && st_paths >= nextSample) {
    nextSample = nextSample < 3 ? nextSample + 1 : nextSample * 3;
    std::string f = o_outdir + "/" + o_name + ".s" + std::to_string(partNo) + "_" + std::to_string(st_samples) + ".case";
    writeCase(f, *S, *S->model, "pass", "", ""); sampleFiles.push_back(f); st_samples++;
  }
}

static void pathDoneHook() { pathDone(); }
static uint64_t rssBytes() { std::ifstream f("/proc/self/statm"); uint64_t a, b; f >> a >> b; return b * 4096; }

static void runState(State* st) {
  S = st; refreshTop();
  uint64_t localN = 0;
  try {
    for (;;) {
      if (!fr) endPath();
      ki = &fr->f->code[fr->pc];
      fr->f->insts++; st_insts++; S->insts++;
      if ((++localN & 0xFFFF) == 0) {
        if (now() - t0 > o_maxTime) { st_timeout = true; break; }
        if (S->insts > o_instLimit) { st_limit++; fail("hang", "no termination within " + std::to_string(o_instLimit) + " instructions"); }
      }
      if (o_trace) { std::string t; raw_string_ostream os(t); ki->I->print(os); if (ki->I->getType()->isVoidTy()) {} fprintf(stderr, "   %s\n", t.substr(0, 100).c_str()); }
      Frame* tf = fr; KInst* tk = ki;
      R r = step();
      if (o_trace && r == NEXT && tk->dst >= 0 && tf == fr) fprintf(stderr, "        = %llx %s\n", (unsigned long long)fr->s[tk->dst].c, fr->s[tk->dst].e ? exprStr(fr->s[tk->dst].e).c_str() : "");
      if (r == NEXT) fr->pc++;
      else if (r == END) break;
    }
  } catch (PathEnd&) {}
  delete st; S = nullptr; fr = nullptr;
}

static void initMemory() {
  uint64_t next = 1;
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
    if (!G.hasInitializer() && sz < 256) sz = 256;
    Obj* o = allocAt(*S, 1, next, sz, O_Global, 0); gaddr[&G] = o->base;
    if (G.getName().starts_with("_ZTI")) { tiName[o->base] = G.getName().str(); tiAddr[G.getName().str()] = o->base; }
  }
  S->globNext = next;
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    Obj* o = findObj(*S, gaddr[&G]);
    if (G.hasInitializer()) storeConst(o, 0, G.getInitializer());
    if (G.getName() == "__libc_single_threaded") o->d[0] = 0;
    o->ro = G.isConstant() && G.hasInitializer();
  }
}
static std::vector<Function*> ctors;
static void collectCtors() {
  auto* G = M->getGlobalVariable("llvm.global_ctors");
  if (!G) return;
  std::vector<std::pair<uint64_t, Function*>> v;
  if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& o : CA->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& p : v) ctors.push_back(p.second);
}
static R nextMain() {  // thread 0 has an empty stack: next constructor, harness, or exit handlers
  while (S->ctorIdx < (int)ctors.size()) { Function* F = ctors[S->ctorIdx++]; if (F->isDeclaration()) continue; pushFrame(getKF(F), -1); return JUMPED; }
  if (S->ctorIdx == (int)ctors.size()) {
    S->ctorIdx++;
    auto* F = M->getFunction(o_entry);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", o_entry.c_str()); exit(3); }
    pushFrame(getKF(F), -1); return JUMPED;
  }
  if (S->kv.count(1) && !S->atexits.empty()) {
    auto a = S->atexits.back(); S->atexits.pop_back();
    Function* F = fnAt(a.first);
    if (F && !F->isDeclaration() && builtinId(F->getName().str()) < 0) { pushFrame(getKF(F), -1); if (F->arg_size()) fr->s[0] = V(a.second); return JUMPED; }
    return nextMain();
  }
  if (S->kv.count(2)) {  // leak assertion after exit handlers
    if (S->live[1] != (int64_t)S->kv[2]) { report(*S, S->model, "assert", "memory still allocated after static destruction"); }
  }
  pathDone();
  fr = nullptr; return END;
}
R threadFinished() {
  if (S->cur == 0) return nextMain();
  Thread& T = S->th[S->cur];
  T.done = true; T.pend = P_None;
  if (o_races) { auto& v = S->syncVC[0xFFFF0000ull + S->cur]; for (int i = 0; i < MAXT; i++) v.c[i] = std::max(v.c[i], T.vc[i]); }
  return schedule();
}

static void writeResult() {
  std::ofstream f(o_outdir + "/" + o_name + ".part" + std::to_string(partNo) + ".json");
  f << "{\"paths\":" << st_paths << ",\"forks\":" << st_forks << ",\"insts\":" << st_insts << ",\"states\":" << st_states << ",\"pruned\":" << st_pruned << ",\"scheds\":" << st_scheds << ",\"trans\":" << st_trans
    << ",\"asserts\":" << st_asserts << ",\"assert_queries\":" << st_assertQ << ",\"assume_killed\":" << st_assumeKill << ",\"inst_limit\":" << st_limit << ",\"race_checks\":" << st_raceChecks << ",\"max_constraints\":" << st_maxCs
    << ",\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown << ",\"heavy\":" << g_ss.heavy << ",\"cache_hits\":" << g_ss.cacheHits << ",\"model_hits\":" << g_ss.fast
    << ",\"solver_s\":" << g_ss.time << ",\"solver_max_s\":" << g_ss.maxTime << ",\"wall_s\":" << now() - t0 << ",\"rss\":" << rssBytes()
    << ",\"timeout\":" << (st_timeout ? "true" : "false") << ",\"left\":" << work.size() << ",\"reached\":[";
  bool first = true; for (auto& r : g_reached) { f << (first ? "" : ",") << "\"" << jesc(r) << "\""; first = false; }
  f << "],\"unsupported\":{"; first = true; for (auto& u : g_unsupported) { f << (first ? "" : ",") << "\"" << jesc(u.first) << "\":" << u.second; first = false; }
  f << "},\"violations\":["; first = true;
  for (auto& v : viols) { f << (first ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"file\":\"" << jesc(v.file) << "\"}"; first = false; }
  f << "],\"samples\":["; first = true; for (auto& s : sampleFiles) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  f << "],\"functions\":{"; first = true;
  for (auto* k : kfList) if (k->insts) {
    std::string file; if (auto* sp = k->F->getSubprogram()) file = sp->getFilename().str();
    if (file.find("/repo/") == std::string::npos && file.find("repo/") == std::string::npos) continue;
    f << (first ? "" : ",") << "\"" << jesc(demangle(k->name)) << "\":" << k->insts; first = false;
  }
  f << "}}\n";
}

static int emitNative(const std::string& in, const std::string& out, const std::string& san) {
  SMDiagnostic err; M = parseIRFile(in, err, Ctx);
  if (!M) { err.print("sx", errs()); return 3; }
  FunctionCallee pt = M->getOrInsertFunction("__sx_atomic_point", FunctionType::get(Type::getVoidTy(Ctx), {Type::getInt32Ty(Ctx)}, false));
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    if (san == "address") F.addFnAttr(Attribute::SanitizeAddress);
    if (san == "thread") { F.addFnAttr(Attribute::SanitizeThread); }
    if (san == "thread") continue;
    std::vector<std::pair<Instruction*, int>> at;
    for (auto& B : F) for (auto& I : B) {
      bool a = false, sc = false;
      if (auto* L = dyn_cast<LoadInst>(&I)) { a = L->isAtomic(); sc = L->getOrdering() == AtomicOrdering::SequentiallyConsistent; }
      if (auto* L = dyn_cast<StoreInst>(&I)) { a = L->isAtomic(); sc = L->getOrdering() == AtomicOrdering::SequentiallyConsistent; }
      if (auto* L = dyn_cast<AtomicRMWInst>(&I)) { a = true; sc = L->getOrdering() == AtomicOrdering::SequentiallyConsistent; }
      if (auto* L = dyn_cast<AtomicCmpXchgInst>(&I)) { a = true; sc = L->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent; }
      if (a) at.push_back({&I, sc ? 1 : 2});
    }
    for (auto& p : at) { IRBuilder<> b(p.first); b.CreateCall(pt, {b.getInt32(p.second)}); }
  }
  for (const char* n : {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait", "pthread_cond_timedwait",
                        "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_create", "pthread_join", "pthread_detach", "pthread_self", "sched_yield", "nanosleep", "usleep",
                        "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"})
    if (auto* F = M->getFunction(n)) if (F->isDeclaration()) F->setName(std::string("sxn_") + n);
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); os.flush();
  return 0;
}
// Redirect calls of X to the harness' stand-in sxs_X, for every sxs_X the module defines.
static int prep(const std::string& in, const std::string& out) {
  SMDiagnostic err; M = parseIRFile(in, err, Ctx);
  if (!M) { err.print("sx", errs()); return 3; }
  for (auto& F : *M) {
    if (F.isDeclaration() || !F.getName().starts_with("sxs_")) continue;
    if (auto* X = M->getFunction(F.getName().drop_front(4))) if (X->isDeclaration()) X->replaceAllUsesWith(&F);
  }
  // keep only what the harness entries (h_*) can reach
  internalizeModule(*M, [](const GlobalValue& G) { return G.getName().starts_with("h_") || G.getName().starts_with("sx"); });
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); os.flush();
  return 0;
}

int main(int argc, char** argv) {
  t0 = now();
  std::string file;
  if (argc > 4 && std::string(argv[1]) == "--emit-native") _exit(emitNative(argv[2], argv[3], argv[4]));
  if (argc > 3 && std::string(argv[1]) == "--prep") _exit(prep(argv[2], argv[3]));
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") o_entry = nx();
    else if (a == "--out") o_outdir = nx();
    else if (a == "--name") o_name = nx();
    else if (a == "--param") { auto s = nx(); auto e = s.find('='); o_params[s.substr(0, e)] = strtoull(s.c_str() + e + 1, 0, 0); }
    else if (a == "--time") o_maxTime = atof(nx().c_str());
    else if (a == "--insts") o_instLimit = strtoull(nx().c_str(), 0, 0);
    else if (a == "--preempt") o_preempt = atoi(nx().c_str());
    else if (a == "--races") o_races = true;
    else if (a == "--spurious") o_spurious = true;
    else if (a == "--nohash") o_hash = false;
    else if (a == "--atomics") o_atomics = atoi(nx().c_str());
    else if (a == "--samples") o_samples = atoi(nx().c_str());
    else if (a == "--maxviol") o_maxViol = atoi(nx().c_str());
    else if (a == "--jobs") o_jobs = atoi(nx().c_str());
    else if (a == "--seed") o_seed = strtoull(nx().c_str(), 0, 0);
    else if (a == "--solver-timeout") g_solverTimeoutMs = atoi(nx().c_str());
    else if (a == "--dump") { auto d = nx(); solverDump(d, atoi(nx().c_str())); }
    else if (a == "--mem") o_maxMem = strtoull(nx().c_str(), 0, 0) << 20;
    else if (a == "-v") o_verbose = true;
    else if (a == "--trace") o_trace = true;
    else file = a;
  }
  SMDiagnostic err; M = parseIRFile(file, err, Ctx);
  if (!M) { err.print("sx", errs()); return 3; }
  DL = &M->getDataLayout();
  State* st = new State; st->id = 0; st->th.resize(1); st->model = std::make_shared<Model>(); S = st;
  st->th[0].vc[0] = 1;
  initMemory(); collectCtors();
  st->cur = 0; st->th[0].pend = P_None;
  fr = nullptr; nextMain();
  work.push_back(st); st = nullptr;
  bool split = false;
  uint64_t it = 0;
  while (!work.empty()) {
    if (now() - t0 > o_maxTime) { st_timeout = true; break; }
    if ((int)viols.size() >= o_maxViol) break;
    if ((++it & 63) == 0 && rssBytes() > o_maxMem) { st_timeout = true; g_unsupported["memory limit"]++; break; }
    if (o_jobs > 1 && !split && (int)work.size() >= o_jobs * 24) {
      split = true;
      std::vector<pid_t> kids;
      std::vector<State*> all(work.begin(), work.end());
      bool child = false;
      for (int j = 1; j < o_jobs; j++) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
          child = true; partNo = j; work.clear();
          for (size_t i = 0; i < all.size(); i++) if ((int)(i % o_jobs) == j) work.push_back(all[i]);
          st_paths = st_forks = st_insts = st_states = st_pruned = st_scheds = st_trans = st_asserts = st_assertQ = st_assumeKill = st_raceChecks = 0; st_samples = 0; sampleFiles.clear();
          g_ss = SolverStats(); for (auto* k : kfList) k->insts = 0; viols.clear();
          break;
        }
        kids.push_back(p);
      }
      if (!child) {
        work.clear(); for (size_t i = 0; i < all.size(); i++) if (i % o_jobs == 0) work.push_back(all[i]);
      }
      // run own share to completion
      while (!work.empty()) {
        if (now() - t0 > o_maxTime) { st_timeout = true; break; }
        if ((int)viols.size() >= o_maxViol) break;
        if ((++it & 63) == 0 && rssBytes() > o_maxMem) { st_timeout = true; g_unsupported["memory limit"]++; break; }
        State* s = work.back(); work.pop_back(); runState(s);
      }
      writeResult();
      if (child) _exit(0);
      for (pid_t p : kids) { int ws; waitpid(p, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws)) { std::ofstream f(o_outdir + "/" + o_name + ".crash"); f << "worker died\n"; } }
      fflush(nullptr); _exit(0);
    }
    State* s;
    if (o_jobs > 1 && !split) { s = work.front(); work.pop_front(); } else { s = work.back(); work.pop_back(); }
    runState(s);
  }
  writeResult();
  if (o_verbose) fprintf(stderr, "paths=%llu forks=%llu insts=%llu states=%llu pruned=%llu queries=%llu heavy=%llu solver=%.2fs wall=%.2fs viol=%zu\n", (unsigned long long)st_paths, (unsigned long long)st_forks, (unsigned long long)st_insts, (unsigned long long)st_states, (unsigned long long)st_pruned, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.heavy, g_ss.time, now() - t0, viols.size());
  if (o_verbose) {
    std::vector<std::pair<uint64_t, Instruction*>> v; for (auto& p : forkAt) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "  forks %8llu  solver %6.2fs  %s\n", (unsigned long long)v[i].first, timeAt[v[i].second], locOf(v[i].second).c_str());
    std::vector<std::pair<double, Instruction*>> u; for (auto& p : timeAt) u.push_back({p.second, p.first}); std::sort(u.rbegin(), u.rend());
    for (size_t i = 0; i < u.size() && i < 6; i++) fprintf(stderr, "  solver %6.2fs  %s\n", u[i].first, locOf(u[i].second).c_str());
  }
  fflush(nullptr); _exit(0);
}
