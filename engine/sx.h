// Core data structures of the symbolic executor.
#pragma once
#include <map>
#include <memory>
#include <set>
#include "expr.h"
#include "solver.h"

#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>

struct Val { uint64_t c; Expr* e; };

// ---------------------------------------------------------------- code
struct Leaf { uint32_t off; uint16_t w; };
struct Flat { std::vector<Leaf> l; uint64_t size; };

struct Arg { int32_t op; uint16_t n; uint16_t w; uint32_t byval; };
struct CallInfo {
  llvm::Function* fn = nullptr; int32_t calleeOp = 0; std::vector<Arg> args;
  int normal = -1, unwind = -1;            // block indices for invoke
  unsigned intrin = 0; int builtin = -1; unsigned nfixed = 0; bool resolved = false;
  struct KFunc* kf = nullptr;
};
struct GepInfo { int64_t off; std::vector<std::pair<int32_t, std::pair<uint64_t, unsigned>>> terms; };  // op,(scale,width)
struct Move { int32_t dst; int32_t src; };
struct Edge { int target; std::vector<Move> moves; };

struct KInst {
  uint16_t op; uint16_t w;      // llvm opcode; operand or result width (see decode)
  uint16_t w2; uint16_t pred; bool isAtomic = false, seqcst = false;
  int32_t dst; uint16_t ndst; uint32_t o[3];
  int32_t a = 0, b = 0, c = 0;
  const Flat* flat = nullptr;
  CallInfo* ci = nullptr; GepInfo* gi = nullptr;
  std::vector<Edge>* edges = nullptr;
  std::vector<std::pair<u128, int>>* cases = nullptr;
  llvm::Instruction* I = nullptr;
};
struct KFunc {
  llvm::Function* F; std::string name; unsigned nslots = 0;
  std::vector<KInst> code; std::vector<int> blockStart;
  std::vector<int> argSlot;
  uint64_t calls = 0, insts = 0; bool vararg = false;
  unsigned id = 0;
  // liveness for hashing
  std::map<int, std::vector<uint32_t>> live;
  std::unordered_map<const llvm::Value*, int> slotOf;
};

// ---------------------------------------------------------------- memory
struct SymB { Expr* e; uint32_t idx; };
enum ObjKind : uint8_t { O_Global, O_Stack, O_Malloc, O_New, O_NewArr, O_Exc };
static const int MAXT = 8;
struct Shadow { struct B { uint32_t w; uint32_t r[MAXT]; }; std::vector<B> b; };
struct Obj {
  int rc = 1; uint64_t base; uint64_t size; ObjKind kind; bool freed = false, ro = false, hashed = false;
  uint64_t hash = 0;
  std::vector<uint8_t> d; std::vector<SymB>* sy = nullptr; Shadow* sh = nullptr;
  std::string* tag = nullptr;
  ~Obj() { delete sy; delete sh; }
};
struct Chunk { int rc = 1; Obj* o[256]; uint16_t back[256]; };
static const int NREG = 3 + 2 * MAXT;
static inline unsigned regHeap(int t) { return 3 + t; }
static inline unsigned regStack(int t) { return 3 + MAXT + t; }

// ---------------------------------------------------------------- state
struct Frame {
  KFunc* f; int pc; int retDst; std::vector<Val> s; std::vector<uint64_t> allocas; uint64_t stackMark; uint64_t vaBase = 0;
  bool isCtor = false;
};
typedef std::shared_ptr<Frame> FrameP;
enum PendKind : uint8_t { P_None, P_Start, P_Lock, P_Wake, P_Op, P_Join, P_Guard };
struct Exc { uint64_t obj, ti; };
struct Thread {
  std::vector<FrameP> st; bool done = false, detached = false;
  PendKind pend = P_None; uint64_t pa = 0, pm = 0; bool signalled = false, timed = false, permit = false, timeoutFired = false, inWait = false; int wakeKind = 0;
  uint64_t deadline = 0;
  uint64_t heapNext = 1, stackNext = 1;
  std::vector<Exc> inflight; std::vector<Exc> caught;
  std::map<std::string, uint32_t> varCount;
  uint32_t vc[MAXT] = {0};
};
struct VC { uint32_t c[MAXT] = {0}; };
typedef std::shared_ptr<std::unordered_map<Expr*, Expr*>> EqsP;

struct State {
  uint64_t id;
  std::vector<Chunk*> reg[NREG];
  std::vector<Thread> th; int cur = 0;
  std::vector<Expr*> cs; ModelP model; EqsP eqs;
  std::map<uint64_t, int> mutexOwner; std::map<uint64_t, VC> syncVC;
  uint64_t time = 1000000000ull; int preempts = 0; int switches = 0;
  int64_t live[3] = {0, 0, 0};
  uint64_t globNext = 1; uint64_t picks = 0;
  std::vector<std::string> dec; std::vector<Val> obs; std::vector<std::pair<std::string, Expr*>> inputs;
  std::vector<std::pair<uint64_t, uint64_t>> atexits; bool exiting = false; int ctorIdx = 0;
  uint64_t insts = 0; uint64_t instLimit = 0;
  std::set<std::string> reached; std::map<uint64_t, uint64_t> kv;
  // hashing
  uint64_t memHash = 0; std::vector<uint64_t> dirty;
  State() {}
  State(const State& o);
  ~State();
};
