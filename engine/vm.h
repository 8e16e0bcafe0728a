// vsym virtual machine: concolic execution of LLVM bitcode with path constraints.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Val { uint64_t c; E e; };

struct Obj {
  uint8_t* data = nullptr;
  E* sh = nullptr;          // per-byte symbolic shadow (8-bit expressions)
  uint8_t* und = nullptr;   // per-byte "never written" flags
  uint64_t size = 0;
  uint32_t undCount = 0;
  uint8_t kind = 0;         // 0 global 1 heap 2 stack
  uint8_t sub = 0;          // heap: 0 malloc 1 new 2 new[]
  bool alive = false, readonly = false, cow = false;
  const char* name = nullptr;
};

struct Edge { int32_t target; std::vector<std::pair<int32_t, int32_t>> copies; };
struct Leaf { uint32_t off, width, bytes; };
struct GepTerm { int32_t op; int64_t scale; unsigned w; };
struct DFunc;
typedef void (*Intr)(struct VM&, struct Ins&, Val* args, unsigned n, Val* res);
struct CallInfo {
  const llvm::CallBase* cb = nullptr;
  DFunc* direct = nullptr;
  std::vector<int32_t> args;       // operand slots, flattened
  std::vector<unsigned> widths;    // per flattened arg
  std::vector<unsigned> argSlots;  // number of slots per arg
  std::vector<uint64_t> byval;     // size for byval args, else 0 (per flattened arg)
  unsigned resSlots = 0, resW = 0;
  Edge *normal = nullptr, *unwind = nullptr;
  const llvm::LandingPadInst* lp = nullptr;
};
struct Ins {
  uint16_t op = 0;
  uint16_t w = 0, w2 = 0;
  uint16_t sub = 0;
  int32_t dst = -1, a = 0, b = 0, c = 0;
  uint64_t imm = 0;
  void* p = nullptr;
  const llvm::Instruction* I = nullptr;
};
struct DFunc {
  const llvm::Function* F = nullptr;
  std::string name;
  Intr intr = nullptr;
  bool decoded = false, used = false, retSym = false, world = false;
  uint32_t nslots = 0, nargs = 0;
  uint64_t addr = 0;
  std::vector<Ins> code;
  std::vector<Val> consts;
  std::vector<unsigned> argW;
};
struct Frame {
  DFunc* f;
  uint32_t ip;
  uint32_t base;
  int32_t retDst;
  CallInfo* ci;          // call site in the caller
  uint64_t varArea = 0;
  std::vector<uint32_t> allocas;
};
struct ExcInfo { uint64_t obj, tinfo, dtor; };
struct Thread {
  std::vector<Frame> frames;
  std::vector<Val> stk;
  uint64_t id = 0;
  int state = 0;         // 0 runnable 1 blocked on mutex 2 blocked on cond 3 blocked on join 4 done 5: woken from cond, needs mutex
  uint64_t waitOn = 0, waitMutex = 0;
  bool timedWait = false, timedOut = false; uint32_t nTimeouts = 0;
  std::vector<uint64_t> caught;
  bool resumeLock = false;
  std::vector<uint32_t> vc;
};
struct Mutex { int64_t owner = -1; uint32_t count = 0; std::vector<uint32_t> vc; };

struct Item { int32_t d = -1; std::vector<uint64_t> excl; std::vector<std::pair<uint32_t, u128>> model; };

struct Violation { std::string kind, msg, stack; std::vector<std::pair<std::string, u128>> model; std::vector<unsigned> widths; bool usesInternal = false; };

struct PathEnd { std::string why; };

struct VM {
  llvm::Module* M = nullptr;
  const llvm::DataLayout* DL = nullptr;
  Solver solver;
  std::vector<Obj> objs;
  std::vector<Obj> baseObjs;
  std::vector<uint32_t> runAllocs;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<const llvm::Function*, DFunc*> dfuncs;
  std::vector<DFunc*> funcByIdx;
  std::unordered_map<uint64_t, std::vector<uint64_t>> tiParents;
  std::unordered_map<uint64_t, std::string> tiName;
  std::map<uint64_t, int> typeIds;
  // run state
  Model model;
  PathCond pc;
  std::deque<Thread> threads;
  std::deque<Thread> baseThreads;
  uint32_t cur = 0;
  Item item;
  int32_t ndec = 0;
  std::vector<Item> out;                 // new work items
  std::unordered_map<std::string, uint32_t> symCount;
  std::unordered_map<std::string, uint32_t> varIdx;
  std::vector<uint32_t> runVars;
  std::vector<ExcInfo> excs;
  std::unordered_map<uint64_t, Mutex> mutexes;
  uint64_t steps = 0, stepLimit = 50000000, memUsed = 0, memLimit = 2000ull << 20, allocLimit = 256ull << 20;
  bool initPhase = true;
  const volatile int* abortFlag = nullptr; // set when time is up: paths under way are given up (and reported)
  bool selfCheck = false;
  unsigned iteLoadMax = 1024, iteStoreMax = 64;
  unsigned preemptBound = 100, preempts = 0;
  uint64_t schedPoints = 0;
  bool raceCheck = false;
  std::unordered_map<uint64_t, uint64_t> clk;
  std::unordered_map<std::string, uint64_t> opts;
  std::string entry;
  // totals
  uint64_t totSteps = 0, paths = 0, pathsCut = 0, asserts = 0, assertQueries = 0, boundsQueries = 0, inconclusive = 0;
  std::set<std::string> reached, inconcl;
  std::vector<std::string> pathReach;
  bool completed = false;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::unordered_map<uint64_t, uint32_t> raceW;
  struct RaceState { uint32_t wt = 0, wc = 0; std::vector<uint32_t> rc; };
  std::map<std::pair<uint32_t, uint64_t>, uint64_t> tlsOf;
  std::unordered_map<uint64_t, RaceState> races;
  std::unordered_map<uint64_t, std::vector<uint32_t>> syncVC;

  void load(llvm::Module* m);
  void initGlobals();
  void runInit();
  void runItem(const Item& it);
  void runFrom(DFunc* f);
  void loop(size_t stopDepth);
  // decode
  DFunc* getFunc(const llvm::Function* F);
  void decode(DFunc* f);
  void constVals(const llvm::Constant* c, std::vector<Val>& out);
  uint64_t constAddr(const llvm::Constant* c);
  void writeInit(uint64_t addr, const llvm::Constant* c);
  void invokeFn(DFunc* f, CallInfo* ci, const Val* args, unsigned n, int32_t dst);
  void pushFrame(Thread& t, DFunc* f, const Val* args, unsigned n);
  // memory
  uint64_t alloc(uint64_t size, uint8_t kind, bool undef, const char* name, uint8_t sub = 0);
  void freeObj(uint64_t addr, const char* how, int sub);
  Obj* find(uint64_t addr, uint64_t n, bool write, uint64_t& off);
  Obj& own(uint32_t id);
  Val load(const Val& addr, unsigned w);
  void store(const Val& addr, const Val& v, unsigned w);
  Val loadAt(Obj* o, uint64_t off, unsigned w);
  void storeAt(Obj* o, uint64_t off, const Val& v, unsigned w);
  E byteE(Obj* o, uint64_t off);
  void copyMem(uint64_t d, uint64_t s, uint64_t n);
  void setMem(uint64_t d, const Val& v, uint64_t n);
  std::string cstr(uint64_t addr);
  void wr(uint64_t addr, uint64_t v, unsigned bytes);
  uint64_t rd(uint64_t addr, unsigned bytes);
  void memError(const char* kind, uint64_t addr, uint64_t n);
  void raceAccess(uint64_t addr, uint64_t n, bool write, bool atomic);
  // symbolic
  E newVar(const std::string& name, unsigned w, bool internal);
  u128 varVal(E v);
  bool branch(const Val& v);
  void assume(const Val& v);
  void assertV(const Val& v, const std::string& kind, const std::string& msg);
  uint64_t concretize(const Val& v, unsigned w);
  uint32_t choose(uint32_t n, const char* name);
  void pushItem(const Model& m, int32_t d, std::vector<uint64_t> excl);
  bool fresh() const { return ndec - 1 >= item.d; }
  [[noreturn]] void violate(const std::string& kind, const std::string& msg);
  void recordViolation(const std::string& kind, const std::string& msg, const Model& m);
  [[noreturn]] void unsupported(const std::string& what);
  std::string stackStr();
  Thread& T() { return threads[cur]; }
  E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  Val fromE(E e, uint64_t c) { return e->isConst() ? Val{(uint64_t)e->val, nullptr} : Val{c, e}; }
  Val mk(E e) { // concrete part from the model
    if (e->isConst() && e->width <= 64) return Val{(uint64_t)e->val, nullptr};
    return Val{(uint64_t)evalExpr(e, model), e};
  }
  bool noResult = false;
  // exceptions
  void throwExc(uint64_t obj);
  bool tiMatch(uint64_t thrown, uint64_t caught);
  // threads
  void schedPoint(bool mustSwitch = false, bool yield = false);
  void blockOn(int state, uint64_t what);
  bool enabled(Thread& t);
  void goEdge(Frame& fr, Edge* e);
  void ret(const Val* vals, unsigned n);
};
extern VM vm;
void registerIntrinsics();
Intr findIntrinsic(const std::string& name);
