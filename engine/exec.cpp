#include "vm.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Operator.h>
#include <cmath>
#include <cstdio>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

enum { X_LOADN = 200, X_STOREN, X_BRC, X_UNSUP, X_MOVE, X_GEPC };
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static const uint64_t OFF0 = 0x10000;

static Val binop(VM& vm, unsigned opc, const Val& a, const Val& b, unsigned w) {
  static const Op map[] = {OP_ADD};
  (void)map;
  Op op; 
  switch (opc) {
    case Instruction::Add: op = OP_ADD; break; case Instruction::Sub: op = OP_SUB; break; case Instruction::Mul: op = OP_MUL; break;
    case Instruction::UDiv: op = OP_UDIV; break; case Instruction::SDiv: op = OP_SDIV; break; case Instruction::URem: op = OP_UREM; break; case Instruction::SRem: op = OP_SREM; break;
    case Instruction::And: op = OP_AND; break; case Instruction::Or: op = OP_OR; break; case Instruction::Xor: op = OP_XOR; break;
    case Instruction::Shl: op = OP_SHL; break; case Instruction::LShr: op = OP_LSHR; break; case Instruction::AShr: op = OP_ASHR; break;
    case Instruction::FAdd: op = OP_FADD; break; case Instruction::FSub: op = OP_FSUB; break; case Instruction::FMul: op = OP_FMUL; break; case Instruction::FDiv: op = OP_FDIV; break;
    default: vm.unsupported("binary operator");
  }
  if (op == OP_UDIV || op == OP_SDIV || op == OP_UREM || op == OP_SREM) {
    if (b.e && w <= 64) { E z = mkEq(b.e, mkConst(0, w)); if (!z->isConst()) vm.branch(Val{(uint64_t)((b.c & m64(w)) == 0), z}); }
    if (w <= 64 && (b.c & m64(w)) == 0) vm.violate("arith", "division by zero");
  }
  if (!a.e && !b.e) return Val{(uint64_t)evalOp(op, w, 0, a.c, w, b.c, 0), nullptr};
  E e = (op >= OP_FADD) ? mkFBin(op, vm.toE(a, w), vm.toE(b, w)) : mkBin(op, vm.toE(a, w), vm.toE(b, w));
  if (w > 64) return Val{0, e};
  if (e->isConst()) return Val{(uint64_t)e->val, nullptr};
  return Val{(uint64_t)evalOp(op, w, 0, a.c, w, b.c, 0), e};
}
static inline Val binFast(VM& vm, unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = m64(w);
    switch (opc) {
      case Instruction::Add: return {(a.c + b.c) & m, nullptr};
      case Instruction::Sub: return {(a.c - b.c) & m, nullptr};
      case Instruction::Mul: return {(a.c * b.c) & m, nullptr};
      case Instruction::And: return {a.c & b.c, nullptr};
      case Instruction::Or: return {a.c | b.c, nullptr};
      case Instruction::Xor: return {a.c ^ b.c, nullptr};
      case Instruction::Shl: return {b.c >= w ? 0 : (a.c << b.c) & m, nullptr};
      case Instruction::LShr: return {b.c >= w ? 0 : a.c >> b.c, nullptr};
      default: break;
    }
  }
  return binop(vm, opc, a, b, w);
}
static Val icmp(VM& vm, unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    int64_t x = sx64(a.c, w), y = sx64(b.c, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return {a.c == b.c, nullptr}; case CmpInst::ICMP_NE: return {a.c != b.c, nullptr};
      case CmpInst::ICMP_ULT: return {a.c < b.c, nullptr}; case CmpInst::ICMP_ULE: return {a.c <= b.c, nullptr};
      case CmpInst::ICMP_UGT: return {a.c > b.c, nullptr}; case CmpInst::ICMP_UGE: return {a.c >= b.c, nullptr};
      case CmpInst::ICMP_SLT: return {x < y, nullptr}; case CmpInst::ICMP_SLE: return {x <= y, nullptr};
      case CmpInst::ICMP_SGT: return {x > y, nullptr}; case CmpInst::ICMP_SGE: return {x >= y, nullptr};
    }
  }
  E x = vm.toE(a, w), y = vm.toE(b, w), e;
  switch (pred) {
    case CmpInst::ICMP_EQ: e = mkEq(x, y); break; case CmpInst::ICMP_NE: e = mkNot(mkEq(x, y)); break;
    case CmpInst::ICMP_ULT: e = mkCmp(OP_ULT, x, y); break; case CmpInst::ICMP_ULE: e = mkCmp(OP_ULE, x, y); break;
    case CmpInst::ICMP_UGT: e = mkCmp(OP_ULT, y, x); break; case CmpInst::ICMP_UGE: e = mkCmp(OP_ULE, y, x); break;
    case CmpInst::ICMP_SLT: e = mkCmp(OP_SLT, x, y); break; case CmpInst::ICMP_SLE: e = mkCmp(OP_SLE, x, y); break;
    case CmpInst::ICMP_SGT: e = mkCmp(OP_SLT, y, x); break; default: e = mkCmp(OP_SLE, y, x); break;
  }
  if (e->isConst()) return {(uint64_t)e->val, nullptr};
  if (w > 64) return vm.mk(e);
  uint64_t c;
  int64_t p = sx64(a.c, w), q = sx64(b.c, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: c = a.c == b.c; break; case CmpInst::ICMP_NE: c = a.c != b.c; break;
    case CmpInst::ICMP_ULT: c = a.c < b.c; break; case CmpInst::ICMP_ULE: c = a.c <= b.c; break;
    case CmpInst::ICMP_UGT: c = a.c > b.c; break; case CmpInst::ICMP_UGE: c = a.c >= b.c; break;
    case CmpInst::ICMP_SLT: c = p < q; break; case CmpInst::ICMP_SLE: c = p <= q; break;
    case CmpInst::ICMP_SGT: c = p > q; break; default: c = p >= q; break;
  }
  return {c, e};
}
static E fpNaN(E a) { unsigned w = a->width, mant = w == 64 ? 52 : 23; E mag = mkExtract(a, 0, w - 1); u128 inf = maskw(w - 1) ^ maskw(mant); return mkNot(mkCmp(OP_ULE, mag, mkConst(inf, w - 1))); }
static Val fcmp(VM& vm, unsigned pred, const Val& a, const Val& b, unsigned w) {
  E x = vm.toE(a, w), y = vm.toE(b, w), e;
  E uno = mkBOr(fpNaN(x), fpNaN(y));
  switch (pred & 7) { // low three bits: oeq=1 ogt=2 oge=3 olt=4 ole=5 one=6 ord=7, +8 unordered
    case 0: e = mkFalse(); break;
    case 1: e = mkFBin(OP_FEQ, x, y); break;
    case 2: e = mkFBin(OP_FLT, y, x); break;
    case 3: e = mkFBin(OP_FLE, y, x); break;
    case 4: e = mkFBin(OP_FLT, x, y); break;
    case 5: e = mkFBin(OP_FLE, x, y); break;
    case 6: e = mkBAnd(mkNot(uno), mkNot(mkFBin(OP_FEQ, x, y))); break;
    default: e = mkNot(uno); break;
  }
  if (pred & 8) { if (pred == 15) e = mkTrue(); else if (pred == 8) e = uno; else e = mkBOr(uno, e); }
  return vm.mk(e);
}
static Val cast1(VM& vm, unsigned opc, const Val& a, unsigned from, unsigned to) {
  switch (opc) {
    case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: {
      if (!a.e && to <= 64) return {a.c & m64(to), nullptr};
      E e = vm.toE(a, from);
      e = to < from ? mkExtract(e, 0, to) : mkZExt(e, to);
      if (to > 64) return {0, e};
      if (e->isConst()) return {(uint64_t)e->val, nullptr};
      if (from > 64) return vm.mk(e);
      return {a.c & m64(to), e};
    }
    case Instruction::SExt: {
      if (!a.e && to <= 64) return {(uint64_t)sx64(a.c, from) & m64(to), nullptr};
      E e = mkSExt(vm.toE(a, from), to);
      if (to > 64) return {0, e};
      if (e->isConst()) return {(uint64_t)e->val, nullptr};
      return {(uint64_t)sx64(a.c, from) & m64(to), e};
    }
    default: {
      Op op; 
      switch (opc) { case Instruction::FPToUI: op = OP_FPTOUI; break; case Instruction::FPToSI: op = OP_FPTOSI; break; case Instruction::UIToFP: op = OP_UITOFP; break; case Instruction::SIToFP: op = OP_SITOFP; break; case Instruction::FPExt: op = OP_FPEXT; break; case Instruction::FPTrunc: op = OP_FPTRUNC; break; default: vm.unsupported("cast"); }
      if (from > 64 || to > 64) vm.unsupported("wide fp cast");
      if (!a.e) return {(uint64_t)evalOp(op, to, 0, a.c, from, 0, 0), nullptr};
      return vm.mk(mkFUn(op, a.e, to));
    }
  }
}
static Val selectV(VM& vm, const Val& c, const Val& a, const Val& b, unsigned w) {
  if (!c.e) return (c.c & 1) ? a : b;
  E e = mkIte(c.e, vm.toE(a, w), vm.toE(b, w));
  if (w > 64) return {0, e};
  if (e->isConst()) return {(uint64_t)e->val, nullptr};
  return {(c.c & 1) ? a.c : b.c, e};
}

void VM::pushFrame(Thread& t, DFunc* f, const Val* args, unsigned n) {
  if (!f->decoded) { if (f->F->isDeclaration()) unsupported("call of undefined function " + f->name); decode(f); }
  if (!f->used) f->used = true;
  if (t.frames.size() > 400) violate("abort", "stack overflow: call depth above 400");
  uint32_t base = t.frames.empty() ? 0 : t.frames.back().base + t.frames.back().f->nslots;
  if (t.stk.size() < base + f->nslots + 16) t.stk.resize((base + f->nslots + 16) * 2);
  Frame fr; fr.f = f; fr.ip = 0; fr.base = base; fr.retDst = -1; fr.ci = nullptr;
  for (unsigned i = 0; i < f->nargs && i < n; ++i) t.stk[base + i] = args[i];
  for (unsigned i = n; i < f->nargs; ++i) t.stk[base + i] = Val{0, nullptr};
  t.frames.push_back(std::move(fr));
}
void VM::goEdge(Frame& fr, Edge* e) {
  auto& cp = e->copies;
  Val* S = &T().stk[fr.base];
  auto& C = fr.f->consts;
  if (cp.size() == 1) { auto& c = cp[0]; S[c.first] = c.second >= 0 ? S[c.second] : C[-1 - c.second]; }
  else if (!cp.empty()) {
    static Val tmp[4096];
    for (size_t i = 0; i < cp.size(); ++i) tmp[i] = cp[i].second >= 0 ? S[cp[i].second] : C[-1 - cp[i].second];
    for (size_t i = 0; i < cp.size(); ++i) S[cp[i].first] = tmp[i];
  }
  fr.ip = e->target;
}
static void dropFrame(VM& vm, Thread& t) {
  for (uint32_t id : t.frames.back().allocas) { Obj& o = vm.objs[id]; vm.memUsed -= o.size; free(o.data); free(o.sh); free(o.und); o.data = nullptr; o.sh = nullptr; o.und = nullptr; o.alive = false; }
  t.frames.pop_back();
}
void VM::ret(const Val* vals, unsigned n) {
  Thread& t = T();
  CallInfo* ci = t.frames.back().ci; int32_t dst = t.frames.back().retDst;
  Val tmp[64];
  for (unsigned i = 0; i < n && i < 64; ++i) tmp[i] = vals[i];
  dropFrame(*this, t);
  if (t.frames.empty()) return;
  Frame& c = t.frames.back();
  if (dst >= 0) for (unsigned i = 0; i < n; ++i) t.stk[c.base + dst + i] = tmp[i];
  if (ci && ci->normal) goEdge(c, ci->normal);
}
bool VM::tiMatch(uint64_t thrown, uint64_t caught) {
  if (thrown == caught) return true;
  auto a = tiName.find(thrown), b = tiName.find(caught);
  if (a != tiName.end() && b != tiName.end() && a->second == b->second) return true;
  auto it = tiParents.find(thrown);
  if (it != tiParents.end()) for (uint64_t p : it->second) if (tiMatch(p, caught)) return true;
  return false;
}
static int typeId(VM& vm, uint64_t ti) { auto it = vm.typeIds.find(ti); if (it != vm.typeIds.end()) return it->second; int k = vm.typeIds.size() + 1; vm.typeIds[ti] = k; return k; }
int typeIdOf(VM& vm, uint64_t ti) { return typeId(vm, ti); }

static uint64_t gExcObj; static uint64_t gExcSel;
void VM::throwExc(uint64_t obj) {
  ExcInfo* ei = nullptr; for (auto& x : excs) if (x.obj == obj) ei = &x;
  if (!ei) unsupported("foreign exception");
  Thread& t = T();
  auto match = [&](const LandingPadInst* lp, int& sel) -> int { // 0 none 1 cleanup 2 catch
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
      if (lp->isCatch(i)) {
        Constant* c = lp->getClause(i);
        if (isa<ConstantPointerNull>(c)) { sel = typeId(*this, 0); return 2; }
        uint64_t a = constAddr(c);
        if (tiMatch(ei->tinfo, a)) { sel = typeId(*this, a); return 2; }
      } else { // filter
        auto* arr = dyn_cast<ConstantArray>(lp->getClause(i)); bool ok = false;
        if (arr) for (auto& o : arr->operands()) if (tiMatch(ei->tinfo, constAddr(cast<Constant>(o)))) ok = true;
        if (!ok) { sel = -1; return 2; }
      }
    }
    return lp->isCleanup() ? 1 : 0;
  };
  bool caught = false; int sel = 0;
  for (size_t i = t.frames.size(); i-- > 0 && !caught;) {
    Frame& fr = t.frames[i];
    if (!fr.ip) continue;
    Ins& ins = fr.f->code[fr.ip - 1];
    if (ins.op != Instruction::Call) continue;
    auto* ci = (CallInfo*)ins.p;
    if (ci->lp && match(ci->lp, sel) == 2) caught = true;
  }
  if (!caught) {
    auto n = tiName.find(ei->tinfo);
    violate("abort", "uncaught exception " + (n == tiName.end() ? std::string("?") : n->second));
  }
  for (;;) {
    Frame& fr = t.frames.back();
    Ins& ins = fr.f->code[fr.ip - 1];
    if (ins.op == Instruction::Call && ((CallInfo*)ins.p)->lp) {
      auto* ci = (CallInfo*)ins.p; sel = 0;
      int m = match(ci->lp, sel);
      if (m) { gExcObj = obj; gExcSel = m == 2 ? (uint32_t)sel : 0; goEdge(fr, ci->unwind); return; }
    }
    dropFrame(*this, t);
  }
}

// ---------------------------------------------------------------- threads
bool VM::enabled(Thread& t) {
  switch (t.state) {
    case 0: return true;
    case 1: { auto& m = mutexes[t.waitOn]; return m.owner < 0; }
    case 2: return false;
    case 5: return mutexes[t.waitMutex].owner < 0;
    case 3: return threads[t.waitOn].state == 4;
    default: return false;
  }
}
struct Switched {};
// Called by a synchronisation operation before it takes effect; may throw Switched after moving to another thread.
void VM::schedPoint(bool must, bool yield) {
  if (threads.size() <= 1 && !must) return;
  Thread& me = T();
  if (me.resumeLock && !must) { me.resumeLock = false; return; }
  ++schedPoints; static bool dbg = getenv("VSYM_SCHED"); if (dbg) fprintf(stderr, "[sched] t%u %s\n", cur, stackStr().substr(0, 200).c_str());
  // A timed wait runs out for free only when nothing else can run; otherwise it costs a preemption.
  auto timeoutable = [&](Thread& t) { return t.state == 2 && t.timedWait && mutexes[t.waitMutex].owner < 0; };
  std::vector<uint32_t> cand;
  bool selfOk = enabled(me), left = preempts < preemptBound;
  if (selfOk) cand.push_back(cur);
  if (!selfOk || left) for (uint32_t i = 0; i < threads.size(); ++i) if (i != cur && enabled(threads[i])) cand.push_back(i);
  // a sleeping thread lets any other go on, for free
  if (yield) { cand.clear(); for (uint32_t i = 0; i < threads.size(); ++i) if (i != cur && enabled(threads[i])) cand.push_back(i); if (cand.empty()) cand.push_back(cur); }
  size_t freeCand = cand.size();
  if (!freeCand) { // nothing else can run: the wait that has run out least often goes first
    uint32_t least = ~0u; for (auto& t : threads) if (timeoutable(t)) least = std::min(least, t.nTimeouts);
    for (uint32_t i = 0; i < threads.size(); ++i) if (timeoutable(threads[i]) && threads[i].nTimeouts == least) cand.push_back(i);
    freeCand = cand.size();
    if (left) for (uint32_t i = 0; i < threads.size(); ++i) if (timeoutable(threads[i]) && threads[i].nTimeouts != least) cand.push_back(i);
  } else if (left) for (uint32_t i = 0; i < threads.size(); ++i) if (timeoutable(threads[i])) cand.push_back(i);
  if (cand.empty()) violate("deadlock", "deadlock: every thread waits");
  uint32_t k = choose(cand.size(), "sched");
  uint32_t nx = cand[k];
  if (nx == cur && !must) return;
  if ((selfOk && !yield && nx != cur) || k >= freeCand) ++preempts;
  if (threads[nx].state == 2) ++threads[nx].nTimeouts;
  if (!me.frames.empty() && me.state != 4) { me.frames.back().ip--; me.resumeLock = true; }
  cur = nx;
  throw Switched{};
}
void VM::blockOn(int state, uint64_t what) {
  Thread& me = T();
  me.state = state; me.waitOn = what;
  schedPoint(true);
}
// happens-before race detection on plain accesses (enabled per harness)
void VM::raceAccess(uint64_t addr, uint64_t n, bool write, bool atomic) {
  if (threads.size() <= 1) return;
  Thread& t = T();
  for (size_t i = t.frames.size(), k = 0; i-- > 0 && k < 8; ++k) if (t.frames[i].f->world) return; // inside a stand-in for the operating system
  if (t.vc.size() < threads.size()) t.vc.resize(threads.size());
  for (uint64_t i = 0; i < n; i += 1) {
    RaceState& r = races[addr + i];
    if (r.wc && r.wt != cur && (t.vc.size() <= r.wt || t.vc[r.wt] < r.wc)) violate("race", write ? "data race: unsynchronised write/write" : "data race: unsynchronised write/read");
    if (write) {
      for (uint32_t k = 0; k < r.rc.size(); ++k) if (k != cur && r.rc[k] && t.vc[k] < r.rc[k]) violate("race", "data race: unsynchronised read/write");
      r.wt = cur; r.wc = t.vc[cur]; r.rc.clear();
    } else { if (r.rc.size() <= cur) r.rc.resize(cur + 1); r.rc[cur] = t.vc[cur]; }
    if (n > 64 && i > 64) break;
  }
}

void VM::invokeFn(DFunc* f, CallInfo* ci, const Val* args, unsigned n, int32_t dst) {}

void VM::loop(size_t stopDepth) {
  Thread* tp; Frame* fp; Val* S; const Val* C; const Ins* code;
#define RELOAD() do { tp = &threads[cur]; if (tp->frames.empty()) goto threadEnd; fp = &tp->frames.back(); S = &tp->stk[fp->base]; C = fp->f->consts.data(); code = fp->f->code.data(); } while (0)
#define G(op) ((op) >= 0 ? S[op] : C[-1 - (op)])
reload:
  RELOAD();
  for (;;) {
    const Ins& x = code[fp->ip++];
    if ((++steps & 0xffff) == 0 && abortFlag && *abortFlag == 1) throw PathEnd{"stopped"};
    if (steps > stepLimit) { violate("hang", "more than " + std::to_string(stepLimit) + " instructions on one path"); }
    switch (x.op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        if (x.w2 == 1) { S[x.dst] = binFast(*this, x.op, G(x.a), G(x.b), x.w); }
        else for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i, b = x.b >= 0 ? x.b + i : x.b - (int)i; S[x.dst + i] = binop(*this, x.op, G(a), G(b), x.w); }
        break;
      case Instruction::FRem: { Val a = G(x.a), b = G(x.b); if (a.e || b.e || x.w2 != 1) unsupported("frem"); double p, q; if (x.w == 64) { memcpy(&p, &a.c, 8); memcpy(&q, &b.c, 8); double r = fmod(p, q); uint64_t u; memcpy(&u, &r, 8); S[x.dst] = {u, nullptr}; } else unsupported("frem32"); break; }
      case Instruction::FNeg: for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; S[x.dst + i] = binop(*this, Instruction::Xor, G(a), Val{1ull << (x.w - 1), nullptr}, x.w); } break;
      case Instruction::ICmp: for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i, b = x.b >= 0 ? x.b + i : x.b - (int)i; S[x.dst + i] = icmp(*this, x.sub, G(a), G(b), x.w); } break;
      case Instruction::FCmp: for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i, b = x.b >= 0 ? x.b + i : x.b - (int)i; S[x.dst + i] = fcmp(*this, x.sub, G(a), G(b), x.w); } break;
      case Instruction::Select:
        for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i, b = x.b >= 0 ? x.b + i : x.b - (int)i; int32_t c = x.sub ? (x.c >= 0 ? x.c + i : x.c - (int)i) : x.c;
          unsigned w = x.w; if (!w) { Val cv = G(c); if (cv.e) { bool t = branch(cv); S[x.dst + i] = t ? G(a) : G(b); } else S[x.dst + i] = (cv.c & 1) ? G(a) : G(b); }
          else S[x.dst + i] = selectV(*this, G(c), G(a), G(b), w); }
        break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; S[x.dst + i] = cast1(*this, x.op, G(a), x.sub, x.w); }
        break;
      case Instruction::BitCast: { // vectors
        E e = nullptr; unsigned fw = x.sub, fn = x.imm; bool sym = false;
        if (fw * fn > 128) unsupported("wide vector bitcast");
        u128 cv = 0;
        for (unsigned i = 0; i < fn; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; const Val& v = G(a); sym |= v.e != nullptr; }
        if (!sym) { for (unsigned i = 0; i < fn; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; cv |= (u128)G(a).c << (i * fw); }
          e = mkConst(cv, fw * fn); }
        else for (unsigned i = 0; i < fn; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; E v = toE(G(a), fw); e = e ? mkConcat(v, e) : v; }
        for (unsigned i = 0; i < x.w2; ++i) S[x.dst + i] = mk(mkExtract(e, i * x.w, x.w));
        break; }
      case X_MOVE: for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; S[x.dst + i] = G(a); } break;
      case Instruction::InsertValue: for (unsigned i = 0; i < x.sub; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; S[x.dst + i] = G(a); } for (unsigned i = 0; i < x.w2; ++i) { int32_t b = x.b >= 0 ? x.b + i : x.b - (int)i; S[x.dst + x.imm + i] = G(b); } break;
      case Instruction::ExtractElement: { uint64_t k = concretize(G(x.b), x.imm); if (k >= x.sub) unsupported("extractelement"); int32_t a = x.a >= 0 ? x.a + (int)k : x.a - (int)k; S[x.dst] = G(a); break; }
      case Instruction::InsertElement: { uint64_t k = concretize(G(x.c), x.imm); Val v = G(x.b); for (unsigned i = 0; i < x.w2; ++i) { int32_t a = x.a >= 0 ? x.a + i : x.a - (int)i; Val t = G(a); S[x.dst + i] = i == k ? v : t; } break; }
      case Instruction::ShuffleVector: { auto& mask = *(std::vector<int>*)x.p; Val tmp[64]; for (unsigned i = 0; i < mask.size(); ++i) { int m = mask[i]; if (m < 0) { tmp[i] = {0, nullptr}; continue; } int32_t a = m < x.sub ? (x.a >= 0 ? x.a + m : x.a - m) : (x.b >= 0 ? x.b + (m - x.sub) : x.b - (m - (int)x.sub)); tmp[i] = G(a); } for (unsigned i = 0; i < mask.size(); ++i) S[x.dst + i] = tmp[i]; break; }
      case X_GEPC: { const Val& a = G(x.a); if (!a.e) S[x.dst] = {a.c + x.imm, nullptr}; else { E e = mkBin(OP_ADD, a.e, mkConst(x.imm, 64)); S[x.dst] = fromE(e, a.c + x.imm); } break; }
      case Instruction::GetElementPtr: {
        Val r = G(x.a); r.c += x.imm; if (r.e) r.e = mkBin(OP_ADD, r.e, mkConst(x.imm, 64));
        for (auto& t : *(std::vector<GepTerm>*)x.p) {
          const Val& i = G(t.op);
          uint64_t ci = (uint64_t)(sx64(i.c, t.w) * t.scale);
          if (i.e) { E e = i.e; if (t.w < 64) e = mkSExt(e, 64); else if (t.w > 64) e = mkExtract(e, 0, 64); e = mkBin(OP_MUL, e, mkConst((uint64_t)t.scale, 64)); r.e = mkBin(OP_ADD, toE(r, 64), e); r.c += ci; }
          else { if (r.e) r.e = mkBin(OP_ADD, r.e, mkConst(ci, 64)); r.c += ci; }
        }
        if (r.e && r.e->isConst()) r = Val{(uint64_t)r.e->val, nullptr};
        S[x.dst] = r; break; }
      case Instruction::Alloca: {
        Val n = G(x.a); uint64_t k = n.e ? concretize(n, x.b) : n.c;
        uint64_t a = alloc(x.imm * k, 2, true, fp->f->name.c_str());
        fp->allocas.push_back(a >> 32); S[x.dst] = {a, nullptr}; break; }
      case Instruction::Load:
        if (x.sub && threads.size() > 1) { try { schedPoint(); } catch (Switched&) { goto reload; } bool rc = raceCheck; raceCheck = false; Val v = load(G(x.a), x.w); raceCheck = rc;
          if (rc) { auto& sv = syncVC[G(x.a).c]; auto& tv = T().vc; if (tv.size() < sv.size()) tv.resize(sv.size()); for (size_t i = 0; i < sv.size(); ++i) tv[i] = std::max(tv[i], sv[i]); }
          S[x.dst] = v; break; }
        S[x.dst] = load(G(x.a), x.w); break;
      case Instruction::Store:
        if (x.sub && threads.size() > 1) { try { schedPoint(); } catch (Switched&) { goto reload; } bool rc = raceCheck; raceCheck = false; store(G(x.a), G(x.b), x.w); raceCheck = rc;
          if (rc) { auto& sv = syncVC[G(x.a).c]; auto& tv = T().vc; if (sv.size() < tv.size()) sv.resize(tv.size()); for (size_t i = 0; i < tv.size(); ++i) sv[i] = std::max(sv[i], tv[i]); if (tv.size() <= cur) tv.resize(cur + 1); ++tv[cur]; }
          break; }
        store(G(x.a), G(x.b), x.w); break;
      case X_LOADN: { Val a = G(x.a); auto& lf = *(std::vector<Leaf>*)x.p; if (a.e) a = Val{concretize(a, 64), nullptr}; for (size_t i = 0; i < lf.size(); ++i) S[x.dst + i] = load(Val{a.c + lf[i].off, nullptr}, lf[i].width); break; }
      case X_STOREN: { Val a = G(x.a); auto& lf = *(std::vector<Leaf>*)x.p; if (a.e) a = Val{concretize(a, 64), nullptr}; for (size_t i = 0; i < lf.size(); ++i) { int32_t b = x.b >= 0 ? x.b + (int)i : x.b - (int)i; store(Val{a.c + lf[i].off, nullptr}, G(b), lf[i].width); } break; }
      case Instruction::Br: goEdge(*fp, (Edge*)x.p); break;
      case X_BRC: { const Val& c = G(x.a); bool t = c.e ? branch(c) : (c.c & 1); goEdge(*fp, ((Edge**)x.p)[t ? 0 : 1]); break; }
      case Instruction::Switch: {
        struct Sw { std::vector<std::pair<uint64_t, int>> cases; std::vector<Edge*> edges; };
        auto* sw = (Sw*)x.p; Val v = G(x.a); int tgt = 0;
        for (auto& c : sw->cases) if (c.first == v.c) { tgt = c.second; break; }
        if (v.e) {
          std::vector<E> cond(sw->edges.size(), mkFalse()); E none = mkTrue();
          for (auto& c : sw->cases) { E q = mkEq(v.e, mkConst(c.first, x.w)); if (c.second != 0) cond[c.second] = mkBOr(cond[c.second], q); }
          for (size_t i = 1; i < cond.size(); ++i) none = mkBAnd(none, mkNot(cond[i]));
          cond[0] = none;
          if (!cond[tgt]->isConst() && pc.lookup(cond[tgt]) != 1) {
            int32_t idx = ndec++;
            if (idx > item.d) for (size_t i = 0; i < cond.size(); ++i) if ((int)i != tgt && !(cond[i]->isConst() && !cond[i]->val)) {
              Model m; Sat r = solver.check(pc, cond[i], model, m);
              if (r == Sat::Sat) pushItem(m, idx, {}); else if (r == Sat::Unknown) inconcl.insert("solver gave no answer within the time limit (switch) at " + stackStr());
            }
            pc.add(cond[tgt]);
          }
        }
        goEdge(*fp, sw->edges[tgt]); break; }
      case Instruction::Ret: {
        Val tmp[64]; unsigned n = x.imm; if (n > 64) unsupported("large return value");
        for (unsigned i = 0; i < n; ++i) { int32_t a = x.a >= 0 ? x.a + (int)i : x.a - (int)i; tmp[i] = G(a); }
        ret(tmp, n);
        if (tp->frames.size() <= stopDepth && cur == 0) { if (threads.size() <= 1) return; }
        goto reload; }
      case Instruction::Unreachable: violate("abort", "unreachable code reached");
      case Instruction::LandingPad: S[x.dst] = {gExcObj, nullptr}; S[x.dst + 1] = {gExcSel, nullptr}; break;
      case Instruction::Resume: { uint64_t o = G(x.a).c; 
        // continue unwinding from the caller
        { // drop the current frame's landing (its call may not be an invoke)
          Thread& t = T(); dropFrame(*this, t); if (t.frames.empty()) violate("abort", "uncaught exception"); }
        throwExc(o); goto reload; }
      case Instruction::Fence: break;
      case Instruction::AtomicRMW: {
        try { schedPoint(); } catch (Switched&) { goto reload; }
        bool rc = raceCheck; raceCheck = false;
        Val old = load(G(x.a), x.w), v = G(x.b), nv;
        switch (x.sub) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = binop(*this, Instruction::Add, old, v, x.w); break;
          case AtomicRMWInst::Sub: nv = binop(*this, Instruction::Sub, old, v, x.w); break;
          case AtomicRMWInst::And: nv = binop(*this, Instruction::And, old, v, x.w); break;
          case AtomicRMWInst::Or: nv = binop(*this, Instruction::Or, old, v, x.w); break;
          case AtomicRMWInst::Xor: nv = binop(*this, Instruction::Xor, old, v, x.w); break;
          case AtomicRMWInst::Max: nv = selectV(*this, icmp(*this, CmpInst::ICMP_SGT, old, v, x.w), old, v, x.w); break;
          case AtomicRMWInst::Min: nv = selectV(*this, icmp(*this, CmpInst::ICMP_SLT, old, v, x.w), old, v, x.w); break;
          case AtomicRMWInst::UMax: nv = selectV(*this, icmp(*this, CmpInst::ICMP_UGT, old, v, x.w), old, v, x.w); break;
          case AtomicRMWInst::UMin: nv = selectV(*this, icmp(*this, CmpInst::ICMP_ULT, old, v, x.w), old, v, x.w); break;
          default: unsupported("atomicrmw");
        }
        store(G(x.a), nv, x.w); raceCheck = rc;
        if (rc) { auto& sv = syncVC[G(x.a).c]; auto& tv = T().vc; size_t k = std::max(sv.size(), tv.size()); sv.resize(k); tv.resize(std::max<size_t>(k, cur + 1)); for (size_t i = 0; i < k; ++i) sv[i] = tv[i] = std::max(tv[i], sv[i]); ++tv[cur]; }
        S[x.dst] = old; break; }
      case Instruction::AtomicCmpXchg: {
        try { schedPoint(); } catch (Switched&) { goto reload; }
        bool rc = raceCheck; raceCheck = false;
        Val old = load(G(x.a), x.w); Val eq = icmp(*this, CmpInst::ICMP_EQ, old, G(x.b), x.w);
        store(G(x.a), selectV(*this, eq, G(x.c), old, x.w), x.w); raceCheck = rc;
        if (rc) { auto& sv = syncVC[G(x.a).c]; auto& tv = T().vc; size_t k = std::max(sv.size(), tv.size()); sv.resize(k); tv.resize(std::max<size_t>(k, cur + 1)); for (size_t i = 0; i < k; ++i) sv[i] = tv[i] = std::max(tv[i], sv[i]); ++tv[cur]; }
        S[x.dst] = old; S[x.dst + 1] = eq; break; }
      case Instruction::Call: {
        auto* ci = (CallInfo*)x.p;
        DFunc* f = ci->direct;
        Val args[128]; unsigned n = ci->args.size();
        if (n > 128) unsupported("call with many arguments");
        if (!f) {
          Val fa = G(x.a); uint64_t a = fa.e ? concretize(fa, 64) : fa.c;
          uint64_t k = (a - ((1ull << 32) + OFF0)) / 16;
          if ((a >> 32) != 1 || k == 0 || k > funcByIdx.size()) violate("memory", a == 0 ? "call through a null function pointer" : "call through a bad function pointer");
          f = funcByIdx[k - 1];
        }
        for (unsigned i = 0; i < n; ++i) args[i] = G(ci->args[i]);
        if (f->intr) {
          Val res[4] = {{0, nullptr}, {0, nullptr}, {0, nullptr}, {0, nullptr}};
          size_t depth = tp->frames.size(); uint32_t th = cur;
          (void)depth;
          try { Val big[64]; Val* rp = ci->resSlots > 4 ? big : res; f->intr(*this, const_cast<Ins&>(x), args, n, rp);
            // the intrinsic may have changed frames (throw, call-back); results are written by it in that case
            if (cur == th && tp->frames.size() == depth && fp == &tp->frames.back() && !noResult) {
              S = &tp->stk[fp->base];
              for (unsigned i = 0; i < ci->resSlots; ++i) S[x.dst + i] = rp[i];
              if (ci->normal) goEdge(*fp, ci->normal);
              break;
            }
            noResult = false;
          } catch (Switched&) {}
          goto reload;
        }
        for (unsigned i = 0; i < n; ++i) if (ci->byval[i]) { uint64_t c = alloc(ci->byval[i], 2, true, "byval"); copyMem(c, args[i].c, ci->byval[i]); args[i] = Val{c, nullptr}; }
        uint32_t nb = objs.size(); (void)nb;
        pushFrame(*tp, f, args, n);
        { Frame& nf = tp->frames.back(); nf.ci = ci; nf.retDst = x.dst;
          if (f->F->isVarArg()) { unsigned extra = n > f->nargs ? n - f->nargs : 0; uint64_t a = alloc(extra * 8 + 8, 2, false, "varargs"); nf.allocas.push_back(a >> 32); for (unsigned i = 0; i < extra; ++i) store(Val{a + 8 * i, nullptr}, args[f->nargs + i], 64 < ci->widths[f->nargs + i] ? 64 : ci->widths[f->nargs + i]); nf.varArea = a; } }
        goto reload; }
      case X_UNSUP: default: { std::string s; raw_string_ostream os(s); x.I->print(os); unsupported("instruction " + s); }
    }
  }
threadEnd:
  // the current thread's last frame returned
  if (cur == 0) { // main thread returned: end of the path (other threads must have been joined by the harness)
    return;
  }
  threads[cur].state = 4;
  try { schedPoint(true); } catch (Switched&) {}
  goto reload;
}
