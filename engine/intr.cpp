// Models of library and run-time functions, and the harness interface.
#include "vm.h"
#include <llvm/IR/Constants.h>
#include <cmath>
#include <cstdio>
using namespace llvm;
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static std::unordered_map<std::string, Intr> table;
static std::vector<std::pair<std::string, Intr>> prefixes;
static int32_t lastIntr = 0;
#define D(name) table[name] = [](VM & v, Ins & x, Val * a, unsigned n, Val* r)
#define P(name) prefixes.push_back({name, [](VM & v, Ins & x, Val * a, unsigned n, Val* r)
static uint64_t C(VM& v, const Val& a, unsigned w = 64) { return a.e ? v.concretize(a, w) : a.c; }
static CallInfo* CI(Ins& x) { return (CallInfo*)x.p; }
static unsigned AW(Ins& x, unsigned i) { return CI(x)->widths[i]; }
static Val K(uint64_t c) { return Val{c, nullptr}; }
static std::string S(VM& v, const Val& a) { return v.cstr(C(v, a)); }

static void callBack(VM& v, Ins& x, DFunc* f, const Val* args, unsigned n) {
  v.pushFrame(v.T(), f, args, n);
  v.T().frames.back().ci = CI(x);
  v.T().frames.back().retDst = -1;
}
static DFunc* fnAt(VM& v, uint64_t a) {
  uint64_t k = (a - ((1ull << 32) + 0x10000)) / 16;
  if ((a >> 32) != 1 || k == 0 || k > v.funcByIdx.size()) v.violate("memory", "call through a bad function pointer");
  return v.funcByIdx[k - 1];
}
static void throwNamed(VM& v, const char* fn) { // calls a runtime function that throws
  Function* F = v.M->getFunction(fn);
  if (!F) v.unsupported(std::string("missing runtime function ") + fn);
  v.pushFrame(v.T(), v.getFunc(F), nullptr, 0);
}
static uint64_t doAlloc(VM& v, const Val& sz, uint8_t sub, bool& ok, bool undef = true) {
  // symbolic sizes: is an allocation beyond the limit possible? other path explores it
  if (sz.e) { E big = mkCmp(OP_ULT, mkConst(v.allocLimit, 64), sz.e); if (!big->isConst()) { if (v.branch(Val{sz.c > v.allocLimit, big})) { ok = false; return 0; } } }
  if (sz.c > v.allocLimit) { ok = false; return 0; }
  uint64_t n = C(v, sz);
  ok = true;
  return v.alloc(n, 1, undef, "heap", sub);
}
static E cmpBytes(VM& v, uint64_t p, uint64_t q, uint64_t n, bool signedRes) {
  // 32-bit result like memcmp; or 0/1 for bcmp
  E res = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    uint64_t o1, o2;
    Obj* a = v.find(p + i, 1, false, o1); Val x = v.loadAt(a, o1, 8);
    Obj* b = v.find(q + i, 1, false, o2); Val y = v.loadAt(b, o2, 8);
    E ex = v.toE(x, 8), ey = v.toE(y, 8);
    if (ex == ey) continue;
    E eq = mkEq(ex, ey);
    E ne = signedRes ? mkIte(mkCmp(OP_ULT, ex, ey), mkConst(0xffffffff, 32), mkConst(1, 32)) : mkConst(1, 32);
    res = mkIte(eq, res, ne);
  }
  return res;
}
static void mul_ov(VM& v, Ins& x, Val* a, Val* r, int kind) { // 0 add 1 sub 2 mul; unsigned; +4 signed
  unsigned w = AW(x, 0); bool sg = kind & 4; kind &= 3;
  unsigned W = kind == 2 ? 2 * w : w + 1;
  if (!a[0].e && !a[1].e && w <= 64) {
    bool ov; uint64_t res;
    if (!sg) { u128 p = a[0].c, q = a[1].c; u128 t = kind == 0 ? p + q : kind == 1 ? p - q : p * q; res = (uint64_t)t & m64(w); ov = kind == 1 ? q > p : (t >> w) != 0; }
    else { __int128 p = sx64(a[0].c, w), q = sx64(a[1].c, w); __int128 t = kind == 0 ? p + q : kind == 1 ? p - q : p * q; res = (uint64_t)t & m64(w); ov = (__int128)sx64(res, w) != t; }
    r[0] = K(res); r[1] = K(ov); return;
  }
  if (W > 128) v.unsupported("wide overflow op");
  E p = v.toE(a[0], w), q = v.toE(a[1], w);
  E lo = mkBin(kind == 0 ? OP_ADD : kind == 1 ? OP_SUB : OP_MUL, p, q), ov;
  if (!sg && kind == 0) ov = mkCmp(OP_ULT, lo, p);
  else if (!sg && kind == 1) ov = mkCmp(OP_ULT, p, q);
  else if (!sg) {
    if (q->isConst() && q->val) ov = mkCmp(OP_ULT, mkConst(maskw(w) / q->val, w), p);
    else ov = mkNot(mkEq(mkExtract(mkBin(OP_MUL, mkZExt(p, W), mkZExt(q, W)), w, w), mkConst(0, w)));
  }
  else { E t = mkBin(kind == 0 ? OP_ADD : kind == 1 ? OP_SUB : OP_MUL, mkSExt(p, W), mkSExt(q, W)); ov = mkNot(mkEq(t, mkSExt(lo, W))); }
  r[0] = v.mk(lo); r[1] = v.mk(ov);
}
static Val bin(VM& v, Op op, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) return K((uint64_t)evalOp(op, w, 0, a.c, w, b.c, 0));
  E e = mkBin(op, v.toE(a, w), v.toE(b, w));
  if (w > 64) return Val{0, e};
  return v.fromE(e, (uint64_t)evalOp(op, w, 0, a.c, w, b.c, 0));
}
static Val cmp(VM& v, Op op, const Val& a, const Val& b, unsigned w) { return v.mk(mkCmp(op, v.toE(a, w), v.toE(b, w))); }
static Val ite(VM& v, const Val& c, const Val& a, const Val& b, unsigned w) {
  if (!c.e) return (c.c & 1) ? a : b;
  E e = mkIte(c.e, v.toE(a, w), v.toE(b, w));
  if (w > 64) return Val{0, e};
  return v.fromE(e, (c.c & 1) ? a.c : b.c);
}
extern int typeIdOf(VM& vm, uint64_t ti);
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static void vcTick(VM& v) { auto& t = v.T().vc; if (t.size() <= v.cur) t.resize(v.cur + 1); ++t[v.cur]; }

static bool mutexRecursive(VM& v, uint64_t m) { return v.rd(m + 16, 4) == 1; }
static void mutexLock(VM& v, uint64_t m, Val* r) {
  v.schedPoint();
  Mutex& mx = v.mutexes[m];
  { uint64_t off_; v.find(m, 8, false, off_); } // a freed mutex is reported
  if (mx.owner == (int64_t)v.cur) { if (mutexRecursive(v, m)) { ++mx.count; r[0] = K(0); return; } v.violate("deadlock", "relocking an owned mutex"); }
  if (mx.owner >= 0) { v.blockOn(1, m); }
  v.T().state = 0; mx.owner = v.cur; mx.count = 1; vcJoin(v.T().vc, mx.vc);
  r[0] = K(0);
}
static void mutexUnlock(VM& v, uint64_t m) {
  Mutex& mx = v.mutexes[m];
  if (mx.owner != (int64_t)v.cur) v.violate("abort", "unlock of a mutex that is not owned");
  if (--mx.count == 0) { mx.owner = -1; vcJoin(mx.vc, v.T().vc); vcTick(v); }
}
// condition wait; result 0 or ETIMEDOUT
static void condWait(VM& v, uint64_t cv, uint64_t m, bool timed, Val* r) {
  Thread& t = v.T();
  if (t.state == 0) {
    v.schedPoint();
    Mutex& mx = v.mutexes[m];
    if (mx.owner != (int64_t)v.cur) v.violate("abort", "condition wait without the lock");
    mx.owner = -1; mx.count = 0; vcJoin(mx.vc, t.vc); vcTick(v);
    t.state = 2; t.waitOn = cv; t.waitMutex = m; t.timedWait = timed; t.timedOut = false;
    v.schedPoint(true);
  }
  // resumed: notified (state 5) or timed out (state 2)
  bool to = t.state == 2;
  Mutex& mx = v.mutexes[m];
  mx.owner = v.cur; mx.count = 1; vcJoin(t.vc, mx.vc); t.state = 0; t.resumeLock = false; t.timedWait = false;
  r[0] = K(to ? 110 : 0);
}
static void condNotify(VM& v, uint64_t cv, bool all) {
  v.schedPoint();
  std::vector<uint32_t> w;
  for (uint32_t i = 0; i < v.threads.size(); ++i) if (v.threads[i].state == 2 && v.threads[i].waitOn == cv) w.push_back(i);
  if (w.empty()) return;
  if (all) for (uint32_t i : w) v.threads[i].state = 5;
  else v.threads[w[v.choose(w.size(), "wake")]].state = 5;
}
static void fpun(const std::string& base, Op op, unsigned aux) { (void)base; (void)op; (void)aux; }

void registerIntrinsics() {
  // ---- harness interface
  D("vs_sym") { uint64_t p = C(v, a[0]), k = C(v, a[1]); std::string nm = S(v, a[2]);
    if (k == 1 || k == 2 || k == 4 || k == 8 || k == 16) { E e = v.newVar(nm, k * 8, false); uint64_t off; Obj* o = v.find(p, k, true, off); v.storeAt(o, off, Val{(uint64_t)v.varVal(e), e}, k * 8); }
    else for (uint64_t i = 0; i < k; ++i) { E e = v.newVar(nm + "[" + std::to_string(i) + "]", 8, false); uint64_t off; Obj* o = v.find(p + i, 1, true, off); v.storeAt(o, off, Val{(uint64_t)v.varVal(e), e}, 8); } };
  D("vs_sym_bytes") { uint64_t p = C(v, a[0]), k = C(v, a[1]); std::string nm = S(v, a[2]);
    for (uint64_t i = 0; i < k; ++i) { E e = v.newVar(nm + "[" + std::to_string(i) + "]", 8, false); uint64_t off; Obj* o = v.find(p + i, 1, true, off); v.storeAt(o, off, Val{(uint64_t)v.varVal(e), e}, 8); } };
  D("vs_range") { uint64_t lo = C(v, a[0]), hi = C(v, a[1]); std::string nm = S(v, a[2]);
    if (lo == hi) { r[0] = K(lo); return; }
    E e = v.newVar(nm, 64, false); uint64_t c = (uint64_t)v.varVal(e);
    if (c < lo || c > hi) { if (v.model.v.size() <= e->aux) v.model.v.resize(e->aux + 1); v.model.v[e->aux] = lo; c = lo; }
    E c1 = mkBAnd(mkCmp(OP_ULE, mkConst(lo, 64), e), mkCmp(OP_ULE, e, mkConst(hi, 64)));
    v.pc.add(c1);
    r[0] = Val{c, e}; };
  D("vs_choose") { uint64_t k = C(v, a[0]); std::string nm = S(v, a[1]); r[0] = K(v.choose(k, nm.c_str())); };
  D("vs_assume") { Val b = a[0]; if (AW(x, 0) > 1) { E e = mkNot(mkEq(v.toE(b, AW(x, 0)), mkConst(0, AW(x, 0)))); b = e->isConst() ? K((uint64_t)e->val) : Val{b.c != 0, e}; } v.assume(b); };
  D("vs_assert") { Val b = a[0]; if (AW(x, 0) > 1) { E e = mkNot(mkEq(v.toE(b, AW(x, 0)), mkConst(0, AW(x, 0)))); b = e->isConst() ? K((uint64_t)e->val) : Val{b.c != 0, e}; } v.assertV(b, "assert", S(v, a[1])); };
  D("vs_reach") { std::string l = S(v, a[0]); v.reached.insert(l); v.pathReach.push_back(l); };
  D("vs_fail") { v.violate("assert", S(v, a[0])); };
  D("vs_check_failed") { v.violate("abort", "XR_CHECK failed: " + S(v, a[0])); };
  D("vs_concretize") { r[0] = K(C(v, a[0])); };
  D("vs_is_symbolic_run") { r[0] = K(1); };
  D("vs_silent_end") { throw PathEnd{"assume"}; };
  D("vs_alloc_limit") { v.allocLimit = C(v, a[0]); };
  D("vs_race_check") { v.raceCheck = C(v, a[0], 32); };
  D("vs_print") { fprintf(stderr, "[vs] %s %llu", S(v, a[0]).c_str(), (unsigned long long)a[1].c); if (a[1].e) fprintf(stderr, " = %s", exprStr(a[1].e, 8).c_str()); fprintf(stderr, "\n"); };
  D("vs_objects_alive") { uint64_t k = 0; for (auto& o : v.objs) if (o.kind == 1 && o.alive && !o.cow) ++k; r[0] = K(k); };
  D("vs_threads") { r[0] = K(v.threads.size()); };
  D("vs_yield") { v.schedPoint(false, true); };
  // ---- heap
  D("malloc") { bool ok; uint64_t p = doAlloc(v, a[0], 0, ok); r[0] = K(ok ? p : 0); };
  D("calloc") { Val t = bin(v, OP_MUL, a[0], a[1], 64); bool ok; uint64_t p = doAlloc(v, t, 0, ok, false); r[0] = K(ok ? p : 0); };
  D("realloc") { uint64_t p = C(v, a[0]), k = C(v, a[1]); uint64_t q = v.alloc(k, 1, true, "heap"); if (p) { uint64_t os = v.objs[p >> 32].size; v.copyMem(q, p, std::min(os, k)); v.freeObj(p, "realloc", 0); } r[0] = K(q); };
  D("free") { v.freeObj(C(v, a[0]), "free", 0); };
  D("posix_memalign") { uint64_t al = C(v, a[1]); if (al < 8 || (al & (al - 1))) { r[0] = K(22); return; } bool ok; uint64_t p = doAlloc(v, a[2], 0, ok); if (!ok) { r[0] = K(12); return; } v.wr(C(v, a[0]), p, 8); r[0] = K(0); };
  D("aligned_alloc") { bool ok; uint64_t p = doAlloc(v, a[1], 0, ok); r[0] = K(ok ? p : 0); };
  auto opnew = [](uint8_t) {};
  (void)opnew;
  D("_Znwm") { bool ok; uint64_t p = doAlloc(v, a[0], 1, ok); if (!ok) { throwNamed(v, "vsrt_throw_bad_alloc"); return; } r[0] = K(p); };
  D("_Znam") { bool ok; uint64_t p = doAlloc(v, a[0], 2, ok); if (!ok) { throwNamed(v, "vsrt_throw_bad_alloc"); return; } r[0] = K(p); };
  D("_ZnwmSt11align_val_t") { bool ok; uint64_t p = doAlloc(v, a[0], 1, ok); if (!ok) { throwNamed(v, "vsrt_throw_bad_alloc"); return; } r[0] = K(p); };
  D("_ZnwmRKSt9nothrow_t") { bool ok; uint64_t p = doAlloc(v, a[0], 1, ok); r[0] = K(ok ? p : 0); };
  D("_ZnamRKSt9nothrow_t") { bool ok; uint64_t p = doAlloc(v, a[0], 2, ok); r[0] = K(ok ? p : 0); };
  for (const char* nm : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) D(nm) { v.freeObj(C(v, a[0]), "delete", 1); };
  for (const char* nm : {"_ZdaPv", "_ZdaPvm"}) D(nm) { v.freeObj(C(v, a[0]), "delete[]", 2); };
  // ---- memory
  Intr mcpy = [](VM& v, Ins& x, Val* a, unsigned n, Val* r) { uint64_t k = C(v, a[2], AW(x, 2)); uint64_t d = C(v, a[0]), s = C(v, a[1]); v.copyMem(d, s, k); r[0] = K(d); };
  Intr mset = [](VM& v, Ins& x, Val* a, unsigned n, Val* r) { uint64_t k = C(v, a[2], AW(x, 2)); uint64_t d = C(v, a[0]); Val b = a[1]; if (AW(x, 1) > 8) { if (b.e) { b.e = mkExtract(b.e, 0, 8); if (b.e->isConst()) b = K((uint64_t)b.e->val); } b.c &= 255; } v.setMem(d, b, k); r[0] = K(d); };
  table["memcpy"] = table["memmove"] = mcpy; table["memset"] = mset;
  prefixes.push_back({"llvm.memcpy.", mcpy}); prefixes.push_back({"llvm.memmove.", mcpy}); prefixes.push_back({"llvm.memset.", mset});
  D("memcmp") { uint64_t k = C(v, a[2]); E e = cmpBytes(v, C(v, a[0]), C(v, a[1]), k, true); r[0] = v.mk(e); };
  D("bcmp") { uint64_t k = C(v, a[2]); E e = cmpBytes(v, C(v, a[0]), C(v, a[1]), k, false); r[0] = v.mk(e); };
  D("strlen") { uint64_t p = C(v, a[0]), k = 0; for (;; ++k) { uint64_t off; Obj* o = v.find(p + k, 1, false, off); Val b = v.loadAt(o, off, 8); bool z; if (b.e) { E e = mkEq(b.e, mkConst(0, 8)); z = v.branch(e->isConst() ? K((uint64_t)e->val) : Val{(uint64_t)(b.c == 0), e}); } else z = b.c == 0; if (z) break; } r[0] = K(k); };
  D("memchr") { uint64_t p = C(v, a[0]), k = C(v, a[2]); Val ch = a[1]; E ce = mkExtract(v.toE(ch, 32), 0, 8); r[0] = K(0);
    for (uint64_t i = 0; i < k; ++i) { uint64_t off; Obj* o = v.find(p + i, 1, false, off); Val b = v.loadAt(o, off, 8); E e = mkEq(v.toE(b, 8), ce); if (v.branch(e->isConst() ? K((uint64_t)e->val) : Val{(uint64_t)(b.c == (ch.c & 255)), e})) { r[0] = K(p + i); break; } } };
  // ---- llvm intrinsics
  P("llvm.umax.") { unsigned w = AW(x, 0), k = CI(x)->resSlots; for (unsigned i = 0; i < k; ++i) r[i] = ite(v, cmp(v, OP_ULE, a[k + i], a[i], w), a[i], a[k + i], w); }});
  P("llvm.umin.") { unsigned w = AW(x, 0), k = CI(x)->resSlots; for (unsigned i = 0; i < k; ++i) r[i] = ite(v, cmp(v, OP_ULE, a[i], a[k + i], w), a[i], a[k + i], w); }});
  P("llvm.smax.") { unsigned w = AW(x, 0), k = CI(x)->resSlots; for (unsigned i = 0; i < k; ++i) r[i] = ite(v, cmp(v, OP_SLE, a[k + i], a[i], w), a[i], a[k + i], w); }});
  P("llvm.smin.") { unsigned w = AW(x, 0), k = CI(x)->resSlots; for (unsigned i = 0; i < k; ++i) r[i] = ite(v, cmp(v, OP_SLE, a[i], a[k + i], w), a[i], a[k + i], w); }});
  P("llvm.abs.") { unsigned w = AW(x, 0); r[0] = ite(v, cmp(v, OP_SLE, K(0), a[0], w), a[0], bin(v, OP_SUB, K(0), a[0], w), w); }});
  P("llvm.ctpop.") { unsigned w = AW(x, 0); if (!a[0].e) { r[0] = K(__builtin_popcountll(a[0].c)); return; } E s = mkConst(0, w); for (unsigned i = 0; i < w; ++i) s = mkBin(OP_ADD, s, mkZExt(mkExtract(a[0].e, i, 1), w)); r[0] = v.mk(s); }});
  P("llvm.ctlz.") { unsigned w = AW(x, 0); if (!a[0].e) { r[0] = K(a[0].c ? __builtin_clzll(a[0].c) - (64 - w) : w); return; } E e = mkConst(w, w); for (unsigned i = 0; i < w; ++i) e = mkIte(mkExtract(a[0].e, i, 1), mkConst(w - 1 - i, w), e); r[0] = v.mk(e); }});
  P("llvm.cttz.") { unsigned w = AW(x, 0); if (!a[0].e) { r[0] = K(a[0].c ? __builtin_ctzll(a[0].c) : w); return; } E e = mkConst(w, w); for (unsigned i = w; i-- > 0;) e = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, w), e); r[0] = v.mk(e); }});
  P("llvm.bswap.") { unsigned w = AW(x, 0); E e = v.toE(a[0], w), s = nullptr; for (unsigned i = 0; i < w / 8; ++i) { E b = mkExtract(e, i * 8, 8); s = s ? mkConcat(s, b) : b; } r[0] = v.mk(s); }});
  P("llvm.bitreverse.") { unsigned w = AW(x, 0); E e = v.toE(a[0], w), s = nullptr; for (unsigned i = 0; i < w; ++i) { E b = mkExtract(e, i, 1); s = s ? mkConcat(s, b) : b; } r[0] = v.mk(s); }});
  P("llvm.fshl.") { unsigned w = AW(x, 0); Val s = bin(v, OP_UREM, a[2], K(w), w); if (s.e) s = K(v.concretize(s, w)); if (s.c == 0) { r[0] = a[0]; return; } r[0] = bin(v, OP_OR, bin(v, OP_SHL, a[0], s, w), bin(v, OP_LSHR, a[1], K(w - s.c), w), w); }});
  P("llvm.fshr.") { unsigned w = AW(x, 0); Val s = bin(v, OP_UREM, a[2], K(w), w); if (s.e) s = K(v.concretize(s, w)); if (s.c == 0) { r[0] = a[1]; return; } r[0] = bin(v, OP_OR, bin(v, OP_SHL, a[0], K(w - s.c), w), bin(v, OP_LSHR, a[1], s, w), w); }});
  P("llvm.uadd.with.overflow.") { mul_ov(v, x, a, r, 0); }}); P("llvm.usub.with.overflow.") { mul_ov(v, x, a, r, 1); }}); P("llvm.umul.with.overflow.") { mul_ov(v, x, a, r, 2); }});
  P("llvm.sadd.with.overflow.") { mul_ov(v, x, a, r, 4); }}); P("llvm.ssub.with.overflow.") { mul_ov(v, x, a, r, 5); }}); P("llvm.smul.with.overflow.") { mul_ov(v, x, a, r, 6); }});
  P("llvm.uadd.sat.") { unsigned w = AW(x, 0); Val s = bin(v, OP_ADD, a[0], a[1], w); r[0] = ite(v, cmp(v, OP_ULT, s, a[0], w), K(m64(w)), s, w); }});
  P("llvm.usub.sat.") { unsigned w = AW(x, 0); unsigned k = CI(x)->resSlots; for (unsigned i = 0; i < k; ++i) r[i] = ite(v, cmp(v, OP_ULT, a[i], a[k + i], w), K(0), bin(v, OP_SUB, a[i], a[k + i], w), w); }});
  P("llvm.fabs.") { unsigned w = AW(x, 0); r[0] = bin(v, OP_AND, a[0], K(m64(w) >> 1), w); }});
  P("llvm.copysign.") { unsigned w = AW(x, 0); r[0] = bin(v, OP_OR, bin(v, OP_AND, a[0], K(m64(w) >> 1), w), bin(v, OP_AND, a[1], K(1ull << (w - 1)), w), w); }});
  for (auto& p : std::vector<std::pair<const char*, int>>{{"llvm.trunc.", 0}, {"llvm.floor.", 1}, {"llvm.ceil.", 2}, {"llvm.rint.", 3}, {"llvm.nearbyint.", 3}, {"llvm.roundeven.", 3}, {"llvm.round.", 4}}) {
    static Intr fs[5] = {
      [](VM& v, Ins& x, Val* a, unsigned, Val* r) { unsigned w = AW(x, 0); r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], w), w, 0)); },
      [](VM& v, Ins& x, Val* a, unsigned, Val* r) { unsigned w = AW(x, 0); r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], w), w, 1)); },
      [](VM& v, Ins& x, Val* a, unsigned, Val* r) { unsigned w = AW(x, 0); r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], w), w, 2)); },
      [](VM& v, Ins& x, Val* a, unsigned, Val* r) { unsigned w = AW(x, 0); r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], w), w, 3)); },
      [](VM& v, Ins& x, Val* a, unsigned, Val* r) { unsigned w = AW(x, 0); r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], w), w, 4)); }};
    prefixes.push_back({p.first, fs[p.second]});
  }
  table["floor"] = table["llvm.floor.f64"] = nullptr; table.erase("floor"); table.erase("llvm.floor.f64");
  D("floor") { r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], 64), 64, 1)); };
  D("ceil") { r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], 64), 64, 2)); };
  D("round") { r[0] = v.mk(mkFUn(OP_FRND, v.toE(a[0], 64), 64, 4)); };
  D("lround") { r[0] = v.mk(mkFUn(OP_FPTOSI, mkFUn(OP_FRND, v.toE(a[0], 64), 64, 4), 64)); };
  P("llvm.sqrt.") { unsigned w = AW(x, 0); r[0] = v.mk(mkFUn(OP_FSQRT, v.toE(a[0], w), w)); }});
  P("llvm.fmuladd.") { unsigned w = AW(x, 0); E m = mkFBin(OP_FMUL, v.toE(a[0], w), v.toE(a[1], w)); r[0] = v.mk(mkFBin(OP_FADD, m, v.toE(a[2], w))); }});
  P("llvm.maxnum.") { unsigned w = AW(x, 0); E p = v.toE(a[0], w), q = v.toE(a[1], w); E qn = mkNot(mkFBin(OP_FEQ, q, q)); r[0] = v.mk(mkIte(mkBOr(qn, mkFBin(OP_FLE, q, p)), p, q)); }});
  P("llvm.minnum.") { unsigned w = AW(x, 0); E p = v.toE(a[0], w), q = v.toE(a[1], w); E qn = mkNot(mkFBin(OP_FEQ, q, q)); r[0] = v.mk(mkIte(mkBOr(qn, mkFBin(OP_FLE, p, q)), p, q)); }});
  P("llvm.expect.") { r[0] = a[0]; }}); P("llvm.launder.") { r[0] = a[0]; }}); P("llvm.strip.") { r[0] = a[0]; }}); P("llvm.threadlocal.address") { r[0] = a[0]; // other threads than the first have their own, zeroed
    if (v.cur) { uint64_t g = C(v, a[0]); uint64_t& p = v.tlsOf[{v.cur, g}]; if (!p) { uint64_t off; Obj* o = v.find(g, 1, false, off); p = v.alloc(o->size, 0, false, "tls"); } r[0] = K(p); } }}); P("llvm.ssa.copy") { r[0] = a[0]; }});
  P("llvm.objectsize.") { r[0] = K(~0ull & m64(CI(x)->resW)); }}); P("llvm.is.constant") { r[0] = K(0); }});
  P("llvm.stacksave") { r[0] = K(0); }}); P("llvm.stackrestore") {}});
  P("llvm.vector.reduce.add") { unsigned w = AW(x, 0); Val s = a[0]; for (unsigned i = 1; i < n; ++i) s = bin(v, OP_ADD, s, a[i], w); r[0] = s; }});
  P("llvm.vector.reduce.or") { unsigned w = AW(x, 0); Val s = a[0]; for (unsigned i = 1; i < n; ++i) s = bin(v, OP_OR, s, a[i], w); r[0] = s; }});
  P("llvm.vector.reduce.and") { unsigned w = AW(x, 0); Val s = a[0]; for (unsigned i = 1; i < n; ++i) s = bin(v, OP_AND, s, a[i], w); r[0] = s; }});
  P("llvm.trap") { v.violate("abort", "trap"); }}); P("llvm.ubsantrap") { v.violate("arith", "undefined arithmetic (ubsan trap " + std::to_string(a[0].c) + ")"); }}); P("llvm.debugtrap") { v.violate("abort", "trap"); }});
  P("llvm.va_start") { uint64_t p = C(v, a[0]); v.wr(p, 48, 4); v.wr(p + 4, 304, 4); v.wr(p + 8, v.T().frames.back().varArea, 8); v.wr(p + 16, 0, 8); }});
  P("llvm.va_end") {}}); P("llvm.va_copy") { v.copyMem(C(v, a[0]), C(v, a[1]), 24); }});
  P("llvm.eh.typeid.for") { r[0] = K(typeIdOf(v, a[0].c)); }});
  // ---- process
  D("abort") { v.violate("abort", "abort"); }; D("exit") { v.violate("abort", "exit"); }; D("_exit") { v.violate("abort", "exit"); };
  D("__assert_fail") { v.violate("abort", "assert " + S(v, a[0])); };
  D("_ZSt9terminatev") { v.violate("abort", "std::terminate"); };
  D("__clang_call_terminate") { v.violate("abort", "exception out of a noexcept function"); };
  D("__cxa_pure_virtual") { v.violate("abort", "pure virtual call"); };
  D("__stack_chk_fail") { v.violate("memory", "stack smashed"); };
  D("_ZSt20__throw_length_errorPKc") { throwNamed(v, "vsrt_throw_length_error"); };
  D("_ZSt19__throw_logic_errorPKc") { throwNamed(v, "vsrt_throw_logic_error"); };
  D("_ZSt20__throw_out_of_rangePKc") { throwNamed(v, "vsrt_throw_out_of_range"); };
  D("_ZSt24__throw_out_of_range_fmtPKcz") { throwNamed(v, "vsrt_throw_out_of_range"); };
  D("_ZSt24__throw_invalid_argumentPKc") { throwNamed(v, "vsrt_throw_invalid_argument"); };
  D("_ZSt17__throw_bad_allocv") { throwNamed(v, "vsrt_throw_bad_alloc"); };
  D("_ZSt28__throw_bad_array_new_lengthv") { throwNamed(v, "vsrt_throw_bad_alloc"); };
  D("_ZSt25__throw_bad_function_callv") { throwNamed(v, "vsrt_throw_bad_function_call"); };
  D("_ZSt16__throw_bad_castv") { throwNamed(v, "vsrt_throw_bad_cast"); };
  D("_ZSt20__throw_system_errori") { throwNamed(v, "vsrt_throw_system_error"); };
  D("_ZSt26__throw_bad_variant_accessPKc") { throwNamed(v, "vsrt_throw_logic_error"); };
  // ---- exceptions
  D("__cxa_allocate_exception") { r[0] = K(v.alloc(C(v, a[0]), 1, true, "exception")); };
  D("__cxa_free_exception") {};
  D("__cxa_throw") { v.excs.push_back({a[0].c, a[1].c, a[2].c}); v.throwExc(a[0].c); v.noResult = true; };
  D("__cxa_begin_catch") { v.T().caught.push_back(a[0].c); r[0] = a[0]; };
  D("__cxa_end_catch") { if (!v.T().caught.empty()) v.T().caught.pop_back(); };
  D("__cxa_get_exception_ptr") { r[0] = a[0]; };
  D("__cxa_rethrow") { if (v.T().caught.empty()) v.violate("abort", "rethrow without an exception"); uint64_t o = v.T().caught.back(); v.throwExc(o); v.noResult = true; };
  D("_Unwind_Resume") { v.throwExc(a[0].c); v.noResult = true; };
  // a static is initialised once; threads that come meanwhile wait, later ones see what was done
  D("__cxa_guard_acquire") { uint64_t g = C(v, a[0]); Mutex& mx = v.mutexes[g];
    if (!v.rd(g, 1) && mx.owner >= 0 && mx.owner != (int64_t)v.cur) v.blockOn(1, g);
    v.T().state = 0; v.T().resumeLock = false; vcJoin(v.T().vc, mx.vc);
    if (v.rd(g, 1)) r[0] = K(0); else { mx.owner = v.cur; r[0] = K(1); } };
  D("__cxa_guard_release") { uint64_t g = C(v, a[0]); v.wr(g, 1, 1); Mutex& mx = v.mutexes[g]; mx.owner = -1; vcJoin(mx.vc, v.T().vc); vcTick(v); };
  D("__cxa_guard_abort") { v.mutexes[C(v, a[0])].owner = -1; };
  D("__cxa_atexit") { r[0] = K(0); }; D("atexit") { r[0] = K(0); }; D("__cxa_thread_atexit") { r[0] = K(0); };
  D("_ZNSt8ios_base4InitC1Ev") {}; D("_ZNSt8ios_base4InitD1Ev") {};
  D("__errno_location") { // one errno cell per path and thread
    static uint64_t cell = 0; uint64_t& p = v.clk[v.cur ? 1000 + v.cur : 1]; (void)cell; if (!p) { p = v.alloc(8, 0, false, "errno"); } r[0] = K(p); };
  D("__dynamic_cast") { // single inheritance: exact dynamic type, or up the hierarchy
    uint64_t p = a[0].c; uint64_t vt = v.rd(p, 8); uint64_t ti = v.rd(vt - 8, 8); int64_t top = (int64_t)v.rd(vt - 16, 8); uint64_t dst = a[2].c;
    if (v.tiMatch(ti, dst)) r[0] = K(p + top); else r[0] = K(0); };
  // ---- threads
  D("pthread_mutex_lock") { mutexLock(v, C(v, a[0]), r); };
  D("pthread_mutex_unlock") { mutexUnlock(v, C(v, a[0])); r[0] = K(0); };
  D("pthread_mutex_trylock") { uint64_t m = C(v, a[0]); v.schedPoint(); Mutex& mx = v.mutexes[m]; if (mx.owner < 0) { mx.owner = v.cur; mx.count = 1; vcJoin(v.T().vc, mx.vc); r[0] = K(0); } else if (mx.owner == (int64_t)v.cur && mutexRecursive(v, m)) { ++mx.count; r[0] = K(0); } else r[0] = K(16); };
  for (const char* nm : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_setname_np"}) D(nm) { r[0] = K(0); };
  D("_ZNSt18condition_variableC1Ev") {}; D("_ZNSt18condition_variableD1Ev") {};
  D("_ZNSt18condition_variable10notify_allEv") { condNotify(v, C(v, a[0]), true); };
  D("_ZNSt18condition_variable10notify_oneEv") { condNotify(v, C(v, a[0]), false); };
  D("pthread_cond_signal") { condNotify(v, C(v, a[0]), false); r[0] = K(0); };
  D("pthread_cond_broadcast") { condNotify(v, C(v, a[0]), true); r[0] = K(0); };
  D("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE") { condWait(v, C(v, a[0]), v.rd(C(v, a[1]), 8), false, r); };
  D("pthread_cond_wait") { condWait(v, C(v, a[0]), C(v, a[1]), false, r); };
  D("pthread_cond_timedwait") { condWait(v, C(v, a[0]), C(v, a[1]), true, r); };
  D("pthread_cond_clockwait") { condWait(v, C(v, a[0]), C(v, a[1]), true, r);
    if (r[0].c == 110) { // the clock has passed the deadline
      uint64_t ts = C(v, a[3]); uint64_t s = v.rd(ts, 8), ns = v.rd(ts + 8, 8); uint64_t t = s * 1000000000ull + ns; if (v.clk[2] < t) v.clk[2] = t; } };
  D("vs_clock_ns") { uint64_t& c = v.clk[2]; c += 1000; r[0] = K(c); };
  D("vs_clock_set") { v.clk[2] = C(v, a[0]); };
  D("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE") {
    uint64_t up = C(v, a[1]); uint64_t st = v.rd(up, 8); v.wr(up, 0, 8);
    uint64_t vt = v.rd(st, 8); DFunc* f = fnAt(v, v.rd(vt + 16, 8));
    v.threads.emplace_back(); uint32_t id = v.threads.size() - 1; Thread& t = v.threads[id]; t.id = id;
    t.vc = v.T().vc; if (t.vc.size() <= id) t.vc.resize(id + 1); t.vc[id] = 1; vcTick(v);
    Val arg = K(st); v.pushFrame(t, f, &arg, 1);
    v.wr(C(v, a[0]), id, 8); };
  D("_ZNSt6thread4joinEv") { uint64_t p = C(v, a[0]); uint64_t id = v.rd(p, 8); if (!id || id >= v.threads.size()) v.violate("abort", "join of a thread that is not joinable");
    v.schedPoint(); if (v.threads[id].state != 4) v.blockOn(3, id); v.T().state = 0; vcJoin(v.T().vc, v.threads[id].vc); v.wr(p, 0, 8); };
  D("_ZNSt6thread6detachEv") { v.wr(C(v, a[0]), 0, 8); };
  D("_ZNSt6thread20hardware_concurrencyEv") { r[0] = K(4); };
  D("pthread_self") { r[0] = K(v.cur + 1); };
  D("sched_yield") { v.schedPoint(false, true); r[0] = K(0); };
  (void)callBack; (void)fpun;
}
Intr findIntrinsic(const std::string& n) {
  auto it = table.find(n);
  if (it != table.end()) return it->second;
  if (n.compare(0, 5, "llvm.") == 0) for (auto& p : prefixes) if (n.compare(0, p.first.size(), p.first) == 0) return p.second;
  return nullptr;
}
