#include <algorithm>
#include "vm.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
using namespace llvm;

VM vm;
static const uint64_t OFF0 = 0x10000;
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) + OFF0; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

// custom op codes (beyond LLVM's)
enum { X_LOADN = 200, X_STOREN, X_BRC, X_UNSUP, X_MOVE, X_GEPC };

static unsigned bitsOf(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16;
  if (t->isFP128Ty()) return 128;
  return 0;
}
static unsigned slotsOf(Type* t) {
  if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return t->isTokenTy() ? 1 : 0;
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += slotsOf(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  return 1;
}
static void leafs(const DataLayout& DL, Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) leafs(DL, s->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); ++i) leafs(DL, a->getElementType(), off + i * es, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { unsigned w = bitsOf(v->getElementType()); if (w % 8) { out.push_back({(uint32_t)off, 0, 0}); return; } for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back({(uint32_t)(off + i * (w / 8)), w, w / 8}); return; }
  unsigned w = bitsOf(t);
  out.push_back({(uint32_t)off, w, (w + 7) / 8});
}
static unsigned leafWidth0(Type* t) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) return bitsOf(v->getElementType());
  return bitsOf(t);
}

// ---------------------------------------------------------------- errors
static std::string memDetail;
std::string VM::stackStr() {
  std::string s;
  if (threads.empty()) return s;
  auto& fr = T().frames;
  for (size_t i = fr.size(); i-- > 0;) { if (!s.empty()) s += " < "; s += fr[i].f->name; if (fr.size() - i > 40) break; }
  return s;
}
void VM::recordViolation(const std::string& kind, const std::string& msg, const Model& m) {
  std::string key = kind + "|" + msg;
  if (kind == "memory" || kind == "hang" || kind == "abort" || kind == "race") key += "|" + (threads.empty() ? std::string() : T().frames.empty() ? std::string() : T().frames.back().f->name);
  if (!violKeys.insert(key).second) return;
  if (kind == "memory") fprintf(stderr, "[mem] %s at %s\n", memDetail.c_str(), stackStr().c_str());
  Violation v{kind, msg, stackStr(), {}, {}, false};
  for (uint32_t i : runVars) {
    v.model.push_back({gVars[i].name, i < m.v.size() ? m.v[i] : 0});
    v.widths.push_back(gVars[i].width);
    if (gVars[i].internal) v.usesInternal = true;
  }
  viols.push_back(v);
  extern void onViolation(const Violation&);
  onViolation(v);
}
void VM::violate(const std::string& kind, const std::string& msg) {
  if (initPhase) { fprintf(stderr, "violation during init: %s %s\n at %s\n", kind.c_str(), msg.c_str(), stackStr().c_str()); _Exit(98); }
  recordViolation(kind, msg, model);
  throw PathEnd{"violation"};
}
void VM::unsupported(const std::string& what) {
  std::string s = "unsupported: " + what + " at " + stackStr();
  if (initPhase) { fprintf(stderr, "%s\n", s.c_str()); _Exit(98); }
  inconcl.insert(s);
  throw PathEnd{"unsupported"};
}
void VM::memError(const char* kind, uint64_t addr, uint64_t n) {
  char b[256];
  uint32_t id = addr >> 32;
  const char* nm = id < objs.size() && objs[id].name ? objs[id].name : "?";
  snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of object %u (%s, size %llu)", kind, (unsigned long long)n, (long long)((addr & 0xffffffff) - OFF0), id, nm, id < objs.size() ? (unsigned long long)objs[id].size : 0ull);
  memDetail = b;
  violate("memory", kind);
}

// ---------------------------------------------------------------- memory
uint64_t VM::alloc(uint64_t size, uint8_t kind, bool undef, const char* name, uint8_t sub) {
  if (memUsed + size > memLimit) unsupported("memory limit of the analysis");
  uint32_t id = objs.size();
  objs.emplace_back();
  Obj& o = objs.back();
  o.size = size; o.kind = kind; o.sub = sub; o.name = name; o.alive = true;
  o.data = (uint8_t*)calloc(size ? size : 1, 1);
  if (undef && size) { o.und = (uint8_t*)malloc(size); memset(o.und, 1, size); o.undCount = size; }
  memUsed += size;
  return addrOf(id);
}
static void release(Obj& o) { if (!o.cow) { free(o.data); free(o.sh); free(o.und); } o.data = nullptr; o.sh = nullptr; o.und = nullptr; }
Obj& VM::own(uint32_t id) {
  Obj& o = objs[id];
  if (o.cow) {
    uint64_t n = o.size ? o.size : 1;
    uint8_t* d = (uint8_t*)malloc(n); memcpy(d, o.data, o.size); o.data = d;
    if (o.sh) { E* s = (E*)malloc(n * sizeof(E)); memcpy((void*)s, o.sh, o.size * sizeof(E)); o.sh = s; }
    if (o.und) { uint8_t* u = (uint8_t*)malloc(n); memcpy(u, o.und, o.size); o.und = u; }
    o.cow = false;
  }
  return o;
}
void VM::freeObj(uint64_t addr, const char* how, int sub) {
  if (!addr) return;
  uint32_t id = addr >> 32;
  if (id >= objs.size() || (addr & 0xffffffff) != OFF0 || objs[id].kind != 1) memError("invalid free", addr, 0);
  Obj& o = objs[id];
  if (!o.alive) memError("double free", addr, 0);
  if (sub >= 0 && o.sub != sub) memError("mismatched free", addr, 0);
  memUsed -= o.size;
  release(o);
  o.alive = false;
}
Obj* VM::find(uint64_t addr, uint64_t n, bool write, uint64_t& off) {
  uint32_t id = addr >> 32;
  off = (addr & 0xffffffff) - OFF0;
  if (id == 0) memError("null dereference", addr, n);
  if (id >= objs.size()) memError("wild pointer", addr, n);
  Obj* o = &objs[id];
  if (!o->alive) memError(o->kind == 2 ? "use after return" : "use after free", addr, n);
  if (off > o->size || n > o->size - off) memError(write ? "out-of-bounds write" : "out-of-bounds read", addr, n);
  if (write) {
    if (o->readonly && !initPhase) memError("write to constant", addr, n);
    if (o->cow) o = &own(id);
  }
  return o;
}
E VM::byteE(Obj* o, uint64_t off) {
  if (o->und && o->und[off]) {
    if (o->cow) { uint32_t id = o - &objs[0]; o = &own(id); }
    if (getenv("VSYM_UNINIT")) fprintf(stderr, "[uninit] off %llu of %s size %llu at %s\n", (unsigned long long)off, o->name ? o->name : "?", (unsigned long long)o->size, stackStr().c_str());
    E v = newVar("uninit", 8, true);
    o->data[off] = (uint8_t)varVal(v);
    o->und[off] = 0; --o->undCount;
    if (!o->sh) o->sh = (E*)calloc(o->size, sizeof(E));
    o->sh[off] = v;
  }
  return o->sh ? o->sh[off] : nullptr;
}
Val VM::loadAt(Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (w <= 64) {
    bool slow = false;
    if (o->undCount) for (unsigned i = 0; i < n; ++i) if (o->und[off + i]) { slow = true; break; }
    if (!slow && o->sh) for (unsigned i = 0; i < n; ++i) if (o->sh[off + i]) { slow = true; break; }
    if (!slow) { uint64_t v = 0; memcpy(&v, o->data + off, n); return Val{v & m64(w), nullptr}; }
  }
  uint32_t id = o - &objs[0];
  E e = nullptr; uint64_t c = 0;
  for (unsigned i = 0; i < n; ++i) {
    E b = byteE(&objs[id], off + i);
    uint8_t d = objs[id].data[off + i];
    if (!b) b = mkConst(d, 8);
    if (i < 8) c |= (uint64_t)d << (8 * i);
    e = e ? mkConcat(b, e) : b;
  }
  if (w < n * 8) { e = mkExtract(e, 0, w); c &= m64(w); }
  if (w <= 64 && e->isConst()) return Val{(uint64_t)e->val, nullptr};
  return Val{c, e};
}
void VM::storeAt(Obj* o, uint64_t off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (o->undCount) for (unsigned i = 0; i < n; ++i) if (o->und[off + i]) { o->und[off + i] = 0; --o->undCount; }
  if (!v.e) {
    uint64_t c = v.c & m64(w);
    memcpy(o->data + off, &c, n);
    if (o->sh) memset((void*)(o->sh + off), 0, n * sizeof(E));
    return;
  }
  E e = v.e;
  if (w < n * 8) e = mkZExt(e, n * 8);
  if (w > 64) { u128 c = e->isConst() ? e->val : evalExpr(e, model); memcpy(o->data + off, &c, n); }
  else memcpy(o->data + off, &v.c, n);
  if (e->isConst()) { if (o->sh) memset((void*)(o->sh + off), 0, n * sizeof(E)); return; }
  if (!o->sh) o->sh = (E*)calloc(o->size, sizeof(E));
  for (unsigned i = 0; i < n; ++i) { E b = mkExtract(e, 8 * i, 8); o->sh[off + i] = b->isConst() ? nullptr : b; }
}
static unsigned lowZeroBits(E e) {
  switch (e->op) {
    case OP_CONST: { if (!e->val) return 64; unsigned k = 0; while (!((e->val >> k) & 1)) ++k; return k; }
    case OP_CONCAT: { unsigned k = lowZeroBits(e->b); return k >= e->b->width ? e->b->width + lowZeroBits(e->a) : k; }
    case OP_ZEXT: case OP_SEXT: { unsigned k = lowZeroBits(e->a); return k; }
    case OP_ADD: case OP_SUB: case OP_OR: return std::min(lowZeroBits(e->a), lowZeroBits(e->b));
    case OP_MUL: return std::min(63u, lowZeroBits(e->a) + lowZeroBits(e->b));
    case OP_ITE: return std::min(lowZeroBits(e->b), lowZeroBits(e->c));
    case OP_AND: return std::max(lowZeroBits(e->a), lowZeroBits(e->b));
    default: return 0;
  }
}
// bounds the access inside the object the concrete pointer designates; the other side becomes another path
static E boundIn(VM& v, E addr, Obj* o, uint32_t id, uint64_t n) {
  E off = mkBin(OP_SUB, addr, mkConst(addrOf(id), 64));
  ++v.boundsQueries;
  E in = mkCmp(OP_ULE, off, mkConst(o->size - n, 64));
  v.branch(Val{1, in->isConst() ? nullptr : in});
  return off;
}
Val VM::load(const Val& a, unsigned w) {
  uint64_t off; unsigned n = (w + 7) / 8;
  Obj* o = find(a.c, n, false, off);
  if (raceCheck) raceAccess(a.c, n, false, false);
  if (!a.e) return loadAt(o, off, w);
  uint32_t id = a.c >> 32;
  E offE = boundIn(*this, a.e, o, id, n);
  o = &objs[id];
  if (offE->isConst()) return loadAt(o, (uint64_t)offE->val, w);
  unsigned k = std::min(lowZeroBits(offE), 12u);
  uint64_t stride = 1ull << k, cnt = (o->size - n) / stride + 1;
  if (cnt > iteLoadMax || w > 64) { uint64_t c = concretize(a, 64); o = find(c, n, false, off); return loadAt(o, off, w); }
  // balanced multiplexer over the candidate offsets
  std::vector<E> vals(cnt);
  for (uint64_t i = 0; i < cnt; ++i) { vals[i] = toE(loadAt(&objs[id], i * stride, w), w); }
  E idx = mkExtract(offE, k, 64 - k);
  struct R { static E go(const std::vector<E>& v, E idx, uint64_t lo, uint64_t hi) {
    if (hi - lo == 1) return v[lo];
    bool same = true; for (uint64_t i = lo + 1; i < hi && same; ++i) same = v[i] == v[lo];
    if (same) return v[lo];
    uint64_t mid = (lo + hi) / 2;
    return mkIte(mkCmp(OP_ULT, idx, mkConst(mid, idx->width)), go(v, idx, lo, mid), go(v, idx, mid, hi)); } };
  E e = R::go(vals, idx, 0, cnt);
  Val cv = loadAt(&objs[id], (a.c & 0xffffffff) - OFF0, w);
  return fromE(e, cv.c);
}
void VM::store(const Val& a, const Val& v, unsigned w) {
  uint64_t off; unsigned n = (w + 7) / 8;
  Obj* o = find(a.c, n, true, off);
  if (raceCheck) raceAccess(a.c, n, true, false);
  if (!a.e) { storeAt(o, off, v, w); return; }
  uint32_t id = a.c >> 32;
  E offE = boundIn(*this, a.e, o, id, n);
  o = &objs[id];
  if (offE->isConst()) { storeAt(o, (uint64_t)offE->val, v, w); return; }
  unsigned k = std::min(lowZeroBits(offE), 12u);
  uint64_t stride = 1ull << k, cnt = (o->size - n) / stride + 1;
  if (cnt > iteStoreMax || w > 64 || stride < n) { uint64_t c = concretize(a, 64); o = find(c, n, true, off); storeAt(o, off, v, w); return; }
  for (uint64_t i = 0; i < cnt; ++i) {
    Val old = loadAt(&objs[id], i * stride, w);
    bool hit = off == i * stride;
    E e = mkIte(mkEq(offE, mkConst(i * stride, 64)), toE(v, w), toE(old, w));
    storeAt(&objs[id], i * stride, fromE(e, hit ? v.c : old.c), w);
  }
}
void VM::copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  uint64_t so, dof;
  Obj* src = find(s, n, false, so);
  Obj* dst = find(d, n, true, dof);
  src = &objs[s >> 32];
  if (raceCheck) { raceAccess(s, n, false, false); raceAccess(d, n, true, false); }
  memmove(dst->data + dof, src->data + so, n);
  if (src->sh || dst->sh) {
    if (!dst->sh) dst->sh = (E*)calloc(dst->size, sizeof(E));
    if (src->sh) memmove((void*)(dst->sh + dof), src->sh + so, n * sizeof(E)); else memset((void*)(dst->sh + dof), 0, n * sizeof(E));
  }
  if (src->undCount || dst->undCount) {
    if (!dst->und) { dst->und = (uint8_t*)calloc(dst->size, 1); }
    if (src->undCount) memmove(dst->und + dof, src->und + so, n); else memset(dst->und + dof, 0, n);
    uint32_t c = 0; for (uint64_t i = 0; i < dst->size; ++i) c += dst->und[i]; 
    dst->undCount = c;
  }
}
void VM::setMem(uint64_t d, const Val& v, uint64_t n) {
  if (!n) return;
  uint64_t off; Obj* o = find(d, n, true, off);
  if (raceCheck) raceAccess(d, n, true, false);
  memset(o->data + off, (uint8_t)v.c, n);
  if (o->undCount) { if (off == 0 && n == o->size) { o->undCount = 0; free(o->und); o->und = nullptr; } else for (uint64_t i = 0; i < n; ++i) if (o->und[off + i]) { o->und[off + i] = 0; --o->undCount; } }
  if (v.e) { if (!o->sh) o->sh = (E*)calloc(o->size, sizeof(E)); E b = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; ++i) o->sh[off + i] = b->isConst() ? nullptr : b; }
  else if (o->sh) memset((void*)(o->sh + off), 0, n * sizeof(E));
}
std::string VM::cstr(uint64_t a) {
  std::string s;
  for (;; ++a) { uint64_t off; Obj* o = find(a, 1, false, off); Val b = loadAt(o, off, 8); uint64_t c = b.e ? concretize(b, 8) : b.c; if (!c) return s; s.push_back((char)c); }
}
void VM::wr(uint64_t a, uint64_t v, unsigned bytes) { uint64_t off; Obj* o = find(a, bytes, true, off); storeAt(o, off, Val{v, nullptr}, bytes * 8); }
uint64_t VM::rd(uint64_t a, unsigned bytes) { uint64_t off; Obj* o = find(a, bytes, false, off); Val v = loadAt(o, off, bytes * 8); return v.e ? concretize(v, bytes * 8) : v.c; }

// ---------------------------------------------------------------- symbolic state
E VM::newVar(const std::string& name, unsigned w, bool internal) {
  std::string key = name + "#" + std::to_string(symCount[name]++);
  auto it = varIdx.find(key);
  uint32_t idx;
  if (it == varIdx.end()) { E e = mkVar(key, w, internal); idx = e->aux; varIdx.emplace(key, idx); }
  else { idx = it->second; if (gVars[idx].width != w) { // same name, other width on another path
      key += "/" + std::to_string(w);
      auto it2 = varIdx.find(key);
      if (it2 == varIdx.end()) { E e = mkVar(key, w, internal); idx = e->aux; varIdx.emplace(key, idx); } else idx = it2->second; } }
  runVars.push_back(idx);
  return gVars[idx].e;
}
u128 VM::varVal(E v) { return v->aux < model.v.size() ? model.v[v->aux] : 0; }
void VM::pushItem(const Model& m, int32_t d, std::vector<uint64_t> excl) {
  Item it; it.d = d; it.excl = std::move(excl);
  for (uint32_t i = 0; i < m.v.size(); ++i) if (m.v[i]) it.model.push_back({i, m.v[i]});
  out.push_back(std::move(it));
}
bool VM::branch(const Val& v) {
  if (!v.e) return v.c & 1;
  int k = pc.lookup(v.e);
  if (k >= 0) { if ((bool)k != (bool)(v.c & 1)) { fprintf(stderr, "vsym internal: concrete/symbolic divergence at %s\n", stackStr().c_str()); unsupported("internal divergence"); } return k; }
  bool t = v.c & 1;
  if (selfCheck && (evalExpr(v.e, model) & 1) != t) { fprintf(stderr, "vsym selfcheck failed: %s\n at %s\n", exprStr(v.e, 12).c_str(), stackStr().c_str()); unsupported("selfcheck"); }
  E c = t ? v.e : mkNot(v.e);
  int32_t idx = ndec++;
  if (idx > item.d) {
    Model m;
    Sat r = solver.check(pc, mkNot(c), model, m);
    if (r == Sat::Sat) pushItem(m, idx, {});
    else if (r == Sat::Unknown) inconcl.insert("solver gave no answer within the time limit (branch) at " + stackStr());
  }
  pc.add(c);
  return t;
}
void VM::assume(const Val& v) {
  if (!v.e) { if (!(v.c & 1)) throw PathEnd{"assume"}; return; }
  if (v.c & 1) { pc.add(v.e); return; }
  Model m;
  Sat r = solver.check(pc, v.e, model, m);
  if (r == Sat::Sat) pushItem(m, std::max(item.d, ndec - 1), {});
  else if (r == Sat::Unknown) inconcl.insert("solver gave no answer within the time limit (assume) at " + stackStr());
  throw PathEnd{"assume"};
}
void VM::assertV(const Val& v, const std::string& kind, const std::string& msg) {
  ++asserts;
  if (!v.e) { if (!(v.c & 1)) violate(kind, msg); return; }
  if (!(v.c & 1)) {
    recordViolation(kind, msg, model);
    Model m;
    Sat r = solver.check(pc, v.e, model, m);
    if (r == Sat::Sat) pushItem(m, std::max(item.d, ndec - 1), {});
    else if (r == Sat::Unknown) inconcl.insert("solver gave no answer within the time limit (assert) at " + stackStr());
    throw PathEnd{"violation"};
  }
  if (fresh()) {
    ++assertQueries;
    Model m;
    Sat r = solver.check(pc, mkNot(v.e), model, m);
    if (r == Sat::Sat) { recordViolation(kind, msg, m); pc.add(v.e); }
    else if (r == Sat::Unknown) inconcl.insert("solver gave no answer within the time limit (assertion '" + msg + "')");
  }
}
uint64_t VM::concretize(const Val& v, unsigned w) {
  if (!v.e) return v.c;
  if (w > 64) unsupported("concretize wide");
  E eq = mkEq(v.e, mkConst(v.c, w));
  if (eq->isConst() || pc.lookup(eq) == 1) return v.c;
  int32_t idx = ndec++;
  bool cont = idx == item.d && !item.excl.empty();
  if (idx > item.d || cont) {
    std::vector<uint64_t> ex = cont ? item.excl : std::vector<uint64_t>();
    ex.push_back(v.c);
    if (ex.size() > 70000) { inconcl.insert("too many values to enumerate at " + stackStr()); }
    else {
      E cond = mkTrue();
      for (uint64_t x : ex) cond = mkBAnd(cond, mkNot(mkEq(v.e, mkConst(x, w))));
      Model m;
      Sat r = solver.check(pc, cond, model, m);
      if (r == Sat::Sat) pushItem(m, idx, ex);
      else if (r == Sat::Unknown) inconcl.insert("solver gave no answer within the time limit (concretize) at " + stackStr());
    }
  }
  pc.add(eq);
  return v.c;
}
uint32_t VM::choose(uint32_t n, const char* name) {
  if (n <= 1) return 0;
  E v = newVar(name, 8, false);
  if (varVal(v) >= n) { if (model.v.size() <= v->aux) model.v.resize(v->aux + 1); model.v[v->aux] = 0; }
  E c = mkCmp(OP_ULT, v, mkConst(n, 8));
  if (!c->isConst()) pc.add(c);
  // an unconstrained choice: the other values need no solver
  uint64_t cv = (uint64_t)varVal(v);
  int32_t idx = ndec++;
  bool cont = idx == item.d && !item.excl.empty();
  if (idx > item.d || cont) {
    std::vector<uint64_t> ex = cont ? item.excl : std::vector<uint64_t>();
    ex.push_back(cv);
    for (uint64_t x = 0; x < n; ++x) if (std::find(ex.begin(), ex.end(), x) == ex.end()) {
      Model m = model; if (m.v.size() <= v->aux) m.v.resize(v->aux + 1); m.v[v->aux] = x;
      pushItem(m, idx, ex); break;
    }
  }
  pc.add(mkEq(v, mkConst(cv, 8)));
  return cv;
}

// ---------------------------------------------------------------- loading
DFunc* VM::getFunc(const Function* F) {
  auto it = dfuncs.find(F);
  if (it != dfuncs.end()) return it->second;
  DFunc* f = new DFunc();
  f->F = F; f->name = F->getName().str(); f->world = f->name.compare(0, 7, "__wrap_") == 0 || f->name.compare(0, 5, "vsfs_") == 0 || f->name.find("2os10randomName") != std::string::npos;
  f->intr = findIntrinsic(f->name);
  f->addr = (1ull << 32) + OFF0 + 16 * (funcByIdx.size() + 1);
  funcByIdx.push_back(f);
  dfuncs[F] = f;
  return f;
}
uint64_t VM::constAddr(const Constant* c) {
  c = cast<Constant>(c->stripPointerCasts());
  if (auto* f = dyn_cast<Function>(c)) return getFunc(f)->addr;
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) { errs() << "global without address " << g->getName() << "\n"; _Exit(98); }
    return it->second;
  }
  if (isa<ConstantPointerNull>(c)) return 0;
  std::vector<Val> v; constVals(c, v);
  return v[0].c;
}
void VM::constVals(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back({ci->getZExtValue(), nullptr});
    else if (w <= 128) { u128 v = 0; auto& ap = ci->getValue(); v = ap.getRawData()[0]; if (ap.getNumWords() > 1) v |= (u128)ap.getRawData()[1] << 64; out.push_back({(uint64_t)v, mkConst(v, w)}); }
    else out.push_back({0, nullptr});
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); out.push_back({b.getRawData()[0], nullptr}); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back({0, nullptr}); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c)) {
    unsigned n = slotsOf(t); unsigned w = leafWidth0(t);
    for (unsigned i = 0; i < n; ++i) out.push_back({0, (n == 1 && w > 64) ? mkConst(0, w) : nullptr});
    return;
  }
  if (isa<GlobalValue>(c)) { out.push_back({constAddr(c), nullptr}); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& op : ca->operands()) constVals(cast<Constant>(op), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off)) { out.push_back({constAddr(cast<Constant>(g->getPointerOperand())) + (uint64_t)off.getSExtValue(), nullptr}); return; }
    }
    std::vector<Val> a, b;
    switch (ce->getOpcode()) {
      case Instruction::PtrToInt: { constVals(ce->getOperand(0), a); unsigned w = bitsOf(t); out.push_back({a[0].c & m64(w), nullptr}); return; }
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: constVals(ce->getOperand(0), out); return;
      case Instruction::Add: constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); out.push_back({(a[0].c + b[0].c) & m64(bitsOf(t)), nullptr}); return;
      case Instruction::Sub: constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); out.push_back({(a[0].c - b[0].c) & m64(bitsOf(t)), nullptr}); return;
      case Instruction::Trunc: constVals(ce->getOperand(0), a); out.push_back({a[0].c & m64(bitsOf(t)), nullptr}); return;
      case Instruction::ICmp: constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); { bool eq = a[0].c == b[0].c; auto p = ce->getPredicate(); out.push_back({(uint64_t)(p == CmpInst::ICMP_EQ ? eq : !eq), nullptr}); } return;
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "vsym: unsupported constant %s\n", s.c_str());
  unsigned n = slotsOf(t); for (unsigned i = 0; i < n; ++i) out.push_back({0, nullptr});
}
void VM::writeInit(uint64_t addr, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    unsigned eb = DL->getTypeStoreSize(cd->getElementType());
    if (!cd->getElementType()->isX86_FP80Ty()) { auto s = cd->getRawDataValues(); uint64_t off; Obj* o = find(addr, s.size(), true, off); memcpy(o->data + off, s.data(), s.size()); (void)eb; return; }
  }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); ++i) writeInit(addr + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) writeInit(addr + i * es, a->getOperand(i)); return; }
  if (t->isX86_FP80Ty() || t->isFP128Ty()) return;
  std::vector<Leaf> lf; leafs(*DL, t, 0, lf);
  std::vector<Val> v; constVals(c, v);
  for (size_t i = 0; i < lf.size() && i < v.size(); ++i) { uint64_t off; Obj* o = find(addr + lf[i].off, lf[i].bytes, true, off); storeAt(o, off, v[i], lf[i].width); }
}
void VM::load(Module* m) { M = m; DL = &m->getDataLayout(); }
void VM::initGlobals() {
  objs.resize(2); // 0: null, 1: functions
  objs[1].name = "function"; objs[1].alive = true; objs[1].size = 0;
  for (auto& F : *M) getFunc(&F);
  std::vector<std::pair<const GlobalVariable*, uint64_t>> todo;
  for (auto& g : M->globals()) {
    uint64_t sz = 256;
    if (g.getValueType()->isSized()) sz = DL->getTypeAllocSize(g.getValueType());
    if (g.isDeclaration() && sz < 256) sz = 256;
    uint64_t a = alloc(sz, 0, false, strdup(g.getName().str().c_str()));
    gaddr[&g] = a;
    if (g.hasInitializer()) todo.push_back({&g, a});
  }
  memUsed = 0;
  for (auto& [g, a] : todo) writeInit(a, g->getInitializer());
  for (auto& [g, a] : todo) if (g->isConstant()) objs[a >> 32].readonly = true;
  // type infos
  for (auto& g : M->globals()) {
    StringRef n = g.getName();
    if (!n.starts_with("_ZTI")) continue;
    uint64_t a = gaddr[&g];
    tiName[a] = n.str();
    auto& par = tiParents[a];
    if (g.hasInitializer()) {
      if (auto* s = dyn_cast<ConstantStruct>(g.getInitializer())) {
        for (unsigned i = 2; i < s->getNumOperands(); ++i) if (s->getOperand(i)->getType()->isPointerTy()) par.push_back(constAddr(s->getOperand(i)));
      }
    }
  }
  static const char* ext[][2] = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"}};
  for (auto& p : ext) {
    auto* a = M->getGlobalVariable(p[0], true); auto* b = M->getGlobalVariable(p[1], true);
    if (a && b && !a->hasInitializer()) tiParents[gaddr[a]].push_back(gaddr[b]);
    // skip a missing middle level
    if (a && !b && !a->hasInitializer()) for (auto& q : ext) if (!strcmp(q[0], p[1])) if (auto* c = M->getGlobalVariable(q[1], true)) tiParents[gaddr[a]].push_back(gaddr[c]);
  }
}
void VM::runInit() {
  auto* ctors = M->getGlobalVariable("llvm.global_ctors");
  std::vector<std::pair<uint64_t, const Function*>> fs;
  if (ctors && ctors->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(ctors->getInitializer()))
    for (auto& op : arr->operands()) {
      auto* cs = cast<ConstantStruct>(op);
      if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
    }
  std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
  item.d = 1 << 30;
  for (auto& [p, F] : fs) runFrom(getFunc(F));
  baseObjs = objs;
  for (auto& o : baseObjs) o.cow = true;
  objs = baseObjs;
  totSteps = 0;
  initPhase = false;
}
void VM::runFrom(DFunc* f) {
  threads.clear(); threads.emplace_back(); cur = 0; threads[0].id = 0; threads[0].vc.assign(1, 1);
  pushFrame(T(), f, nullptr, 0);
  steps = 0;
  loop(0);
}
void VM::runItem(const Item& it) {
  // reset
  for (size_t i = 0; i < objs.size(); ++i) if (!objs[i].cow) release(objs[i]);
  objs = baseObjs;
  pc.clear(); out.clear(); symCount.clear(); runVars.clear(); excs.clear(); mutexes.clear(); clk.clear(); races.clear(); tlsOf.clear(); syncVC.clear();
  memUsed = 0; ndec = 0; preempts = 0;
  model.v.assign(gVars.size(), 0);
  for (auto& [i, v] : it.model) { if (model.v.size() <= i) model.v.resize(i + 1); model.v[i] = v; }
  item = it;
  ++paths; pathReach.clear(); completed = false;
  Function* F = M->getFunction(entry);
  try { runFrom(getFunc(F)); completed = true; }
  catch (PathEnd& e) { if (e.why == "assume") ++pathsCut; if (e.why == "unsupported") ++inconclusive; }
  totSteps += steps;
}

// ---------------------------------------------------------------- decoding
static int32_t opk(int32_t op, int k) { return op >= 0 ? op + k : op - k; }

static bool cf_isIgnorable(const std::string& n) {
  static const char* pre[] = {"llvm.lifetime.", "llvm.dbg.", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.invariant.", "llvm.var.annotation", "llvm.prefetch", "llvm.sideeffect", "llvm.pseudoprobe"};
  for (auto* p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
  return false;
}
void VM::decode(DFunc* f) {
  const Function* F = f->F;
  std::unordered_map<const Value*, int32_t> slot;
  std::unordered_map<const BasicBlock*, int32_t> bbStart;
  std::unordered_map<const Constant*, int32_t> cslot;
  uint32_t n = 0;
  for (auto& a : F->args()) { slot[&a] = n; unsigned k = slotsOf(a.getType()); for (unsigned i = 0; i < k; ++i) f->argW.push_back(leafWidth0(a.getType())); n += k; }
  f->nargs = n;
  for (auto& bb : *F) for (auto& I : bb) { unsigned k = slotsOf(I.getType()); if (k) { slot[&I] = n; n += k; } }
  f->nslots = n;
  auto opnd = [&](const Value* v) -> int32_t {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c);
      if (it != cslot.end()) return it->second;
      int32_t r = -1 - (int32_t)f->consts.size();
      constVals(c, f->consts);
      cslot[c] = r;
      return r;
    }
    auto it = slot.find(v);
    if (it == slot.end()) return -1000000000;
    return it->second;
  };
  // instruction positions
  int32_t pos = 0;
  for (auto& bb : *F) { bbStart[&bb] = pos; for (auto& I : bb) { if (isa<PHINode>(I)) continue; ++pos; } }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> Edge* {
    Edge* e = new Edge(); e->target = bbStart[to];
    for (auto& phi : to->phis()) {
      const Value* v = phi.getIncomingValueForBlock(from);
      int32_t s = opnd(v), d = slot[&phi]; unsigned k = slotsOf(phi.getType());
      for (unsigned i = 0; i < k; ++i) e->copies.push_back({d + (int32_t)i, opk(s, i)});
    }
    return e;
  };
  for (auto& bb : *F) for (auto& I : bb) {
    if (isa<PHINode>(I)) continue;
    Ins x; x.I = &I; x.op = I.getOpcode();
    Type* t = I.getType();
    auto si = slot.find(&I);
    if (si != slot.end()) x.dst = si->second;
    x.w = leafWidth0(t);
    unsigned vn = isa<FixedVectorType>(t) ? slotsOf(t) : 1;
    x.w2 = vn;
    switch (I.getOpcode()) {
      case Instruction::Ret: if (I.getNumOperands()) { x.a = opnd(I.getOperand(0)); x.imm = slotsOf(I.getOperand(0)->getType()); } break;
      case Instruction::Br: { auto* b = cast<BranchInst>(&I);
        if (b->isConditional()) { x.op = X_BRC; x.a = opnd(b->getCondition()); auto* es = new Edge*[2]{edge(&bb, b->getSuccessor(0)), edge(&bb, b->getSuccessor(1))}; x.p = es; }
        else x.p = edge(&bb, b->getSuccessor(0));
        break; }
      case Instruction::Switch: {
        auto* s = cast<SwitchInst>(&I); x.a = opnd(s->getCondition()); x.w = bitsOf(s->getCondition()->getType());
        struct Sw { std::vector<std::pair<uint64_t, int>> cases; std::vector<Edge*> edges; };
        auto* sw = new Sw(); sw->edges.push_back(edge(&bb, s->getDefaultDest()));
        std::map<const BasicBlock*, int> tgt; tgt[s->getDefaultDest()] = 0;
        for (auto& c : s->cases()) { auto* to = c.getCaseSuccessor(); if (!tgt.count(to)) { tgt[to] = sw->edges.size(); sw->edges.push_back(edge(&bb, to)); } sw->cases.push_back({c.getCaseValue()->getValue().getRawData()[0], tgt[to]}); }
        x.p = sw; break; }
      case Instruction::Unreachable: break;
      case Instruction::Alloca: { auto* al = cast<AllocaInst>(&I); x.imm = DL->getTypeAllocSize(al->getAllocatedType()); x.a = opnd(al->getArraySize()); x.b = bitsOf(al->getArraySize()->getType()); break; }
      case Instruction::Load: case Instruction::Store: {
        bool ld = I.getOpcode() == Instruction::Load;
        Type* vt = ld ? t : I.getOperand(0)->getType();
        x.a = opnd(ld ? cast<LoadInst>(&I)->getPointerOperand() : cast<StoreInst>(&I)->getPointerOperand());
        if (!ld) x.b = opnd(I.getOperand(0));
        x.sub = ld ? cast<LoadInst>(&I)->isAtomic() : cast<StoreInst>(&I)->isAtomic();
        auto* lf = new std::vector<Leaf>(); leafs(*DL, vt, 0, *lf);
        bool bad = false; for (auto& l : *lf) if (l.width == 0 || l.width > 128 || (vt->isX86_FP80Ty())) bad = true;
        if (bad) { x.op = X_UNSUP; break; }
        if (lf->size() == 1) { x.w = (*lf)[0].width; delete lf; } else { x.op = ld ? X_LOADN : X_STOREN; x.p = lf; }
        break; }
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(&I); x.a = opnd(g->getPointerOperand());
        auto* terms = new std::vector<GepTerm>(); int64_t c = 0;
        if (t->isVectorTy()) { x.op = X_UNSUP; break; }
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* idx = it.getOperand();
          if (auto* st = it.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) { c += ci->getSExtValue() * sc; continue; }
          terms->push_back({opnd(idx), sc, bitsOf(idx->getType())});
        }
        x.imm = (uint64_t)c; x.p = terms; if (terms->empty()) { x.op = X_GEPC; } break; }
      case Instruction::ICmp: case Instruction::FCmp: x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.sub = cast<CmpInst>(&I)->getPredicate(); x.w = leafWidth0(I.getOperand(0)->getType()); x.w2 = isa<FixedVectorType>(I.getOperand(0)->getType()) ? slotsOf(I.getOperand(0)->getType()) : 1; break;
      case Instruction::Select: x.c = opnd(I.getOperand(0)); x.a = opnd(I.getOperand(1)); x.b = opnd(I.getOperand(2)); x.w2 = slotsOf(t); x.sub = I.getOperand(0)->getType()->isVectorTy(); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        x.a = opnd(I.getOperand(0)); x.sub = leafWidth0(I.getOperand(0)->getType()); if (x.w == 80 || x.sub == 80) x.op = X_UNSUP; break;
      case Instruction::BitCast: {
        x.a = opnd(I.getOperand(0)); Type* st = I.getOperand(0)->getType();
        if (st->isVectorTy() || t->isVectorTy()) { x.sub = leafWidth0(st); x.imm = slotsOf(st); }
        else { x.op = X_MOVE; x.w2 = 1; }
        break; }
      case Instruction::Freeze: x.op = X_MOVE; x.a = opnd(I.getOperand(0)); x.w2 = slotsOf(t); break;
      case Instruction::FNeg: x.a = opnd(I.getOperand(0)); break;
      case Instruction::ExtractValue: case Instruction::InsertValue: {
        bool ex = I.getOpcode() == Instruction::ExtractValue;
        Type* at = I.getOperand(0)->getType(); unsigned off = 0;
        auto idx = ex ? cast<ExtractValueInst>(&I)->getIndices() : cast<InsertValueInst>(&I)->getIndices();
        for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(at)) { for (unsigned k = 0; k < i; ++k) off += slotsOf(st->getElementType(k)); at = st->getElementType(i); } else { auto* ar = cast<ArrayType>(at); off += i * slotsOf(ar->getElementType()); at = ar->getElementType(); } }
        x.a = opnd(I.getOperand(0));
        if (ex) { x.op = X_MOVE; x.a = opk(x.a, off); x.w2 = slotsOf(t); }
        else { x.b = opnd(I.getOperand(1)); x.imm = off; x.w2 = slotsOf(at); x.sub = slotsOf(t); }
        break; }
      case Instruction::ExtractElement: x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.sub = slotsOf(I.getOperand(0)->getType()); x.imm = bitsOf(I.getOperand(1)->getType()); break;
      case Instruction::InsertElement: x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); x.imm = bitsOf(I.getOperand(2)->getType()); break;
      case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.sub = slotsOf(I.getOperand(0)->getType()); x.p = new std::vector<int>(sv->getShuffleMask().begin(), sv->getShuffleMask().end()); break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(&I);
        auto* ci = new CallInfo(); ci->cb = cb;
        ci->resSlots = slotsOf(t); ci->resW = leafWidth0(t);
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { ci->normal = edge(&bb, inv->getNormalDest()); ci->unwind = edge(&bb, inv->getUnwindDest()); ci->lp = inv->getLandingPadInst(); }
        x.p = ci; x.op = Instruction::Call;
        if (cb->isInlineAsm()) { // compiler barriers and cpu hints only
          auto* ia = cast<InlineAsm>(cb->getCalledOperand());
          if (!t->isVoidTy() || !ia->getAsmString().empty()) { if (ia->getAsmString().find("pause") == std::string::npos) x.op = X_UNSUP; else { x.op = X_MOVE; x.w2 = 0; } }
          else { x.op = X_MOVE; x.w2 = 0; }
          break;
        }
        const Value* cal = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
        if (auto* cf = dyn_cast<Function>(cal)) ci->direct = getFunc(cf); else x.a = opnd(cal);
        if (ci->direct && cf_isIgnorable(ci->direct->name)) { x.op = X_MOVE; x.w2 = 0; if (ci->normal) { x.op = Instruction::Br; x.p = ci->normal; } break; }
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
          Value* av = cb->getArgOperand(i);
          if (av->getType()->isMetadataTy()) continue;
          int32_t o = opnd(av); unsigned k = slotsOf(av->getType());
          ci->argSlots.push_back(k);
          uint64_t bv = 0; if (cb->isByValArgument(i)) bv = DL->getTypeAllocSize(cb->getParamByValType(i));
          for (unsigned j = 0; j < k; ++j) { ci->args.push_back(opk(o, j)); ci->widths.push_back(leafWidth0(av->getType())); ci->byval.push_back(bv); }
        }
        break; }
      case Instruction::LandingPad: case Instruction::Fence: break;
      case Instruction::Resume: x.a = opnd(I.getOperand(0)); break;
      case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(&I); x.a = opnd(r->getPointerOperand()); x.b = opnd(r->getValOperand()); x.sub = r->getOperation(); break; }
      case Instruction::AtomicCmpXchg: { auto* r = cast<AtomicCmpXchgInst>(&I); x.a = opnd(r->getPointerOperand()); x.b = opnd(r->getCompareOperand()); x.c = opnd(r->getNewValOperand()); x.w = bitsOf(r->getCompareOperand()->getType()); break; }
      default:
        if (I.isBinaryOp()) { x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); if (x.w == 80 || x.w > 128) x.op = X_UNSUP; break; }
        x.op = X_UNSUP; break;
    }
    f->code.push_back(x);
  }
  f->decoded = true;
}
