#include "expr.h"
#include <cmath>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <sstream>

std::vector<VarInfo> gVars;

static std::vector<Expr*> table;
static size_t tableUsed = 0;
static uint32_t nextId = 1;
static Expr* arena = nullptr;
static size_t arenaLeft = 0;

size_t exprCount() { return nextId; }

static Expr* allocExpr() {
  if (!arenaLeft) { arenaLeft = 8192; arena = (Expr*)malloc(sizeof(Expr) * arenaLeft); }
  --arenaLeft;
  return arena++;
}

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

static E intern(Op op, unsigned w, uint32_t aux, E a, E b, E c, u128 val) {
  uint64_t h = mix(op * 131 + w, aux);
  h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, c ? c->id : 0);
  h = mix(h, (uint64_t)val); h = mix(h, (uint64_t)(val >> 64));
  uint32_t hh = (uint32_t)h;
  if (table.empty()) table.resize(1 << 18);
  size_t m = table.size() - 1, i = hh & m;
  while (Expr* e = table[i]) {
    if (e->hash == hh && e->op == op && e->width == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->val == val) return e;
    i = (i + 1) & m;
  }
  Expr* e = allocExpr();
  e->op = op; e->width = w; e->aux = aux; e->id = nextId++; e->hash = hh; e->a = a; e->b = b; e->c = c; e->val = val;
  e->vset = -1; e->evEpoch = 0;
  e->hasFP = (op >= OP_FADD) || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
  table[i] = e;
  if (++tableUsed * 2 > table.size()) {
    std::vector<Expr*> nt(table.size() * 2);
    size_t nm = nt.size() - 1;
    for (Expr* x : table) if (x) { size_t j = x->hash & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
    table.swap(nt);
  }
  return e;
}

E mkConst(u128 v, unsigned w) { return intern(OP_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkVar(const std::string& name, unsigned w, bool internal) {
  uint32_t idx = gVars.size();
  E e = intern(OP_VAR, w, idx, nullptr, nullptr, nullptr, 0);
  gVars.push_back({name, w, e, internal});
  return e;
}

static inline __int128 sx(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s) - s);
}

static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 evalOp(Op op, unsigned w, unsigned aux, u128 a, unsigned wa, u128 b, u128 c) {
  u128 m = maskw(w);
  switch (op) {
    case OP_ADD: return (a + b) & m;
    case OP_SUB: return (a - b) & m;
    case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b == 0 ? m : (a / b) & m;
    case OP_UREM: return b == 0 ? a : (a % b) & m;
    case OP_SDIV: { __int128 x = sx(a, w), y = sx(b, w); if (y == 0) return (x < 0 ? (u128)1 : m) & m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case OP_SREM: { __int128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case OP_AND: return a & b;
    case OP_OR: return a | b;
    case OP_XOR: return a ^ b;
    case OP_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case OP_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case OP_ASHR: { __int128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case OP_EQ: return a == b;
    case OP_ULT: return a < b;
    case OP_ULE: return a <= b;
    case OP_SLT: return sx(a, wa) < sx(b, wa);
    case OP_SLE: return sx(a, wa) <= sx(b, wa);
    case OP_EXTRACT: return (a >> aux) & m;
    case OP_ZEXT: return a;
    case OP_SEXT: return (u128)sx(a, wa) & m;
    case OP_ITE: return a ? b : c;
    case OP_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case OP_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case OP_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case OP_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case OP_FSQRT: return w == 64 ? fromD(std::sqrt(asD(a))) : fromF(std::sqrt(asF(a)));
    case OP_FLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case OP_FLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case OP_FEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case OP_FPTOSI: { double d = wa == 64 ? asD(a) : asF(a); if (std::isnan(d)) return (u128)1 << (w - 1);
        if (w == 64) { if (d >= 9223372036854775808.0 || d < -9223372036854775808.0) return (u128)1 << 63; return (u128)(uint64_t)(int64_t)d; }
        if (w == 32) { if (d >= 2147483648.0 || d <= -2147483649.0) return (u128)1 << 31; return (u128)(uint32_t)(int32_t)d; }
        return (u128)(uint64_t)(int64_t)d & m; }
    case OP_FPTOUI: { double d = wa == 64 ? asD(a) : asF(a); if (std::isnan(d) || d <= -1) return m;
        if (w == 64) { if (d >= 18446744073709551616.0) return m; return (u128)(uint64_t)d; }
        if (d >= 18446744073709551616.0) return m; return (u128)(uint64_t)d & m; }
    case OP_SITOFP: { __int128 x = sx(a, wa); return w == 64 ? fromD((double)(int64_t)x) : fromF((float)(int64_t)x); }
    case OP_UITOFP: return w == 64 ? fromD((double)(uint64_t)a) : fromF((float)(uint64_t)a);
    case OP_FPEXT: return fromD((double)asF(a));
    case OP_FPTRUNC: return fromF((float)asD(a));
    case OP_FRND: { double d = w == 64 ? asD(a) : asF(a); double r = aux == 0 ? std::trunc(d) : aux == 1 ? std::floor(d) : aux == 2 ? std::ceil(d) : aux == 3 ? std::nearbyint(d) : std::round(d);
        return w == 64 ? fromD(r) : fromF((float)r); }
    default: abort();
  }
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->width)
    return mkExtract(hi->a, lo->aux, w);
  if (hi->op == OP_EXTRACT && hi->a == lo && hi->aux == lo->width) return mkExtract(lo, 0, w);
  // concat(extract(x), concat(extract(x), y))
  if (lo->op == OP_CONCAT && hi->op == OP_EXTRACT && lo->a->op == OP_EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
  if (lo->op == OP_CONCAT && hi->isConst() && lo->a->isConst())
    return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->op == OP_SEXT || hi->op == OP_EXTRACT) {
    // sign-extension split in bytes: handled by the extract rules below
  }
  // keep concats right-nested: concat(concat(a,b),lo) -> concat(a, concat(b,lo))
  if (hi->op == OP_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  return intern(OP_CONCAT, w, 0, hi, lo, nullptr, 0);
}

E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (a->isConst()) return mkConst(a->val >> off, w);
  switch (a->op) {
    case OP_EXTRACT: return mkExtract(a->a, a->aux + off, w);
    case OP_CONCAT: {
      unsigned lw = a->b->width;
      if (off + w <= lw) return mkExtract(a->b, off, w);
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case OP_ZEXT: {
      unsigned iw = a->a->width;
      if (off + w <= iw) return mkExtract(a->a, off, w);
      if (off >= iw) return mkConst(0, w);
      return mkZExt(mkExtract(a->a, off, iw - off), w);
    }
    case OP_SEXT: {
      unsigned iw = a->a->width;
      if (off + w <= iw) return mkExtract(a->a, off, w);
      if (off < iw) return mkSExt(mkExtract(a->a, off, iw - off), w);
      break;
    }
    case OP_ITE:
      if (a->b->isConst() || a->c->isConst() || a->width <= 128) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    case OP_AND: case OP_OR: case OP_XOR:
      return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case OP_ADD: case OP_SUB: case OP_MUL:
      if (off == 0 && w < a->width) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case OP_SHL:
      if (a->b->isConst()) {
        unsigned s = a->b->val >= a->width ? a->width : (unsigned)a->b->val;
        if (off >= s) return mkExtract(a->a, off - s, w);
        if (off + w <= s) return mkConst(0, w);
        return mkConcat(mkExtract(a->a, 0, off + w - s), mkConst(0, s - off));
      }
      break;
    case OP_LSHR:
      if (a->b->isConst()) {
        unsigned s = a->b->val >= a->width ? a->width : (unsigned)a->b->val;
        if (off + s >= a->width) return mkConst(0, w);
        if (off + w + s <= a->width) return mkExtract(a->a, off + s, w);
        return mkZExt(mkExtract(a->a, off + s, a->width - off - s), w);
      }
      break;
    default: break;
  }
  return intern(OP_EXTRACT, w, off, a, nullptr, nullptr, 0);
}

E mkZExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->op == OP_ZEXT) return mkZExt(a->a, w);
  return intern(OP_ZEXT, w, 0, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst((u128)sx(a->val, a->width), w);
  if (a->op == OP_SEXT) return mkSExt(a->a, w);
  if (a->op == OP_ZEXT) return mkZExt(a->a, w);
  return intern(OP_SEXT, w, 0, a, nullptr, nullptr, 0);
}
E mkNot(E a) { return mkBin(OP_XOR, a, mkConst(maskw(a->width), a->width)); }

static inline bool isNot(E a) { return a->op == OP_XOR && a->b->isConst() && a->b->val == maskw(a->width); }

E mkIte(E c, E t, E f) {
  if (c->isConst()) return c->val ? t : f;
  if (t == f) return t;
  if (isNot(c)) return mkIte(c->a, f, t);
  if (t->width == 1) {
    if (t->isConst() && f->isConst()) return t->val ? c : mkNot(c);
    if (t->isConst()) return t->val ? mkBOr(c, f) : mkBAnd(mkNot(c), f);
    if (f->isConst()) return f->val ? mkBOr(mkNot(c), t) : mkBAnd(c, t);
  }
  if (t->op == OP_ITE && t->a == c) t = t->b;
  if (f->op == OP_ITE && f->a == c) f = f->c;
  if (t == f) return t;
  if (f->op == OP_ITE && f->b == t) return mkIte(mkBOr(c, f->a), t, f->c);
  return intern(OP_ITE, t->width, 0, c, t, f, 0);
}

static bool iteConstLeaves(E e, int budget) {
  if (e->isConst()) return true;
  if (e->op == OP_ZEXT || e->op == OP_SEXT) return false;
  if (e->op != OP_ITE || budget <= 0) return false;
  return iteConstLeaves(e->b, budget - 1) && iteConstLeaves(e->c, budget - 1);
}

E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkConst(a->val == b->val, 1);
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (a->width == 1) return b->val ? a : mkNot(a);
    switch (a->op) {
      case OP_ZEXT: {
        unsigned iw = a->a->width;
        if (b->val >> iw) return mkFalse();
        return mkEq(a->a, mkConst(b->val, iw));
      }
      case OP_SEXT: {
        unsigned iw = a->a->width;
        if (((u128)sx(b->val & maskw(iw), iw) & maskw(a->width)) != b->val) return mkFalse();
        return mkEq(a->a, mkConst(b->val, iw));
      }
      case OP_CONCAT: {
        E hi = mkEq(a->a, mkConst(b->val >> a->b->width, a->a->width));
        if (hi->isConst() && !hi->val) return hi;
        E lo = mkEq(a->b, mkConst(b->val, a->b->width));
        return mkBAnd(hi, lo);
      }
      case OP_ADD: if (a->b->isConst()) return mkEq(a->a, mkConst(b->val - a->b->val, a->width)); break;
      case OP_SUB: if (a->a->isConst()) return mkEq(a->b, mkConst(a->a->val - b->val, a->width));
                   if (b->val == 0) return mkEq(a->a, a->b); break;
      case OP_XOR: if (a->b->isConst()) return mkEq(a->a, mkConst(a->b->val ^ b->val, a->width)); if (b->val == 0) return mkEq(a->a, a->b); break;
      case OP_AND: if (a->b->isConst() && (b->val & ~a->b->val)) return mkFalse(); break;
      case OP_OR: if (a->b->isConst() && (a->b->val & ~b->val)) return mkFalse();
                  if (b->val == 0) return mkBAnd(mkEq(a->a, b), mkEq(a->b, b)); break;
      case OP_ITE:
        if (a->b->isConst()) return a->b->val == b->val ? mkBOr(a->a, mkEq(a->c, b)) : mkBAnd(mkNot(a->a), mkEq(a->c, b));
        if (a->c->isConst()) return a->c->val == b->val ? mkBOr(mkNot(a->a), mkEq(a->b, b)) : mkBAnd(a->a, mkEq(a->b, b));
        if (iteConstLeaves(a, 6)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        break;
      default: break;
    }
    return intern(OP_EQ, 1, 0, a, b, nullptr, 0);
  }
  if (a->width == 1) { return mkNot(mkBin(OP_XOR, a, b)); }
  if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
  if (a->op == OP_SEXT && b->op == OP_SEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
  if (a->op == OP_ADD && b->op == OP_ADD && a->b == b->b) return mkEq(a->a, b->a);
  if (a->op == OP_ADD && a->a == b) return mkEq(a->b, mkConst(0, a->width));
  if (b->op == OP_ADD && b->a == a) return mkEq(b->b, mkConst(0, a->width));
  if (a->op == OP_CONCAT && b->op == OP_CONCAT && a->b->width == b->b->width) return mkBAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
  if (a->id > b->id) std::swap(a, b);
  return intern(OP_EQ, 1, 0, a, b, nullptr, 0);
}

E mkCmp(Op op, E a, E b) {
  if (op == OP_EQ) return mkEq(a, b);
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, 1, 0, a->val, a->width, b->val, 0), 1);
  if (a == b) return mkConst(op == OP_ULE || op == OP_SLE, 1);
  unsigned w = a->width;
  u128 m = maskw(w);
  if (op == OP_ULT) {
    if (b->isConst() && b->val == 0) return mkFalse();
    if (b->isConst() && b->val == 1) return mkEq(a, mkConst(0, w));
    if (a->isConst() && a->val == m) return mkFalse();
    if (a->isConst() && a->val == 0) return mkNot(mkEq(b, mkConst(0, w)));
    // normalise: a < b  ==  !(b <= a)
    return mkNot(mkCmp(OP_ULE, b, a));
  }
  if (op == OP_SLT) return mkNot(mkCmp(OP_SLE, b, a));
  if (op == OP_ULE) {
    if (a->isConst() && a->val == 0) return mkTrue();
    if (b->isConst() && b->val == m) return mkTrue();
    if (b->isConst() && b->val == 0) return mkEq(a, b);
    if (a->op == OP_ZEXT && b->isConst()) { unsigned iw = a->a->width; if (b->val >= maskw(iw)) return mkTrue(); return mkCmp(OP_ULE, a->a, mkConst(b->val, iw)); }
    if (b->op == OP_ZEXT && a->isConst()) { unsigned iw = b->a->width; if (a->val > maskw(iw)) return mkFalse(); return mkCmp(OP_ULE, mkConst(a->val, iw), b->a); }
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->a->width == b->a->width) return mkCmp(OP_ULE, a->a, b->a);
  }
  if (op == OP_SLE) {
    // sign bit known zero on both sides: unsigned comparison
    auto nonNeg = [](E e) { return (e->op == OP_ZEXT && e->a->width < e->width) || (e->isConst() && !((e->val >> (e->width - 1)) & 1)); };
    if (nonNeg(a) && nonNeg(b)) return mkCmp(OP_ULE, a, b);
    if (a->op == OP_SEXT && b->op == OP_SEXT && a->a->width == b->a->width) return mkCmp(OP_SLE, a->a, b->a);
    if (nonNeg(a) && b->isConst()) return mkFalse(); // b negative
    if (nonNeg(b) && a->isConst()) return mkTrue();
  }
  if (a->op == OP_ITE && b->isConst() && iteConstLeaves(a, 6)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
  if (b->op == OP_ITE && a->isConst() && iteConstLeaves(b, 6)) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
  return intern(op, 1, 0, a, b, nullptr, 0);
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, w, 0, a->val, w, b->val, 0), w);
  bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  u128 m = maskw(w);
  switch (op) {
    case OP_ADD:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->op == OP_ADD && a->b->isConst()) return mkBin(OP_ADD, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == OP_SUB && a->a->isConst()) return mkBin(OP_SUB, mkConst(a->a->val + b->val, w), a->b);
      } else {
        if (a->op == OP_ADD && a->b->isConst()) return mkBin(OP_ADD, mkBin(OP_ADD, a->a, b), a->b);
        if (b->op == OP_ADD && b->b->isConst()) return mkBin(OP_ADD, mkBin(OP_ADD, a, b->a), b->b);
        if (a->op == OP_SUB && a->b == b) return a->a;
        if (b->op == OP_SUB && b->b == a) return b->a;
      }
      break;
    case OP_SUB:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(OP_ADD, a, mkConst(0 - b->val, w));
      if (a->op == OP_ADD && a->a == b) return a->b;
      if (a->op == OP_ADD && a->b == b) return a->a;
      if (b->op == OP_ADD && b->a == a) return mkBin(OP_SUB, mkConst(0, w), b->b);
      if (b->op == OP_ADD && b->b == a) return mkBin(OP_SUB, mkConst(0, w), b->a);
      if (a->op == OP_ADD && a->b->isConst()) return mkBin(OP_ADD, mkBin(OP_SUB, a->a, b), a->b);
      if (b->op == OP_ADD && b->b->isConst()) return mkBin(OP_ADD, mkBin(OP_SUB, a, b->a), mkConst(0 - b->b->val, w));
      if (b->op == OP_SUB && a == b->a) return b->b;
      break;
    case OP_MUL:
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) ++s; return mkBin(OP_SHL, a, mkConst(s, w)); }
      }
      break;
    case OP_UDIV:
      if (b->isConst() && b->val == 1) return a;
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) ++s; return mkBin(OP_LSHR, a, mkConst(s, w)); }
      if (b->isConst() && a->op == OP_ZEXT && b->val && b->val <= maskw(a->a->width)) return mkZExt(mkBin(OP_UDIV, a->a, mkConst(b->val, a->a->width)), w);
      break;
    case OP_UREM:
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) return mkBin(OP_AND, a, mkConst(b->val - 1, w));
      if (b->isConst() && a->op == OP_ZEXT && b->val && b->val <= maskw(a->a->width)) return mkZExt(mkBin(OP_UREM, a->a, mkConst(b->val, a->a->width)), w);
      break;
    case OP_SDIV:
      if (b->isConst() && b->val == 1) return a;
      break;
    case OP_AND:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        if (a->op == OP_AND && a->b->isConst()) return mkBin(OP_AND, a->a, mkConst(a->b->val & b->val, w));
        // low mask: zext(extract)
        if ((b->val & (b->val + 1)) == 0 && w > 1) { unsigned k = 0; while ((b->val >> k) & 1) ++k; return mkZExt(mkExtract(a, 0, k), w); }
        if (a->op == OP_ZEXT) { unsigned iw = a->a->width; return mkZExt(mkBin(OP_AND, a->a, mkConst(b->val, iw)), w); }
        if (a->op == OP_CONCAT) { unsigned lw = a->b->width; return mkConcat(mkBin(OP_AND, a->a, mkConst(b->val >> lw, a->a->width)), mkBin(OP_AND, a->b, mkConst(b->val, lw))); }
        // contiguous mask [lo,hi): shift form
        { u128 v = b->val; unsigned lo = 0; while (!((v >> lo) & 1)) ++lo; u128 x = v >> lo; if ((x & (x + 1)) == 0 && lo > 0) { unsigned k = 0; while ((x >> k) & 1) ++k; return mkZExt(mkConcat(mkExtract(a, lo, k), mkConst(0, lo)), w); } }
      }
      if (w == 1) { if (isNot(a) && a->a == b) return mkFalse(); if (isNot(b) && b->a == a) return mkFalse(); }
      if (w == 1 && (b->op == OP_AND) && (b->a == a || b->b == a)) return b;
      if (w == 1 && (a->op == OP_AND) && (a->a == b || a->b == b)) return a;
      break;
    case OP_OR:
      if (a == b) return a;
      if (b->isConst()) { if (b->val == 0) return a; if (b->val == m) return b; }
      if (w == 1) { if (isNot(a) && a->a == b) return mkTrue(); if (isNot(b) && b->a == a) return mkTrue(); 
        // (x & y) | (x & !y) etc. are left to the solver
      }
      // or of disjoint zext / shifted concat -> concat (byte assembly)
      {
        auto lowZeros = [](E e) -> unsigned { // count of known-zero low bits
          if (e->op == OP_CONCAT && e->b->isConst() && e->b->val == 0) return e->b->width;
          if (e->op == OP_SHL && e->b->isConst()) return e->b->val >= e->width ? e->width : (unsigned)e->b->val;
          if (e->op == OP_ZEXT && e->a->op == OP_CONCAT && e->a->b->isConst() && e->a->b->val == 0) return e->a->b->width;
          return 0; };
        auto highBits = [](E e) -> unsigned { if (e->op == OP_ZEXT) return e->a->width; return e->width; };
        unsigned z;
        if ((z = lowZeros(a)) && highBits(b) <= z && z < w) return mkConcat(mkExtract(a, z, w - z), mkExtract(b, 0, z));
        if ((z = lowZeros(b)) && highBits(a) <= z && z < w) return mkConcat(mkExtract(b, z, w - z), mkExtract(a, 0, z));
      }
      break;
    case OP_XOR:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->op == OP_XOR && a->b->isConst()) return mkBin(OP_XOR, a->a, mkConst(a->b->val ^ b->val, w));
        if (w == 1 && a->op == OP_ULE && false) return a;
      }
      break;
    case OP_SHL:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (a->isConst() && a->val == 0) return a;
      break;
    case OP_LSHR:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (a->isConst() && a->val == 0) return a;
      break;
    case OP_ASHR:
      if (b->isConst()) {
        if (b->val == 0) return a;
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  // push constants into ite with constant leaves
  if (b->isConst() && a->op == OP_ITE && iteConstLeaves(a, 4)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (a->isConst() && b->op == OP_ITE && iteConstLeaves(b, 4)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  return intern(op, w, 0, a, b, nullptr, 0);
}

E mkFUn(Op op, E a, unsigned w, unsigned aux) {
  if (a->isConst()) return mkConst(evalOp(op, w, aux, a->val, a->width, 0, 0), w);
  return intern(op, w, aux, a, nullptr, nullptr, 0);
}

// ordered double/float comparisons are lowered to integer comparisons on the bit patterns
static E fpIsNaN(E a) {
  unsigned w = a->width, mant = w == 64 ? 52 : 23;
  E mag = mkExtract(a, 0, w - 1);
  u128 inf = maskw(w - 1) ^ maskw(mant);
  return mkNot(mkCmp(OP_ULE, mag, mkConst(inf, w - 1)));
}
static E fpKey(E a) { // total order key for non-NaN (with -0 < +0; handled by caller)
  unsigned w = a->width;
  E sign = mkExtract(a, w - 1, 1);
  return mkIte(sign, mkNot(a), mkBin(OP_XOR, a, mkConst((u128)1 << (w - 1), w)));
}
E mkFBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (op == OP_FLT || op == OP_FLE || op == OP_FEQ) {
    if (a->isConst() && b->isConst()) return mkConst(evalOp(op, 1, 0, a->val, w, b->val, 0), 1);
    E ok = mkBAnd(mkNot(fpIsNaN(a)), mkNot(fpIsNaN(b)));
    E za = mkEq(mkExtract(a, 0, w - 1), mkConst(0, w - 1));
    E zb = mkEq(mkExtract(b, 0, w - 1), mkConst(0, w - 1));
    E bothZero = mkBAnd(za, zb);
    E r;
    if (op == OP_FEQ) r = mkBOr(bothZero, mkEq(a, b));
    else if (op == OP_FLT) r = mkBAnd(mkNot(bothZero), mkCmp(OP_ULT, fpKey(a), fpKey(b)));
    else r = mkBOr(bothZero, mkCmp(OP_ULE, fpKey(a), fpKey(b)));
    return mkBAnd(ok, r);
  }
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, w, 0, a->val, w, b->val, 0), w);
  return intern(op, w, 0, a, b, nullptr, 0);
}

// ---- variable sets
static std::vector<std::vector<uint32_t>> vsets;
static std::map<std::vector<uint32_t>, int32_t> vsetIdx;
static std::unordered_map<uint64_t, int32_t> unionCache;
static int32_t internSet(std::vector<uint32_t>&& s) {
  auto it = vsetIdx.find(s);
  if (it != vsetIdx.end()) return it->second;
  int32_t id = vsets.size();
  vsets.push_back(s);
  vsetIdx.emplace(std::move(s), id);
  return id;
}
static int32_t unionSet(int32_t a, int32_t b) {
  if (a == b) return a;
  if (a > b) std::swap(a, b);
  if (vsets[a].empty()) return b;
  if (vsets[b].empty()) return a;
  uint64_t k = ((uint64_t)a << 32) | (uint32_t)b;
  auto it = unionCache.find(k);
  if (it != unionCache.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(vsets[a].begin(), vsets[a].end(), vsets[b].begin(), vsets[b].end(), std::back_inserter(r));
  int32_t id = internSet(std::move(r));
  unionCache[k] = id;
  return id;
}
int32_t vsetOf(E e) {
  if (e->vset >= 0) return e->vset;
  // iterative post-order
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vset >= 0) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {x->a, x->b, x->c}) if (k && k->vset < 0) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    if (x->op == OP_VAR) { x->vset = internSet({x->aux}); continue; }
    int32_t s = internSet({});
    for (E k : {x->a, x->b, x->c}) if (k) s = unionSet(s, k->vset);
    x->vset = s;
  }
  return e->vset;
}
const std::vector<uint32_t>& vsetById(int32_t id) { return vsets[id]; }
const std::vector<uint32_t>& varsOf(E e) { return vsets[vsetOf(e)]; }

// ---- evaluation
static uint32_t epoch = 0;
void newEvalEpoch() { ++epoch; }
static u128 ev(E e, const Model& m) {
  if (e->op == OP_CONST) return e->val;
  if (e->evEpoch == epoch) return e->evVal;
  u128 r;
  switch (e->op) {
    case OP_VAR: r = e->aux < m.v.size() ? m.v[e->aux] : 0; break;
    case OP_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case OP_CONCAT: { // right nested chains can be long
      u128 acc = 0; E x = e;
      while (x->op == OP_CONCAT) { acc = (acc << x->a->width) | ev(x->a, m); x = x->b; }
      r = (acc << x->width) | ev(x, m); break; }
    default: {
      u128 a = ev(e->a, m), b = e->b ? ev(e->b, m) : 0;
      r = evalOp(e->op, e->width, e->aux, a, e->a->width, b, 0);
    }
  }
  e->evEpoch = epoch; e->evVal = r;
  return r;
}
u128 evalExpr(E e, const Model& m) { newEvalEpoch(); return ev(e, m); }

static const char* opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","fsqrt","flt","fle","feq","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","frnd"};
std::string exprStr(E e, int d) {
  std::ostringstream o;
  if (e->op == OP_CONST) { o << "0x" << std::hex; if (e->val >> 64) o << (uint64_t)(e->val >> 64) << "_"; o << (uint64_t)e->val << std::dec << ":" << e->width; return o.str(); }
  if (e->op == OP_VAR) { return gVars[e->aux].name; }
  if (d <= 0) return "..";
  o << "(" << opn[e->op] << e->width;
  if (e->op == OP_EXTRACT) o << "@" << e->aux;
  for (E k : {e->a, e->b, e->c}) if (k) o << " " << exprStr(k, d - 1);
  o << ")";
  return o.str();
}
bool evalAll(const std::vector<E>& es, const Model& m) {
  newEvalEpoch();
  for (E e : es) if (!ev(e, m)) return false;
  return true;
}
