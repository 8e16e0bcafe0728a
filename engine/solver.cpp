#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>

static Z3_context C;
static std::vector<Z3_ast> memoBV, memoBool;
static std::vector<Z3_ast> z3vars;

void PathCond::add(E c) {
  if (c->isConst()) return;
  if (known.count(c)) return;
  known[c] = true;
  if (c->op == OP_XOR && c->width == 1 && c->b->isConst()) known[c->a] = false;
  else known[mkNot(c)] = false;
  // conjunction: split so that slices stay small
  if (c->op == OP_AND && c->width == 1) { add(c->a); add(c->b); return; }
  uint32_t i = cs.size();
  cs.push_back(c);
  for (uint32_t v : varsOf(c)) byVar[v].push_back(i);
}

void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _Exit(97); });
}

static Z3_ast bv(E e);
static Z3_ast bl(E e);
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(64)));
}
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
static Z3_ast asFp(E e) { return Z3_mk_fpa_to_fp_bv(C, bv(e), fps(e->width)); }
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }
static Z3_ast rtz() { return Z3_mk_fpa_rtz(C); }

static Z3_ast bvRaw(E e) {
  unsigned w = e->width;
  switch (e->op) {
    case OP_CONST: return num(e->val, w);
    case OP_VAR: {
      if (z3vars.size() <= e->aux) z3vars.resize(e->aux + 1);
      if (!z3vars[e->aux]) z3vars[e->aux] = Z3_mk_const(C, Z3_mk_int_symbol(C, e->aux), bvs(w));
      return z3vars[e->aux];
    }
    case OP_ADD: return Z3_mk_bvadd(C, bv(e->a), bv(e->b));
    case OP_SUB: return Z3_mk_bvsub(C, bv(e->a), bv(e->b));
    case OP_MUL: return Z3_mk_bvmul(C, bv(e->a), bv(e->b));
    case OP_UDIV: return Z3_mk_bvudiv(C, bv(e->a), bv(e->b));
    case OP_SDIV: return Z3_mk_bvsdiv(C, bv(e->a), bv(e->b));
    case OP_UREM: return Z3_mk_bvurem(C, bv(e->a), bv(e->b));
    case OP_SREM: return Z3_mk_bvsrem(C, bv(e->a), bv(e->b));
    case OP_AND: return Z3_mk_bvand(C, bv(e->a), bv(e->b));
    case OP_OR: return Z3_mk_bvor(C, bv(e->a), bv(e->b));
    case OP_XOR: return (e->b->isConst() && e->b->val == maskw(w)) ? Z3_mk_bvnot(C, bv(e->a)) : Z3_mk_bvxor(C, bv(e->a), bv(e->b));
    case OP_SHL: return Z3_mk_bvshl(C, bv(e->a), bv(e->b));
    case OP_LSHR: return Z3_mk_bvlshr(C, bv(e->a), bv(e->b));
    case OP_ASHR: return Z3_mk_bvashr(C, bv(e->a), bv(e->b));
    case OP_CONCAT: return Z3_mk_concat(C, bv(e->a), bv(e->b));
    case OP_EXTRACT: return Z3_mk_extract(C, e->aux + w - 1, e->aux, bv(e->a));
    case OP_ZEXT: return Z3_mk_zero_ext(C, w - e->a->width, bv(e->a));
    case OP_SEXT: return Z3_mk_sign_ext(C, w - e->a->width, bv(e->a));
    case OP_ITE: return Z3_mk_ite(C, bl(e->a), bv(e->b), bv(e->c));
    case OP_FADD: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, rne(), asFp(e->a), asFp(e->b)));
    case OP_FSUB: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, rne(), asFp(e->a), asFp(e->b)));
    case OP_FMUL: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, rne(), asFp(e->a), asFp(e->b)));
    case OP_FDIV: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, rne(), asFp(e->a), asFp(e->b)));
    case OP_FSQRT: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sqrt(C, rne(), asFp(e->a)));
    case OP_FPEXT: case OP_FPTRUNC: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, rne(), asFp(e->a), fps(w)));
    case OP_SITOFP: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rne(), bv(e->a), fps(w)));
    case OP_UITOFP: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, rne(), bv(e->a), fps(w)));
    case OP_FPTOSI: {
      Z3_ast f = asFp(e->a);
      Z3_sort s = fps(e->a->width);
      double lim = w == 64 ? 9223372036854775808.0 : w == 32 ? 2147483648.0 : (double)((u128)1 << (w - 1));
      Z3_ast r = Z3_mk_fpa_round_to_integral(C, rtz(), f);
      Z3_ast in[2] = {Z3_mk_fpa_geq(C, r, Z3_mk_fpa_numeral_double(C, -lim, s)), Z3_mk_fpa_lt(C, r, Z3_mk_fpa_numeral_double(C, lim, s))};
      return Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, rtz(), f, w), num((u128)1 << (w - 1), w));
    }
    case OP_FPTOUI: {
      Z3_ast f = asFp(e->a);
      Z3_sort s = fps(e->a->width);
      double lim = w == 64 ? 18446744073709551616.0 : (double)((u128)1 << w);
      Z3_ast r = Z3_mk_fpa_round_to_integral(C, rtz(), f);
      Z3_ast in[2] = {Z3_mk_fpa_geq(C, r, Z3_mk_fpa_numeral_double(C, 0, s)), Z3_mk_fpa_lt(C, r, Z3_mk_fpa_numeral_double(C, lim, s))};
      return Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_ubv(C, rtz(), f, w), num(maskw(w), w));
    }
    case OP_FRND: {
      Z3_ast rm = e->aux == 0 ? rtz() : e->aux == 1 ? Z3_mk_fpa_rtn(C) : e->aux == 2 ? Z3_mk_fpa_rtp(C) : e->aux == 3 ? rne() : Z3_mk_fpa_rna(C);
      return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, rm, asFp(e->a)));
    }
    default: fprintf(stderr, "bvRaw: op %d\n", e->op); abort();
  }
}
static bool boolOp(E e) {
  if (e->width != 1) return false;
  switch (e->op) { case OP_EQ: case OP_ULE: case OP_ULT: case OP_SLE: case OP_SLT: case OP_AND: case OP_OR: case OP_XOR: case OP_ITE: case OP_CONST: return true; default: return false; }
}
static Z3_ast blRaw(E e) {
  switch (e->op) {
    case OP_CONST: return e->val ? Z3_mk_true(C) : Z3_mk_false(C);
    case OP_EQ: return Z3_mk_eq(C, bv(e->a), bv(e->b));
    case OP_ULE: return Z3_mk_bvule(C, bv(e->a), bv(e->b));
    case OP_ULT: return Z3_mk_bvult(C, bv(e->a), bv(e->b));
    case OP_SLE: return Z3_mk_bvsle(C, bv(e->a), bv(e->b));
    case OP_SLT: return Z3_mk_bvslt(C, bv(e->a), bv(e->b));
    case OP_AND: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; return Z3_mk_and(C, 2, x); }
    case OP_OR: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; return Z3_mk_or(C, 2, x); }
    case OP_XOR: if (e->b->isConst() && e->b->val) return Z3_mk_not(C, bl(e->a)); return Z3_mk_xor(C, bl(e->a), bl(e->b));
    case OP_ITE: return Z3_mk_ite(C, bl(e->a), bl(e->b), bl(e->c));
    default: return Z3_mk_eq(C, bv(e), num(1, 1));
  }
}
static Z3_ast bl(E e) {
  if (memoBool.size() <= e->id) memoBool.resize(e->id + 4096);
  if (memoBool[e->id]) return memoBool[e->id];
  Z3_ast r = boolOp(e) ? blRaw(e) : Z3_mk_eq(C, bv(e), num(1, 1));
  return memoBool[e->id] = r;
}
static Z3_ast bv(E e) {
  if (memoBV.size() <= e->id) memoBV.resize(e->id + 4096);
  if (memoBV[e->id]) return memoBV[e->id];
  Z3_ast r;
  if (e->op != OP_CONST && boolOp(e)) r = Z3_mk_ite(C, bl(e), num(1, 1), num(0, 1));
  else r = bvRaw(e);
  return memoBV[e->id] = r;
}

struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, u128>> vals; };
struct KeyHash { size_t operator()(const std::vector<uint32_t>& k) const { uint64_t h = 1469598103934665603ull; for (uint32_t x : k) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> cache;
static Z3_solver inc, incBV;
static std::vector<std::vector<std::pair<uint32_t, u128>>> recent; // recently found satisfying assignments

Sat Solver::check(const PathCond& pc, E cond, const Model& base, Model& out) {
  ++st.queries;
  if (cond->isConst()) { if (cond->val) { out = base; return Sat::Sat; } return Sat::Unsat; }
  int k = pc.lookup(cond);
  if (k == 0) return Sat::Unsat;
  if (k == 1) { out = base; return Sat::Sat; }
  // slice
  static std::vector<uint32_t> vstamp, cstamp; static uint32_t stamp = 0; ++stamp;
  std::vector<uint32_t> work; std::vector<E> slice{cond};
  auto addVars = [&](E e) { for (uint32_t v : varsOf(e)) { if (vstamp.size() <= v) vstamp.resize(v + 256); if (vstamp[v] != stamp) { vstamp[v] = stamp; work.push_back(v); } } };
  if (cstamp.size() < pc.cs.size()) cstamp.resize(pc.cs.size() * 2 + 64);
  std::vector<uint32_t> vars;
  addVars(cond);
  while (!work.empty()) {
    uint32_t v = work.back(); work.pop_back(); vars.push_back(v);
    auto it = pc.byVar.find(v);
    if (it == pc.byVar.end()) continue;
    for (uint32_t ci : it->second) if (cstamp[ci] != stamp) { cstamp[ci] = stamp; slice.push_back(pc.cs[ci]); addVars(pc.cs[ci]); }
  }
  std::vector<uint32_t> key; key.reserve(slice.size());
  for (E e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  auto apply = [&](const std::vector<std::pair<uint32_t, u128>>& vals) {
    out = base;
    for (auto& [i, v] : vals) { if (out.v.size() <= i) out.v.resize(i + 1); out.v[i] = v; }
  };
  auto it = cache.find(key);
  if (it != cache.end()) { ++st.cacheHits; if (it->second.r == Sat::Sat) apply(it->second.vals); return it->second.r; }
  // a recent assignment may do
  for (size_t i = recent.size(); i-- > 0 && i + 6 > recent.size();) {
    apply(recent[i]);
    newEvalEpoch();
    bool ok = true;
    extern bool evalAll(const std::vector<E>&, const Model&);
    ok = evalAll(slice, out);
    if (ok) {
      CacheEnt ce{Sat::Sat, {}};
      for (uint32_t v : vars) ce.vals.push_back({v, v < out.v.size() ? out.v[v] : 0});
      cache.emplace(std::move(key), std::move(ce));
      ++st.modelHits; ++st.sat;
      return Sat::Sat;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false;
  for (E e : slice) fp |= e->hasFP;
  auto limit = [&](Z3_solver q, unsigned ms) {
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, q, p);
    Z3_params_dec_ref(C, p);
  };
  Z3_solver s = nullptr; Z3_lbool r = Z3_L_UNDEF;
  if (!fp) {
    // First, a solver that keeps constraints, each behind a switch, so that what it learns serves the next query
    static std::vector<Z3_ast> sw; static std::vector<uint32_t> swSet;
    if (inc && swSet.size() > 1500) { Z3_solver_dec_ref(C, inc); inc = nullptr; for (uint32_t i : swSet) sw[i] = nullptr; swSet.clear(); }
    if (!inc) { inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, inc); limit(inc, 400); }
    std::vector<Z3_ast> as;
    for (E e : slice) {
      if (sw.size() <= e->id) sw.resize(e->id + 4096);
      if (!sw[e->id]) {
        sw[e->id] = Z3_mk_const(C, Z3_mk_int_symbol(C, 0x20000000 + e->id), Z3_mk_bool_sort(C)); swSet.push_back(e->id);
        Z3_solver_assert(C, inc, Z3_mk_implies(C, sw[e->id], bl(e)));
      }
      as.push_back(sw[e->id]);
    }
    s = inc;
    r = Z3_solver_check_assumptions(C, s, as.size(), as.data());
    if (r == Z3_L_UNDEF) { // then a fresh SAT-based one
      if (!incBV) { incBV = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, incBV); }
      s = incBV;
      Z3_solver_reset(C, s);
      limit(s, timeoutMs);
      for (E e : slice) Z3_solver_assert(C, s, bl(e));
      r = Z3_solver_check(C, s);
    }
  }
  if (r == Z3_L_UNDEF) { // and the general one
    s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
    limit(s, timeoutMs);
    for (E e : slice) Z3_solver_assert(C, s, bl(e));
    r = Z3_solver_check(C, s);
  }
  CacheEnt ce{r == Z3_L_TRUE ? Sat::Sat : r == Z3_L_FALSE ? Sat::Unsat : Sat::Unknown, {}};
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    for (uint32_t v : vars) {
      E ve = gVars[v].e; Z3_ast val = nullptr; u128 x = 0;
      Z3_ast zv = bv(ve);
      if (Z3_model_eval(C, m, zv, true, &val) && Z3_get_ast_kind(C, val) == Z3_NUMERAL_AST) {
        if (ve->width <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(C, val, &u); x = u; }
        else { const char* str = Z3_get_numeral_string(C, val); for (; *str; ++str) x = x * 10 + (*str - '0'); }
      }
      ce.vals.push_back({v, x});
    }
    Z3_model_dec_ref(C, m);
    apply(ce.vals);
    ++st.sat;
    recent.push_back(ce.vals);
    if (recent.size() > 64) recent.erase(recent.begin(), recent.begin() + 32);
  } else if (r == Z3_L_FALSE) ++st.unsat;
  else {
    ++st.unknown;
    if (dumpUnknown) { fprintf(stderr, "unknown query:\n%s\n(check-sat)\n", Z3_solver_to_string(C, s)); }
  }
  if (s != incBV && s != inc) Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.seconds += dt; if (dt > st.maxSeconds) st.maxSeconds = dt;
  Sat res = ce.r;
  cache.emplace(std::move(key), std::move(ce));
  return res;
}
