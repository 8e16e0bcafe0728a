// vsym: hash-consed bit-vector expressions.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef unsigned __int128 u128;

enum Op : uint8_t {
  OP_CONST, OP_VAR,
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
  OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
  OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
  OP_CONCAT,  // a = high part, b = low part
  OP_EXTRACT, // of a: bits [aux, aux+width)
  OP_ZEXT, OP_SEXT, OP_ITE,
  // floating point on IEEE bit patterns (width 32 or 64)
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FSQRT,
  OP_FLT, OP_FLE, OP_FEQ, // ordered comparisons -> 1 bit
  OP_FPTOSI, OP_FPTOUI, OP_SITOFP, OP_UITOFP, OP_FPEXT, OP_FPTRUNC,
  OP_FRND, // round to integral, aux = mode (0 RTZ trunc,1 floor,2 ceil,3 RNE,4 RNA)
};

struct Expr {
  Op op;
  uint16_t width;
  uint32_t aux;   // extract offset / var index
  uint32_t id;
  uint32_t hash;
  const Expr* a;
  const Expr* b;
  const Expr* c;
  u128 val;       // constants
  // lazily computed
  mutable int32_t vset; // index in the table of variable sets, -1: not computed
  mutable bool hasFP;
  mutable uint32_t evEpoch;
  mutable u128 evVal;
  bool isConst() const { return op == OP_CONST; }
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }

struct VarInfo { std::string name; unsigned width; E e; bool internal; };
extern std::vector<VarInfo> gVars;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool internal);
E mkBin(Op op, E a, E b);
E mkNot(E a);       // bitwise
E mkEq(E a, E b);
E mkCmp(Op op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkFUn(Op op, E a, unsigned w, unsigned aux = 0);
E mkFBin(Op op, E a, E b);
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
static inline E mkBAnd(E a, E b) { return mkBin(OP_AND, a, b); }
static inline E mkBOr(E a, E b) { return mkBin(OP_OR, a, b); }

// variable sets
const std::vector<uint32_t>& varsOf(E e);
int32_t vsetOf(E e);
const std::vector<uint32_t>& vsetById(int32_t id);

// models: value per variable index (missing = 0)
struct Model { std::vector<u128> v; };
u128 evalExpr(E e, const Model& m);
void newEvalEpoch();
u128 evalOp(Op op, unsigned w, unsigned aux, u128 a, unsigned wa, u128 b, u128 c);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
