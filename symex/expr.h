// Hash-consed bit-vector expressions over symbolic inputs.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 i128;

enum EK : uint8_t {
  EK_CONST, EK_VAR,
  EK_NOT, EK_AND, EK_OR, EK_XOR,
  EK_ADD, EK_SUB, EK_MUL, EK_UDIV, EK_SDIV, EK_UREM, EK_SREM,
  EK_SHL, EK_LSHR, EK_ASHR,
  EK_CONCAT, EK_EXTRACT, EK_ZEXT, EK_SEXT,
  EK_EQ, EK_ULT, EK_ULE, EK_SLT, EK_SLE,
  EK_ITE,
  // IEEE floating point on bit patterns (width 32 or 64)
  EK_FADD, EK_FSUB, EK_FMUL, EK_FDIV, EK_FNEG,
  EK_FOEQ, EK_FOLT, EK_FOLE, EK_FUNO,
  EK_UI2F, EK_SI2F, EK_F2UI, EK_F2SI, EK_FPEXT, EK_FPTRUNC,
  EK_FFLOOR, EK_FSQRT,
};

struct Expr {
  EK k;
  uint8_t w;        // result width in bits (1..128)
  uint16_t nops;
  uint32_t id;
  uint32_t aux;     // extract: low bit;  var: variable index
  uint32_t hash;
  bool hasUninit;   // mentions an uninitialised-memory variable
  Expr *a, *b, *c;
  u128 val;         // const
  const std::vector<uint32_t> *vars;  // sorted variable indices
  void *z3bv = nullptr, *z3bool = nullptr;
  // evaluation memo
  uint64_t evStamp = 0;
  u128 evVal = 0;
};

struct VarInfo {
  std::string name;
  uint8_t w;
  bool uninit;
  Expr *e;
};
extern std::vector<VarInfo> g_vars;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) {
  return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
}
static inline i128 sx128(u128 v, unsigned w) {
  return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w);
}

Expr *mkConst(u128 v, unsigned w);
// A variable identified by name: asking twice for the same (name,w) returns the
// same expression, so that sibling paths share variables and cached verdicts.
Expr *mkVar(const std::string &name, unsigned w, bool uninit = false);
Expr *mkUn(EK k, Expr *a);
Expr *mkBin(EK k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkCast(EK k, Expr *a, unsigned w);  // FP conversions
static inline Expr *mkNot(Expr *a) { return mkUn(EK_NOT, a); }
static inline bool isConst(const Expr *e) { return e->k == EK_CONST; }
static inline bool isTrue(const Expr *e) { return e->k == EK_CONST && e->w == 1 && e->val == 1; }
static inline bool isFalse(const Expr *e) { return e->k == EK_CONST && e->w == 1 && e->val == 0; }

// concrete semantics used both by the folder and by model evaluation
u128 evalBin(EK k, u128 a, u128 b, unsigned w);
typedef std::vector<u128> Model;  // by variable index; missing => 0
u128 evalExpr(Expr *e, const Model &m);
void evalNewModel();  // invalidate the memo
std::string exprStr(Expr *e, int depth = 6);
size_t exprCount();
