#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>

SolverStats g_ss;
unsigned g_solverTimeoutMs = 20000;
std::string g_dumpQueries;

static Z3_context ctx;
static Z3_solver slv;
static std::vector<Z3_func_decl> varDecl;
static bool usesFP = false;

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  exit(3);
}
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  Z3_params ps = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, ps);
  Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), g_solverTimeoutMs);
  Z3_solver_set_params(ctx, slv, ps);
  Z3_params_dec_ref(ctx, ps);
}
std::string solverVersion() {
  return std::string("Z3 ") + Z3_get_full_version();
}

static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast bv(Expr *e);
static Z3_ast bo(Expr *e);
static Z3_sort fps(unsigned w) {
  static Z3_sort s64, s32;
  Z3_sort &s = w == 64 ? s64 : s32;
  if (!s) { s = w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); }
  return s;
}
static Z3_ast fp(Expr *e) { usesFP = true; return keep(Z3_mk_fpa_to_fp_bv(ctx, bv(e), fps(e->w))); }
static Z3_ast rne() { return keep(Z3_mk_fpa_rne(ctx)); }
static Z3_ast rtz() { return keep(Z3_mk_fpa_rtz(ctx)); }

static Z3_ast num(u128 v, unsigned w) {
  char buf[48];
  int i = 47;
  buf[i] = 0;
  if (!v) buf[--i] = '0';
  while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
  return keep(Z3_mk_numeral(ctx, buf + i, Z3_mk_bv_sort(ctx, w)));
}

// kinds which bo() translates without bv() of the same expression
static bool boolKind(EK k) {
  switch (k) {
    case EK_NOT: case EK_AND: case EK_OR: case EK_XOR: case EK_EQ: case EK_ULT: case EK_ULE: case EK_SLT: case EK_SLE: case EK_ITE:
    case EK_FOEQ: case EK_FOLT: case EK_FOLE: case EK_FUNO: return true;
    default: return false;
  }
}
static Z3_ast bo(Expr *e) {
  if (e->z3bool) return (Z3_ast)e->z3bool;
  Z3_ast r;
  switch (e->k) {
    case EK_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EK_VAR: r = Z3_mk_eq(ctx, bv(e), num(1, 1)); break;
    case EK_NOT: r = Z3_mk_not(ctx, bo(e->a)); break;
    case EK_AND: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case EK_OR: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case EK_XOR: r = Z3_mk_xor(ctx, bo(e->a), bo(e->b)); break;
    case EK_EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, bo(e->a), bo(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
    case EK_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case EK_ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
    case EK_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case EK_SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
    case EK_ITE: r = Z3_mk_ite(ctx, bo(e->a), bo(e->b), bo(e->c)); break;
    case EK_FOEQ: r = Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b)); break;
    case EK_FOLT: r = Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b)); break;
    case EK_FOLE: r = Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b)); break;
    case EK_FUNO: { Z3_ast x[2] = {keep(Z3_mk_fpa_is_nan(ctx, fp(e->a))), keep(Z3_mk_fpa_is_nan(ctx, fp(e->b)))}; r = Z3_mk_or(ctx, 2, x); break; }
    default: r = Z3_mk_eq(ctx, bv(e), num(1, 1)); break;
  }
  e->z3bool = keep(r);
  return r;
}

static Z3_ast bv(Expr *e) {
  if (e->z3bv) return (Z3_ast)e->z3bv;
  Z3_ast r;
  if (e->w == 1 && boolKind(e->k)) {
    r = Z3_mk_ite(ctx, bo(e), num(1, 1), num(0, 1));
  } else
    switch (e->k) {
      case EK_CONST: r = num(e->val, e->w); break;
      case EK_VAR: {
        Z3_func_decl d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, (g_vars[e->aux].name + "!" + std::to_string(e->aux)).c_str()), 0, nullptr, Z3_mk_bv_sort(ctx, e->w));
        Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, d));
        if (varDecl.size() <= e->aux) varDecl.resize(e->aux + 1);
        varDecl[e->aux] = d;
        r = Z3_mk_app(ctx, d, 0, nullptr);
        break;
      }
      case EK_NOT: r = Z3_mk_bvnot(ctx, bv(e->a)); break;
      case EK_AND: r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
      case EK_OR: r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
      case EK_XOR: r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
      case EK_ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
      case EK_SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
      case EK_MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
      case EK_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
      case EK_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
      case EK_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
      case EK_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
      case EK_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
      case EK_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
      case EK_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
      case EK_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
      case EK_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bv(e->a)); break;
      case EK_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case EK_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
      case EK_ITE: r = Z3_mk_ite(ctx, bo(e->a), bv(e->b), bv(e->c)); break;
      case EK_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), fp(e->a), fp(e->b))); break;
      case EK_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), fp(e->a), fp(e->b))); break;
      case EK_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), fp(e->a), fp(e->b))); break;
      case EK_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), fp(e->a), fp(e->b))); break;
      case EK_FNEG: r = Z3_mk_bvxor(ctx, bv(e->a), num((u128)1 << (e->w - 1), e->w)); break;
      case EK_FFLOOR: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, keep(Z3_mk_fpa_rtn(ctx)), fp(e->a))); break;
      case EK_FSQRT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, rne(), fp(e->a))); break;
      case EK_UI2F: usesFP = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(e->a), fps(e->w))); break;
      case EK_SI2F: usesFP = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(e->a), fps(e->w))); break;
      case EK_F2UI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), fp(e->a), e->w); break;
      case EK_F2SI: r = Z3_mk_fpa_to_sbv(ctx, rtz(), fp(e->a), e->w); break;
      case EK_FPEXT: case EK_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->a), fps(e->w))); break;
      default: fprintf(stderr, "bv: bad expr\n"); exit(3);
    }
  e->z3bv = keep(r);
  return r;
}

// ---- path constraints

static bool intersects(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (a[i] == b[j]) return true;
    if (a[i] < b[j]) i++; else j++;
  }
  return false;
}

// does x imply y, syntactically (bounds of one expression by constants)?
static bool implies(Expr *x, Expr *y) {
  if (x == y) return true;
  if (x->k != y->k || (x->k != EK_ULT && x->k != EK_SLT)) {
    if (x->k == EK_EQ && x->a->k == EK_VAR && isConst(x->b) && y->vars->size() == 1) {
      // everything consistent about a pinned variable follows
      return y->vars == x->vars;
    }
    return false;
  }
  auto le = [&](Expr *p, Expr *q) {
    return x->k == EK_ULT ? p->val <= q->val : sx128(p->val, p->w) <= sx128(q->val, q->w);
  };
  if (isConst(x->a) && isConst(y->a) && x->b == y->b) return le(y->a, x->a);
  if (isConst(x->b) && isConst(y->b) && x->a == y->a) return le(x->b, y->b);
  return false;
}

struct Iv { u128 ulo, uhi; i128 slo, shi; };
struct Facts {
  std::unordered_map<Expr *, Iv> iv;
  std::unordered_map<Expr *, bool> known;
  std::unordered_map<Expr *, Expr *> memo;
  std::unordered_map<Expr *, Expr *> subst;      // equal expressions
  struct Ord { Expr *a, *b; bool strict, sg; };   // a < b (a <= b), neither constant
  std::vector<Ord> ord;                           // closed under transitivity
};
static Iv fullIv(unsigned w) { return {0, maskw(w), w >= 128 ? (i128)((u128)1 << 127) : -((i128)1 << (w - 1)), w >= 128 ? (i128)(~(u128)0 >> 1) : ((i128)1 << (w - 1)) - 1}; }
static void tighten(Iv &v, unsigned w) {
  if (v.slo >= 0 || v.shi < 0) {  // one sign: both orders agree
    v.ulo = std::max(v.ulo, (u128)v.slo & maskw(w));
    v.uhi = std::min(v.uhi, (u128)v.shi & maskw(w));
  }
  i128 a = sx128(v.ulo, w), b = sx128(v.uhi, w);
  if (v.ulo <= v.uhi && a <= b && ((a < 0) == (b < 0))) { v.slo = std::max(v.slo, a); v.shi = std::min(v.shi, b); }
}
static Iv ival(const Facts &f, Expr *e, int d = 0) {
  if (isConst(e)) return {e->val, e->val, sx128(e->val, e->w), sx128(e->val, e->w)};
  Iv r = fullIv(e->w);
  auto it = f.iv.find(e);
  if (it != f.iv.end()) r = it->second;
  if (d < 4) {
    if (e->k == EK_ZEXT) {
      Iv x = ival(f, e->a, d + 1);
      r.ulo = std::max(r.ulo, x.ulo);
      r.uhi = std::min(r.uhi, x.uhi);
      tighten(r, e->w);
    } else if (e->k == EK_SEXT) {
      Iv x = ival(f, e->a, d + 1);
      r.slo = std::max(r.slo, x.slo);
      r.shi = std::min(r.shi, x.shi);
      tighten(r, e->w);
    } else if (e->k == EK_ITE) {
      Iv x = ival(f, e->b, d + 1), y = ival(f, e->c, d + 1);
      r.ulo = std::max(r.ulo, std::min(x.ulo, y.ulo));
      r.uhi = std::min(r.uhi, std::max(x.uhi, y.uhi));
      r.slo = std::max(r.slo, std::min(x.slo, y.slo));
      r.shi = std::min(r.shi, std::max(x.shi, y.shi));
    }
  }
  return r;
}
static int cmpFact(const Facts &f, Expr *e) {
  auto it = f.known.find(e);
  if (it != f.known.end()) return it->second;
  if (e->k < EK_EQ || e->k > EK_SLE) return -1;
  Iv x = ival(f, e->a), y = ival(f, e->b);
  switch (e->k) {
    case EK_EQ:
      if (x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo) return 0;
      if (x.ulo == x.uhi && y.ulo == y.uhi) return x.ulo == y.ulo;
      break;
    case EK_ULT:
      if (x.uhi < y.ulo) return 1;
      if (x.ulo >= y.uhi) return 0;
      break;
    case EK_ULE:
      if (x.uhi <= y.ulo) return 1;
      if (x.ulo > y.uhi) return 0;
      break;
    case EK_SLT:
      if (x.shi < y.slo) return 1;
      if (x.slo >= y.shi) return 0;
      break;
    case EK_SLE:
      if (x.shi <= y.slo) return 1;
      if (x.slo > y.shi) return 0;
      break;
    default: break;
  }
  return -1;
}
static Expr *simpRec(Facts &f, Expr *e) {
  if (isConst(e)) return e;
  auto mi = f.memo.find(e);
  if (mi != f.memo.end()) return mi->second;
  Expr *r = e;
  int v = e->w == 1 ? cmpFact(f, e) : -1;
  if (v >= 0) r = mkConst(v, 1);
  else {
    auto it = f.iv.find(e);
    auto su = f.subst.find(e);
    if (it != f.iv.end() && it->second.ulo == it->second.uhi) r = mkConst(it->second.ulo, e->w);
    else if (su != f.subst.end()) r = simpRec(f, su->second);
    else if (e->k == EK_ITE) {
      Expr *c = simpRec(f, e->a);
      if (isConst(c)) r = simpRec(f, c->val ? e->b : e->c);
      else r = mkIte(c, simpRec(f, e->b), simpRec(f, e->c));
    } else if (e->k != EK_VAR) {
      Expr *a = e->a ? simpRec(f, e->a) : nullptr;
      Expr *b = e->b ? simpRec(f, e->b) : nullptr;
      if (a != e->a || b != e->b) {
        switch (e->k) {
          case EK_NOT: case EK_FNEG: case EK_FFLOOR: case EK_FSQRT: r = mkUn(e->k, a); break;
          case EK_CONCAT: r = mkConcat(a, b); break;
          case EK_EXTRACT: r = mkExtract(a, e->aux, e->w); break;
          case EK_ZEXT: r = mkZext(a, e->w); break;
          case EK_SEXT: r = mkSext(a, e->w); break;
          case EK_UI2F: case EK_SI2F: case EK_F2UI: case EK_F2SI: case EK_FPEXT: case EK_FPTRUNC: r = mkCast(e->k, a, e->w); break;
          default: r = mkBin(e->k, a, b); break;
        }
      }
    }
    if (r != e && !isConst(r) && r->w == 1) {
      v = cmpFact(f, r);
      if (v >= 0) r = mkConst(v, 1);
    }
  }
  f.memo[e] = r;
  return r;
}
Expr *Path::simp(Expr *e) {
  if (isConst(e) || !facts) return e;
  return simpRec(*facts, e);
}
static void bound(Facts &f, Expr *e, const Iv &n) {
  if (isConst(e)) return;
  auto it = f.iv.find(e);
  Iv v = it == f.iv.end() ? fullIv(e->w) : it->second;
  Iv o = v;
  v.ulo = std::max(v.ulo, n.ulo);
  v.uhi = std::min(v.uhi, n.uhi);
  v.slo = std::max(v.slo, n.slo);
  v.shi = std::min(v.shi, n.shi);
  tighten(v, e->w);
  if (v.ulo > v.uhi || v.slo > v.shi) return;  // contradictory: leave it to the solver
  f.iv[e] = v;
}
static void learnAtom(Facts &f, Expr *c, bool v);
static void order(Facts &f, Expr *a, Expr *b, bool strict, bool sg) {
  auto kn = [&](Expr *e, bool t) { if (!isConst(e)) f.known[e] = t; };
  auto put = [&](Expr *x, Expr *y, bool st) {
    if (x == y || isConst(x) || isConst(y)) return;
    for (auto &o : f.ord) if (o.a == x && o.b == y && o.sg == sg && o.strict >= st) return;
    f.ord.push_back({x, y, st, sg});
    EK lt = sg ? EK_SLT : EK_ULT, le = sg ? EK_SLE : EK_ULE;
    kn(mkBin(le, x, y), true);
    kn(mkBin(lt, y, x), false);
    if (st) {
      kn(mkBin(lt, x, y), true);
      kn(mkBin(le, y, x), false);
      kn(mkBin(EK_EQ, x, y), false);
    }
  };
  std::vector<std::pair<Expr *, bool>> lo{{a, false}}, hi{{b, false}};
  if (f.ord.size() < 400)
    for (auto &o : f.ord) {
      if (o.sg != sg) continue;
      if (o.b == a) lo.push_back({o.a, o.strict});
      if (o.a == b) hi.push_back({o.b, o.strict});
    }
  for (auto &x : lo) for (auto &y : hi) put(x.first, y.first, strict || x.second || y.second);
}
static void learnAtom(Facts &f, Expr *c, bool v) {
  if (isConst(c)) return;
  f.known[c] = v;
  if (c->k == EK_NOT) { learnAtom(f, c->a, !v); return; }
  if (c->k == EK_AND && v) { learnAtom(f, c->a, true); learnAtom(f, c->b, true); return; }
  if (c->k == EK_OR && !v) { learnAtom(f, c->a, false); learnAtom(f, c->b, false); return; }
  if (c->k < EK_EQ || c->k > EK_SLE) return;
  unsigned w = c->a->w;
  if (w == 1) return;
  Expr *a = c->a, *b = c->b;
  EK k = c->k;
  if (k == EK_EQ) {
    if (v) {
      Iv x = ival(f, a), y = ival(f, b);
      bound(f, a, y);
      bound(f, b, x);
      if (!isConst(a) && !isConst(b)) {
        if (a->k != EK_VAR || (b->k == EK_VAR && a->id < b->id)) std::swap(a, b);
        if (a->k == EK_VAR && !f.subst.count(a) && !std::binary_search(b->vars->begin(), b->vars->end(), a->aux)) {
          f.subst[a] = b;
          f.memo.clear();
          // what is known about a is known about b
          std::vector<std::pair<Expr *, bool>> re;
          for (auto &k : f.known)
            if (k.first != c && std::binary_search(k.first->vars->begin(), k.first->vars->end(), a->aux)) re.push_back(k);
          for (auto &k : re) {
            Expr *n = k.first;
            if (n->k < EK_EQ || n->k > EK_SLE) continue;
            Expr *p = n->a == a ? b : n->a, *q = n->b == a ? b : n->b;
            if (p == n->a && q == n->b) continue;
            Expr *m = mkBin(n->k, p, q);
            if (!isConst(m) && !f.known.count(m)) learnAtom(f, m, k.second);
          }
          f.memo.clear();
        }
      }
    } else if (isConst(b)) {
      Iv x = ival(f, a);
      i128 s = sx128(b->val, w);
      if (x.ulo == b->val && x.ulo < x.uhi) x.ulo++;
      if (x.uhi == b->val && x.ulo < x.uhi) x.uhi--;
      if (x.slo == s && x.slo < x.shi) x.slo++;
      if (x.shi == s && x.slo < x.shi) x.shi--;
      bound(f, a, x);
    }
    return;
  }
  bool sg = k == EK_SLT || k == EK_SLE;
  EK lt = sg ? EK_SLT : EK_ULT, le = sg ? EK_SLE : EK_ULE;
  if (!v) { std::swap(a, b); k = (k == lt) ? le : lt; }  // now: a k b holds
  Iv x = ival(f, a), y = ival(f, b), fa = fullIv(w), fb = fa;
  int d = k == lt;
  if (sg) {
    if (y.shi > fa.slo + d - 1) fa.shi = y.shi - d;
    if (x.slo < fb.shi - d + 1) fb.slo = x.slo + d;
  } else {
    if (y.uhi >= (u128)d) fa.uhi = y.uhi - d;
    if (x.ulo <= maskw(w) - d) fb.ulo = x.ulo + d;
  }
  bound(f, a, fa);
  bound(f, b, fb);
  if (!isConst(a) && !isConst(b)) order(f, a, b, k == lt, sg);
}
void Path::learn(Expr *c, bool v) {
  if (isConst(c)) return;
  if (!facts) facts = std::make_shared<Facts>();
  else if (facts.use_count() > 1) { auto n = std::make_shared<Facts>(); n->iv = facts->iv; n->known = facts->known; n->subst = facts->subst; n->ord = facts->ord; facts = n; }
  facts->memo.clear();
  learnAtom(*facts, c, v);
}

void Path::add(Expr *c0) {
  Expr *c = simp(c0);
  if (isConst(c) && c->val) return;
  if (c->k == EK_AND && c->w == 1) { add(c->a); add(c->b); return; }
  if (isConst(c)) return;
  struct L { Path *p; Expr *c; ~L() { p->learn(c, true); } } learnAtEnd{this, c};
  auto g = std::make_shared<Group>();
  std::vector<uint32_t> vars = *c->vars;
  std::vector<std::shared_ptr<const Group>> rest;
  bool redundant = false;
  for (auto &q : groups) {
    if (!intersects(*q->vars, *c->vars)) { rest.push_back(q); continue; }
    std::vector<uint32_t> u;
    std::set_union(vars.begin(), vars.end(), q->vars->begin(), q->vars->end(), std::back_inserter(u));
    vars.swap(u);
    for (Expr *e : q->cs) {
      if (implies(e, c)) redundant = true;
      if (!implies(c, e)) g->cs.push_back(e);
      else if (redundant) g->cs.push_back(e);
    }
  }
  if (redundant) {
    return;
  }
  g->cs.push_back(c);
  std::sort(g->cs.begin(), g->cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  g->cs.erase(std::unique(g->cs.begin(), g->cs.end()), g->cs.end());
  static std::unordered_map<std::string, const std::vector<uint32_t> *> pool;
  std::string key((const char *)vars.data(), vars.size() * 4);
  auto it = pool.find(key);
  if (it == pool.end()) it = pool.emplace(key, new std::vector<uint32_t>(vars)).first;
  g->vars = it->second;
  rest.push_back(g);
  groups.swap(rest);
}

struct CacheEnt {
  SatRes r;
  std::vector<std::pair<uint32_t, u128>> asg;
};
struct VecHash {
  size_t operator()(const std::vector<uint32_t> &v) const {
    uint64_t h = 1469598103934665603ULL;
    for (auto x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
  }
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

SatRes solve(const Path &p, Expr *cond, std::shared_ptr<const Model> &m) {
  if (isConst(cond)) {
    if (!cond->val) return R_UNSAT;
    m = p.model;
    return R_SAT;
  }
  init();
  // groups touching cond (groups are mutually disjoint, so one pass suffices)
  std::vector<uint32_t> key;
  std::vector<Expr *> cs;
  std::vector<uint32_t> vars = *cond->vars;
  for (auto &g : p.groups)
    if (intersects(*g->vars, *cond->vars)) {
      for (Expr *e : g->cs) cs.push_back(e);
      vars.insert(vars.end(), g->vars->begin(), g->vars->end());
    }
  std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  key.reserve(cs.size() + 1);
  for (Expr *e : cs) key.push_back(e->id);
  key.push_back(cond->id);
  auto it = cache.find(key);
  if (it == cache.end()) {
    auto t0 = std::chrono::steady_clock::now();
    CacheEnt ce;
    bool fpBefore = usesFP;
    usesFP = false;
    std::vector<Z3_ast> as;
    for (Expr *e : cs) as.push_back(bo(e));
    as.push_back(bo(cond));
    (void)fpBefore;
    Z3_solver_push(ctx, slv);
    for (auto a : as) Z3_solver_assert(ctx, slv, a);
    if (!g_dumpQueries.empty()) {
      static int n = 0;
      char fn[512];
      Z3_lbool r0 = Z3_solver_check(ctx, slv);
      snprintf(fn, sizeof fn, "%s/q%06d.%s.smt2", g_dumpQueries.c_str(), n++, r0 == Z3_L_TRUE ? "sat" : r0 == Z3_L_FALSE ? "unsat" : "unknown");
      if (FILE *f = fopen(fn, "w")) {
        fprintf(f, "; %s\n", exprStr(cond, 12).substr(0, 3000).c_str());
        fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(ctx, slv));
        fclose(f);
      }
    }
    Z3_lbool r = Z3_solver_check(ctx, slv);
    g_ss.queries++;
    if (r == Z3_L_TRUE) {
      g_ss.sat++;
      ce.r = R_SAT;
      Z3_model zm = Z3_solver_get_model(ctx, slv);
      Z3_model_inc_ref(ctx, zm);
      std::sort(vars.begin(), vars.end());
      vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
      for (uint32_t v : vars) {
        if (v >= varDecl.size() || !varDecl[v]) continue;
        Z3_ast a = nullptr;
        if (!Z3_model_eval(ctx, zm, bv(g_vars[v].e), true, &a) || !a) continue;
        Z3_inc_ref(ctx, a);
        std::string s = Z3_get_numeral_string(ctx, a);
        u128 val = 0;
        for (char ch : s) val = val * 10 + (ch - '0');
        ce.asg.push_back({v, val});
        Z3_dec_ref(ctx, a);
      }
      Z3_model_dec_ref(ctx, zm);
    } else if (r == Z3_L_FALSE) {
      g_ss.unsat++;
      ce.r = R_UNSAT;
    } else {
      g_ss.unknown++;
      ce.r = R_UNKNOWN;
    }
    Z3_solver_pop(ctx, slv, 1);
    g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    it = cache.emplace(std::move(key), std::move(ce)).first;
  } else
    g_ss.cacheHits++;
  if (it->second.r == R_SAT) {
    auto nm = std::make_shared<Model>(p.model ? *p.model : Model());
    for (auto &a : it->second.asg) {
      if (nm->size() <= a.first) nm->resize(a.first + 1, 0);
      (*nm)[a.first] = a.second;
    }
    m = nm;
  }
  return it->second.r;
}
