#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <unordered_map>
#include <set>

std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, uint32_t> g_varByName;

namespace {
struct Arena {
  std::vector<char *> blocks;
  size_t off = 0, cap = 0;
  void *get(size_t n) {
    if (off + n > cap) {
      cap = 1 << 20;
      blocks.push_back((char *)aligned_alloc(64, cap));
      off = 0;
    }
    void *p = blocks.back() + off;
    off += (n + 15) & ~(size_t)15;
    return p;
  }
} arena;

struct Table {
  std::vector<Expr *> t;
  size_t n = 0;
  Table() : t(1 << 16, nullptr) {}
  void grow() {
    std::vector<Expr *> o(t.size() * 2, nullptr);
    o.swap(t);
    for (Expr *e : o)
      if (e) {
        size_t i = e->hash & (t.size() - 1);
        while (t[i]) i = (i + 1) & (t.size() - 1);
        t[i] = e;
      }
  }
} table;

std::set<std::vector<uint32_t>> varSets;
const std::vector<uint32_t> *internSet(const std::vector<uint32_t> &v) { return &*varSets.insert(v).first; }
const std::vector<uint32_t> *emptySet() {
  static const std::vector<uint32_t> *e = internSet({});
  return e;
}
std::map<std::pair<const void *, const void *>, const std::vector<uint32_t> *> unionCache;
const std::vector<uint32_t> *unionSets(const std::vector<uint32_t> *a, const std::vector<uint32_t> *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair((const void *)a, (const void *)b);
  auto it = unionCache.find(key);
  if (it != unionCache.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return unionCache[key] = internSet(r);
}

uint32_t mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return (uint32_t)h;
}

Expr *cons(EK k, unsigned w, Expr *a, Expr *b, Expr *c, uint32_t aux, u128 val) {
  uint64_t h = k * 0x9e3779b97f4a7c15ULL + w * 1315423911u + aux * 2654435761u;
  h = (h ^ (a ? a->id + 1 : 0)) * 0x100000001b3ULL;
  h = (h ^ (b ? b->id + 1 : 0)) * 0x100000001b3ULL;
  h = (h ^ (c ? c->id + 1 : 0)) * 0x100000001b3ULL;
  h = (h ^ (uint64_t)val) * 0x100000001b3ULL;
  h = (h ^ (uint64_t)(val >> 64)) * 0x100000001b3ULL;
  uint32_t hh = mix(h);
  size_t m = table.t.size() - 1, i = hh & m;
  while (Expr *e = table.t[i]) {
    if (e->hash == hh && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->aux == aux && e->val == val)
      return e;
    i = (i + 1) & m;
  }
  Expr *e = new (arena.get(sizeof(Expr))) Expr();
  e->k = k; e->w = w; e->id = table.n; e->aux = aux; e->hash = hh;
  e->a = a; e->b = b; e->c = c; e->val = val;
  e->nops = (a ? 1 : 0) + (b ? 1 : 0) + (c ? 1 : 0);
  e->hasUninit = (a && a->hasUninit) || (b && b->hasUninit) || (c && c->hasUninit);
  if (k == EK_VAR) {
    e->vars = internSet({aux});
    e->hasUninit = g_vars[aux].uninit;
  } else {
    e->vars = emptySet();
    if (a) e->vars = a->vars;
    if (b) e->vars = unionSets(e->vars, b->vars);
    if (c) e->vars = unionSets(e->vars, c->vars);
  }
  table.t[i] = e;
  if (++table.n * 2 > table.t.size()) table.grow();
  return e;
}

double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
}  // namespace

size_t exprCount() { return table.n; }

Expr *mkConst(u128 v, unsigned w) { return cons(EK_CONST, w, 0, 0, 0, 0, v & maskw(w)); }

Expr *mkVar(const std::string &name, unsigned w, bool uninit) {
  std::string key = name + "#" + std::to_string(w);
  auto it = g_varByName.find(key);
  if (it != g_varByName.end()) return g_vars[it->second].e;
  uint32_t idx = g_vars.size();
  g_vars.push_back({name, (uint8_t)w, uninit, nullptr});
  g_varByName[key] = idx;
  Expr *e = cons(EK_VAR, w, 0, 0, 0, idx, 0);
  g_vars[idx].e = e;
  return e;
}

u128 evalBin(EK k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
    case EK_AND: return a & b;
    case EK_OR: return a | b;
    case EK_XOR: return a ^ b;
    case EK_ADD: return (a + b) & m;
    case EK_SUB: return (a - b) & m;
    case EK_MUL: return (a * b) & m;
    case EK_UDIV: return b ? a / b : m;
    case EK_UREM: return b ? a % b : a;
    case EK_SDIV: {
      i128 x = sx128(a, w), y = sx128(b, w);
      if (y == 0) return (x < 0 ? (u128)1 : m) & m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case EK_SREM: {
      i128 x = sx128(a, w), y = sx128(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case EK_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case EK_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case EK_ASHR: {
      i128 x = sx128(a, w);
      return (u128)(x >> (unsigned)(b >= w ? w - 1 : (unsigned)b)) & m;
    }
    case EK_EQ: return a == b;
    case EK_ULT: return a < b;
    case EK_ULE: return a <= b;
    case EK_SLT: return sx128(a, w) < sx128(b, w);
    case EK_SLE: return sx128(a, w) <= sx128(b, w);
    case EK_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case EK_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case EK_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case EK_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case EK_FOEQ: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case EK_FOLT: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case EK_FOLE: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case EK_FUNO: return w == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    default: __builtin_trap();
  }
}

static u128 evalCast(EK k, u128 a, unsigned from, unsigned to) {
  switch (k) {
    case EK_UI2F: return to == 64 ? fromD((double)a) : fromF((float)a);
    case EK_SI2F: return to == 64 ? fromD((double)sx128(a, from)) : fromF((float)sx128(a, from));
    case EK_F2UI: {
      double d = from == 64 ? asD(a) : asF(a);
      if (!(d > -1.0) || d >= std::ldexp(1.0, to)) return 0;
      return (u128)d & maskw(to);
    }
    case EK_F2SI: {
      double d = from == 64 ? asD(a) : asF(a);
      if (!(std::fabs(d) <= std::ldexp(1.0, to - 1))) return 0;
      return (u128)(i128)d & maskw(to);
    }
    case EK_FPEXT: return fromD((double)asF(a));
    case EK_FPTRUNC: return fromF((float)asD(a));
    default: __builtin_trap();
  }
}

Expr *mkCast(EK k, Expr *a, unsigned w) {
  if (isConst(a)) return mkConst(evalCast(k, a->val, a->w, w), w);
  return cons(k, w, a, 0, 0, 0, 0);
}

Expr *mkUn(EK k, Expr *a) {
  if (isConst(a)) {
    switch (k) {
      case EK_NOT: return mkConst(~a->val, a->w);
      case EK_FNEG: return mkConst(a->val ^ ((u128)1 << (a->w - 1)), a->w);
      case EK_FFLOOR: return mkConst(a->w == 64 ? fromD(std::floor(asD(a->val))) : fromF(std::floor(asF(a->val))), a->w);
      case EK_FSQRT: return mkConst(a->w == 64 ? fromD(std::sqrt(asD(a->val))) : fromF(std::sqrt(asF(a->val))), a->w);
      default: break;
    }
  }
  if (k == EK_NOT) {
    if (a->k == EK_NOT) return a->a;
    if (a->w == 1) {
      if (a->k == EK_ULT) return mkBin(EK_ULE, a->b, a->a);
      if (a->k == EK_ULE) return mkBin(EK_ULT, a->b, a->a);
      if (a->k == EK_SLT) return mkBin(EK_SLE, a->b, a->a);
      if (a->k == EK_SLE) return mkBin(EK_SLT, a->b, a->a);
    }
  }
  return cons(k, a->w, a, 0, 0, 0, 0);
}

static bool isCmp(EK k) { return k >= EK_EQ && k <= EK_SLE; }
static bool isFCmp(EK k) { return k >= EK_FOEQ && k <= EK_FUNO; }
static bool constLeaves(Expr *e, int d = 0) {
  if (isConst(e)) return true;
  if (d > 300) return false;
  if (e->k == EK_ITE) return constLeaves(e->b, d + 1) && constLeaves(e->c, d + 1);
  return false;
}

Expr *mkBin(EK k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (w != b->w) { fprintf(stderr, "internal: width mismatch in %d: %u %u\n", (int)k, w, b->w); abort(); }
  unsigned rw = (isCmp(k) || isFCmp(k)) ? 1 : w;
  if (isConst(a) && isConst(b)) return mkConst(evalBin(k, a->val, b->val, w), rw);
  if (k >= EK_FADD) return cons(k, rw, a, b, 0, 0, 0);
  // commutative: constant on the right
  if (k == EK_ADD || k == EK_MUL || k == EK_AND || k == EK_OR || k == EK_XOR || k == EK_EQ) {
    if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
  }
  if (w == 1 && (k == EK_ADD || k == EK_SUB)) return mkBin(EK_XOR, a, b);
  if (w == 1 && k == EK_MUL) return mkBin(EK_AND, a, b);
  u128 m = maskw(w);
  bool cb = isConst(b);
  switch (k) {
    case EK_ADD:
      if (cb && b->val == 0) return a;
      if (cb && a->k == EK_ADD && isConst(a->b)) return mkBin(EK_ADD, a->a, mkConst(a->b->val + b->val, w));
      if (cb && a->k == EK_ITE && constLeaves(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      break;
    case EK_SUB:
      if (cb) return mkBin(EK_ADD, a, mkConst(-b->val, w));
      if (a == b) return mkConst(0, w);
      if (a->k == EK_ADD && a->a == b) return a->b;
      break;
    case EK_MUL:
      if (cb && b->val == 0) return b;
      if (cb && b->val == 1) return a;
      if (cb && (b->val & (b->val - 1)) == 0) {
        unsigned s = 0;
        while (!((b->val >> s) & 1)) s++;
        return mkBin(EK_SHL, a, mkConst(s, w));
      }
      break;
    case EK_UDIV:
      if (cb && b->val == 1) return a;
      if (cb && b->val && (b->val & (b->val - 1)) == 0) {
        unsigned s = 0;
        while (!((b->val >> s) & 1)) s++;
        return mkBin(EK_LSHR, a, mkConst(s, w));
      }
      break;
    case EK_UREM:
      if (cb && b->val && (b->val & (b->val - 1)) == 0) return mkBin(EK_AND, a, mkConst(b->val - 1, w));
      break;
    case EK_AND:
      if (cb && b->val == 0) return b;
      if (cb && b->val == m) return a;
      if (a == b) return a;
      if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
      if (cb) {
        // low mask -> zext(extract)
        u128 v = b->val;
        if ((v & (v + 1)) == 0) {
          unsigned n = 0;
          while ((v >> n) & 1) n++;
          if (n < w) return mkZext(mkExtract(a, 0, n), w);
        }
      }
      break;
    case EK_OR:
      if (cb && b->val == 0) return a;
      if (cb && b->val == m) return b;
      if (a == b) return a;
      if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
      break;
    case EK_XOR:
      if (cb && b->val == 0) return a;
      if (a == b) return mkConst(0, w);
      if (cb && b->val == m) return mkNot(a);
      break;
    case EK_SHL: case EK_LSHR: case EK_ASHR:
      if (cb && b->val == 0) return a;
      if (isConst(a) && a->val == 0) return a;
      if (cb && b->val >= w && k != EK_ASHR) return mkConst(0, w);
      if (cb && k == EK_LSHR) return mkZext(mkExtract(a, (unsigned)b->val, w - (unsigned)b->val), w);
      if (cb && k == EK_SHL)
        return mkConcat(mkExtract(a, 0, w - (unsigned)b->val), mkConst(0, (unsigned)b->val));
      if (cb && k == EK_ASHR && b->val < w) return mkSext(mkExtract(a, (unsigned)b->val, w - (unsigned)b->val), w);
      break;
    case EK_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && cb) return b->val ? a : mkNot(a);
      if (cb) {
        if (a->k == EK_ZEXT) {
          if (b->val >> a->a->w) return mkConst(0, 1);
          return mkBin(EK_EQ, a->a, mkConst(b->val, a->a->w));
        }
        if (a->k == EK_SEXT) {
          u128 lo = b->val & maskw(a->a->w);
          if (((u128)sx128(lo, a->a->w) & m) != b->val) return mkConst(0, 1);
          return mkBin(EK_EQ, a->a, mkConst(lo, a->a->w));
        }
        if (a->k == EK_ADD && isConst(a->b)) return mkBin(EK_EQ, a->a, mkConst(b->val - a->b->val, w));
        if (a->k == EK_XOR && isConst(a->b)) return mkBin(EK_EQ, a->a, mkConst(b->val ^ a->b->val, w));
        if (a->k == EK_NOT) return mkBin(EK_EQ, a->a, mkConst(~b->val, w));
        if (a->k == EK_CONCAT) {
          unsigned lw = a->b->w;
          return mkBin(EK_AND, mkBin(EK_EQ, a->a, mkConst(b->val >> lw, a->a->w)),
                       mkBin(EK_EQ, a->b, mkConst(b->val, lw)));
        }
        if (a->k == EK_ITE && (isConst(a->b) || isConst(a->c)) ) {
          Expr *t = mkBin(EK_EQ, a->b, b), *f = mkBin(EK_EQ, a->c, b);
          return mkIte(a->a, t, f);
        }
      }
      break;
    case EK_ULT:
      if (a == b) return mkConst(0, 1);
      if (cb && b->val == 0) return mkConst(0, 1);
      if (cb && b->val == 1) return mkBin(EK_EQ, a, mkConst(0, w));
      if (isConst(a) && a->val == m) return mkConst(0, 1);
      if (w == 1) return mkBin(EK_AND, mkNot(a), b);
      if (cb && a->k == EK_ZEXT) {
        if (b->val > maskw(a->a->w)) return mkConst(1, 1);
        return mkBin(EK_ULT, a->a, mkConst(b->val, a->a->w));
      }
      if (isConst(a) && b->k == EK_ZEXT) {
        if (a->val >= maskw(b->a->w)) return mkConst(0, 1);
        return mkBin(EK_ULT, mkConst(a->val, b->a->w), b->a);
      }
      if (cb && a->k == EK_ITE && constLeaves(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      if (isConst(a) && b->k == EK_ITE && constLeaves(b)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
      break;
    case EK_ULE:
      if (a == b) return mkConst(1, 1);
      if (isConst(a) && a->val == 0) return mkConst(1, 1);
      if (cb && b->val == m) return mkConst(1, 1);
      if (cb && b->val == 0) return mkBin(EK_EQ, a, b);
      if (w == 1) return mkBin(EK_OR, mkNot(a), b);
      if (cb) return mkBin(EK_ULT, a, mkConst(b->val + 1, w));
      if (isConst(a)) return mkBin(EK_ULT, mkConst(a->val - 1, w), b);
      break;
    case EK_SLT:
      if (a == b) return mkConst(0, 1);
      if (w == 1) return mkBin(EK_AND, a, mkNot(b));
      if (cb && b->val == ((u128)1 << (w - 1))) return mkConst(0, 1);
      if (isConst(a) && a->val == (m >> 1)) return mkConst(0, 1);
      if (cb && a->k == EK_SEXT) {
        i128 v = sx128(b->val, w), lo = -((i128)1 << (a->a->w - 1)), hi = ((i128)1 << (a->a->w - 1)) - 1;
        if (v <= lo) return mkConst(0, 1);
        if (v > hi) return mkConst(1, 1);
        return mkBin(EK_SLT, a->a, mkConst((u128)v, a->a->w));
      }
      if (isConst(a) && b->k == EK_SEXT) {
        i128 v = sx128(a->val, w), lo = -((i128)1 << (b->a->w - 1)), hi = ((i128)1 << (b->a->w - 1)) - 1;
        if (v < lo) return mkConst(1, 1);
        if (v >= hi) return mkConst(0, 1);
        return mkBin(EK_SLT, mkConst((u128)v, b->a->w), b->a);
      }
      if (cb && a->k == EK_ZEXT) {
        i128 v = sx128(b->val, w);
        if (v <= 0) return mkConst(0, 1);
        return mkBin(EK_ULT, a, b);
      }
      if (isConst(a) && b->k == EK_ZEXT) {
        i128 v = sx128(a->val, w);
        if (v < 0) return mkConst(1, 1);
        return mkBin(EK_ULT, a, b);
      }
      if (cb && a->k == EK_ITE && constLeaves(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      break;
    case EK_SLE:
      if (a == b) return mkConst(1, 1);
      if (w == 1) return mkBin(EK_OR, a, mkNot(b));
      if (cb) {
        if (b->val == (m >> 1)) return mkConst(1, 1);
        return mkBin(EK_SLT, a, mkConst(b->val + 1, w));
      }
      if (isConst(a)) {
        if (a->val == ((u128)1 << (w - 1))) return mkConst(1, 1);
        return mkBin(EK_SLT, mkConst(a->val - 1, w), b);
      }
      break;
    default: break;
  }
  return cons(k, rw, a, b, 0, 0, 0);
}

Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (t->w != f->w || c->w != 1) { fprintf(stderr, "internal: width mismatch in ite: %u %u %u\n", c->w, t->w, f->w); abort(); }
  if (isConst(c)) return c->val ? t : f;
  if (t == f) return t;
  if (c->k == EK_NOT) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isTrue(t) && isFalse(f)) return c;
    if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkBin(EK_OR, c, f);
    if (isFalse(t)) return mkBin(EK_AND, mkNot(c), f);
    if (isTrue(f)) return mkBin(EK_OR, mkNot(c), t);
    if (isFalse(f)) return mkBin(EK_AND, c, t);
  }
  if (t->k == EK_ITE && t->a == c) t = t->b;
  if (f->k == EK_ITE && f->a == c) f = f->c;
  if (t == f) return t;
  return cons(EK_ITE, t->w, c, t, f, 0, 0);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isConst(a)) return mkConst(a->val >> lo, w);
  if (a->k == EK_EXTRACT) return mkExtract(a->a, a->aux + lo, w);
  if (a->k == EK_CONCAT) {
    unsigned lw = a->b->w;
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  if (a->k == EK_ZEXT) {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo >= iw) return mkConst(0, w);
    return mkZext(mkExtract(a->a, lo, iw - lo), w);
  }
  if (a->k == EK_SEXT) {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw && lo == 0) return mkSext(a->a, w);
  }
  if (a->k == EK_ITE && constLeaves(a)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  if (a->k == EK_AND || a->k == EK_OR || a->k == EK_XOR) {
    if (isConst(a->b)) return mkBin((EK)a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  }
  if (lo == 0 && (a->k == EK_ADD || a->k == EK_MUL) && isConst(a->b))
    return mkBin((EK)a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  return cons(EK_EXTRACT, w, a, 0, 0, lo, 0);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isConst(hi) && isConst(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isConst(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->k == EK_EXTRACT && lo->k == EK_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->a, lo->aux, w);
  // ((x . ext_hi) . ext_lo) => x . merged
  if (hi->k == EK_CONCAT && hi->b->k == EK_EXTRACT && lo->k == EK_EXTRACT && hi->b->a == lo->a &&
      hi->b->aux == lo->aux + lo->w)
    return mkConcat(hi->a, mkExtract(lo->a, lo->aux, hi->b->w + lo->w));
  if (hi->k == EK_ZEXT && hi->a->k == EK_EXTRACT && lo->k == EK_EXTRACT && hi->a->a == lo->a &&
      hi->a->aux == lo->aux + lo->w)
    return mkZext(mkExtract(lo->a, lo->aux, hi->a->w + lo->w), w);
  if (hi->k == EK_ZEXT && w <= 128) return mkZext(mkConcat(hi->a, lo), w);
  if (hi->k == EK_ITE && constLeaves(hi) && isConst(lo)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->k == EK_ITE && constLeaves(lo) && isConst(hi)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  if (lo->k == EK_ITE && hi->k == EK_ITE && lo->a == hi->a)
    return mkIte(lo->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return cons(EK_CONCAT, w, hi, lo, 0, 0, 0);
}

Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst(a->val, w);
  if (a->k == EK_ZEXT) return mkZext(a->a, w);
  if (a->k == EK_ITE && constLeaves(a)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return cons(EK_ZEXT, w, a, 0, 0, 0, 0);
}

Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isConst(a)) return mkConst((u128)sx128(a->val, a->w), w);
  if (a->k == EK_SEXT) return mkSext(a->a, w);
  if (a->k == EK_ZEXT) return mkZext(a->a, w);
  if (a->k == EK_ITE && constLeaves(a)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return cons(EK_SEXT, w, a, 0, 0, 0, 0);
}

static uint64_t g_evStamp = 1;
void evalNewModel() { g_evStamp++; }

static u128 ev(Expr *e, const Model &m) {
  if (e->k == EK_CONST) return e->val;
  if (e->k == EK_VAR) return e->aux < m.size() ? m[e->aux] & maskw(e->w) : 0;
  if (e->evStamp == g_evStamp) return e->evVal;
  u128 r;
  switch (e->k) {
    case EK_NOT: r = ~ev(e->a, m) & maskw(e->w); break;
    case EK_FNEG: case EK_FFLOOR: case EK_FSQRT: r = mkUn(e->k, mkConst(ev(e->a, m), e->w))->val; break;
    case EK_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case EK_EXTRACT: r = (ev(e->a, m) >> e->aux) & maskw(e->w); break;
    case EK_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case EK_ZEXT: r = ev(e->a, m); break;
    case EK_SEXT: r = (u128)sx128(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case EK_UI2F: case EK_SI2F: case EK_F2UI: case EK_F2SI: case EK_FPEXT: case EK_FPTRUNC:
      r = evalCast(e->k, ev(e->a, m), e->a->w, e->w); break;
    case EK_AND: { u128 x = ev(e->a, m); r = x ? x & ev(e->b, m) : 0; break; }
    default: r = evalBin(e->k, ev(e->a, m), ev(e->b, m), e->a->w); break;
  }
  e->evStamp = g_evStamp;
  e->evVal = r;
  return r;
}
u128 evalExpr(Expr *e, const Model &m) { evalNewModel(); return ev(e, m); }

static const char *kn[] = {"const","var","not","and","or","xor","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","concat","extract","zext","sext","=","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","fneg","foeq","folt","fole","funo","ui2f","si2f","f2ui","f2si","fpext","fptrunc","ffloor","fsqrt"};
std::string exprStr(Expr *e, int d) {
  if (e->k == EK_CONST) {
    char b[64];
    if (e->val >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(e->val >> 64), (unsigned long long)e->val);
    else snprintf(b, 64, "0x%llx", (unsigned long long)e->val);
    return b;
  }
  if (e->k == EK_VAR) return g_vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + kn[e->k];
  if (e->k == EK_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
