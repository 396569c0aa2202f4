// C05: order of compound keys.  configuration: lengths la + 10*lb + 100*lc (1..3)
// + 1000 * component types (0 int32/int32/int32, 1 int32/uint8/int64, 2
// objects compared by <, 3 uint32/int8/uint16)
#include "vp.h"
#include <indexes/btree/key.h>
#include <string>
using namespace indexes::btree;
namespace {
// an ordered component which defines only < and ==
struct Comp {
  int v;
  bool operator<(const Comp &o) const { return v < o.v; }
  bool operator==(const Comp &o) const { return v == o.v; }
};
struct Raw { int n; int64_t c[3]; };
template <class T> T conv(int64_t v) {
  if constexpr (std::is_same_v<T, Comp>) return Comp{(int)v};
  else return (T)v;
}
template <class T> int64_t sym(const char *n) {
  if constexpr (std::is_same_v<T, Comp>) return (int)vp_sym(n, 32);
  else if constexpr (std::is_same_v<T, std::string>) return 0;
  else return (int64_t)(T)vp_sym(n, sizeof(T) * 8);
}
template <class A, class B, class C> Raw raw(int n, const char *nm) {
  Raw r{n, {0, 0, 0}};
  r.c[0] = sym<A>(nm);
  if (n > 1) r.c[1] = sym<B>(nm);
  if (n > 2) r.c[2] = sym<C>(nm);
  return r;
}
uint64_t olt(const Raw &x, const Raw &y) {
  uint64_t r = x.n < y.n;
  int m = x.n < y.n ? x.n : y.n;
  for (int i = m - 1; i >= 0; i--) r = vp_select(x.c[i] < y.c[i], 1, vp_select(y.c[i] < x.c[i], 0, r));
  return r;
}
uint64_t oeq(const Raw &x, const Raw &y) {
  uint64_t r = x.n == y.n;
  for (int i = 0; i < x.n && i < y.n; i++) r &= x.c[i] == y.c[i];
  return r;
}
struct Cmp { bool lt, gt, le, ge, eq, ne; };
template <class X, class Y> Cmp cmp(const X &x, const Y &y) { return {x < y, x > y, x <= y, x >= y, x == y, x != y}; }
template <template <class...> class CK, class A, class B, class C, class F> void with(const Raw &r, F f) {
  if (r.n == 1) f(CK<A>{conv<A>(r.c[0])});
  else if (r.n == 2) f(CK<A, B>{conv<A>(r.c[0]), conv<B>(r.c[1])});
  else f(CK<A, B, C>{conv<A>(r.c[0]), conv<B>(r.c[1]), conv<C>(r.c[2])});
}
void agree(const Cmp &c, const Raw &x, const Raw &y) {
  uint64_t l = olt(x, y), g = olt(y, x), e = oeq(x, y);
  vp_assert(c.lt == l, "less is lexicographic, a proper prefix first");
  vp_assert(c.gt == g, "greater is the converse of less");
  vp_assert(c.le == (g ^ 1), "less-or-equal is the negation of greater");
  vp_assert(c.ge == (l ^ 1), "greater-or-equal is the negation of less");
  vp_assert(c.eq == e, "equal exactly for the same length and components");
  vp_assert(c.ne == (e ^ 1), "not-equal is the negation of equal");
  vp_assert((uint64_t)c.lt + c.gt + c.eq == 1, "exactly one of less, greater and equal holds");
}
template <template <class...> class CK, class A, class B, class C> void go(int la, int lb, int lc) {
  Raw a = raw<A, B, C>(la, "a"), b = raw<A, B, C>(lb, "b"), c = raw<A, B, C>(lc, "c");
  Cmp ab{}, bc{}, ac{}, ba{};
  with<CK, A, B, C>(a, [&](auto x) {
    vp_assert(!(x < x) && !(x > x) && x == x && x <= x && x >= x && !(x != x), "a key equals itself and is not below itself");
    with<CK, A, B, C>(b, [&](auto y) {
      ab = cmp(x, y);
      ba = cmp(y, x);
      if constexpr (std::is_same_v<decltype(x), decltype(y)>) {
        auto z = x;
        z = y;
        vp_assert(z == y && !(z < y), "assignment copies the components");
      }
    });
    with<CK, A, B, C>(c, [&](auto z) { ac = cmp(x, z); });
  });
  with<CK, A, B, C>(b, [&](auto y) { with<CK, A, B, C>(c, [&](auto z) { bc = cmp(y, z); }); });
  agree(ab, a, b);
  agree(ba, b, a);
  vp_assert(!(ab.lt & ba.lt), "less is asymmetric");
  vp_assert(!(ab.lt & bc.lt) | ac.lt, "less is transitive");
  vp_assert(!(ab.le & bc.le) | ac.le, "less-or-equal is transitive");
  vp_assert(!(ab.eq & bc.eq) | ac.eq, "equality is transitive");
  vp_assert(!(ab.eq & bc.lt) | ac.lt, "equal keys are interchangeable");
  vp_emit(ab.lt + 2 * ab.gt + 4 * ab.eq);
}
} // namespace
extern "C" void vp_main() {
  uint64_t c = vp_config();
  int la = c % 10, lb = c / 10 % 10, lc = c / 100 % 10;
  switch (c / 1000 % 10) {
  case 0: go<compound_key, int32_t, int32_t, int32_t>(la, lb, lc); break;
  case 1: go<compound_key, int32_t, uint8_t, int64_t>(la, lb, lc); break;
  case 2: go<compound_key, Comp, Comp, Comp>(la, lb, lc); break;
  case 3: go<compound_key, uint32_t, int8_t, uint16_t>(la, lb, lc); break;
  }
  vp_reach("end");
}
