// C09, C10 (and, with mode 2, C19): the concurrent B+Tree used by one client.
// -DKIND=0 integers, 1 owning keys (values with -DOWNVAL=1), 2 compound keys
// configuration modes: 0 search all, 1 probe, 2 destroy, 3 walk, 4 bound, 5/6 (reverse) range, 7 iterate, destroy
// -DNODE=<node size> -DMERGE=<merge threshold percent>
#include "dict.h"
#include <utility>
#include <indexes/btree/concurrent_map.h>
#include <indexes/btree/key.h>
#ifndef KIND
#define KIND 0
#endif
#ifndef NODE
#define NODE 192
#endif
#ifndef MERGE
#define MERGE 20
#endif
#ifndef DBG
#define DBG false
#endif
namespace {
struct traits : indexes::btree::btree_traits_default {
  static constexpr int NODE_SIZE = NODE;
  static constexpr int NODE_MERGE_THRESHOLD = MERGE;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = DBG;
};
long g_keys = 0;
#if KIND == 1
struct K {
  uint64_t *p;
  K(uint64_t v) : p(new uint64_t(v)) { g_keys++; }
  K(const K &o) : p(new uint64_t(*o.p)) { g_keys++; }
  K &operator=(const K &o) { *p = *o.p; return *this; }
  ~K() { delete p; g_keys--; }
  bool operator<(const K &o) const { return *p < *o.p; }
  bool operator==(const K &o) const { return *p == *o.p; }
};
K mk(KeyT k) { return K(k); }
KeyT ko(const K &k) { return *k.p; }
#elif KIND == 2
using K = indexes::btree::compound_key<uint32_t, uint32_t>;
K mk(KeyT k) { return K{(uint32_t)(k >> 32), (uint32_t)k}; }
KeyT ko(const K &k) { return (KeyT)std::get<0>(k) << 32 | std::get<1>(k); }
#else
using K = uint64_t;
K mk(KeyT k) { return k; }
KeyT ko(const K &k) { return k; }
#endif
using Map = indexes::btree::concurrent_map<K, Val, traits>;
struct W {
  Map m;
  bool Insert(KeyT k, uint64_t v) { return m.Insert(mk(k), Val(v)); }
  std::optional<Val> Upsert(KeyT k, uint64_t v) { return m.Upsert(mk(k), Val(v)); }
  std::optional<Val> Update(KeyT k, uint64_t v) { return m.Update(mk(k), Val(v)); }
  std::optional<Val> Delete(KeyT k) { return m.Delete(mk(k)); }
  std::optional<Val> Search(KeyT k) { return m.Search(mk(k)); }
};
W *m;
#if KIND == 2
#define SP(k) (((KeyT)((k) / 3) << 32) | (k) % 3)  // several keys share the first component
#else
#define SP(k) (k)
#endif
void shape(unsigned s) {
  auto P = [](int k) { dict_op(*m, OP_INS, SP((KeyT)k * 10), 1000 + nlg); };
  auto D = [](int k) { dict_op(*m, OP_DEL, SP((KeyT)k * 10), 0); };
  switch (s) {
  case 0: break;
  case 1: for (int i = 1; i <= 4; i++) P(i); break;
  case 2: for (int i = 1; i <= 9; i++) P(i); break;
  case 3: for (int i = 1; i <= 20; i++) P(i); break;
  case 4: for (int i = 20; i >= 1; i--) P(i); break;
  case 5: for (int i = 1; i <= 20; i++) P(i * 8 % 21); break;
  case 6: for (int i = 1; i <= 20; i++) P(i); for (int i = 1; i <= 12; i++) D(i); break;
  case 7: for (int i = 1; i <= 20; i++) P(i); for (int i = 20; i >= 4; i--) D(i); break;
  case 8: for (int i = 1; i <= 9; i++) P(i); for (int i = 1; i <= 9; i++) D(i); break;
  case 9: for (int i = 1; i <= 12; i++) P(i); for (int i = 1; i <= 12; i += 2) D(i); for (int i = 1; i <= 12; i += 4) P(i); break;
  case 10: for (int i = 1; i <= 26; i++) P(i); for (int i = 8; i <= 20; i++) D(i); break;
  case 11: for (int i = 1; i <= 4; i++) P(i); D(2); D(3); break;
  case 12: for (int i = 1; i <= 6; i++) P(i); D(1); D(2); D(3); break;
  case 13: P(1); D(1); break;
  case 14: for (int i = 1; i <= 9; i++) P(i); for (int i = 9; i >= 1; i--) D(i); break;
  case 15: for (int i = 1; i <= 6; i++) P(i); D(4); D(5); D(6); break;
  case 16: for (int i = 1; i <= 9; i++) P(i); for (int i = 3; i <= 7; i++) D(i); break;
  case 17: for (int i = 1; i <= 3; i++) P(i); break;
  case 18: for (int i = 1; i <= 60; i++) P(i); break;
  case 19: for (int i = 1; i <= 40; i++) P(i); for (int i = 5; i <= 36; i++) D(i); break;
  case 20: for (int i = 1; i <= 40; i++) P(i); for (int i = 1; i <= 40; i++) D(i); break;
  case 21: for (int i = 1; i <= 4; i++) P(i); for (int r = 0; r < 3; r++) { D(2); D(3); P(2); P(3); } break; // trimmed leaf
  }
}
uint64_t m_count() {
  uint64_t n = 0;
  for (int i = 0; i < nlg; i++) n += vp_select(m_final(i), 1, 0);
  return n;
}
// stored keys in the range
uint64_t m_in(KeyT lo, bool loinc, KeyT hi, bool hiinc) {
  uint64_t n = 0;
  for (int i = 0; i < nlg; i++) {
    KeyT k = lg[i].k;
    uint64_t in = (uint64_t)(loinc ? k >= lo : k > lo) & (uint64_t)(hiinc ? k <= hi : k < hi) & m_final(i);
    n += vp_select(in, 1, 0);
  }
  return n;
}
template <class It> void walk(It it, It end, bool fwd, uint64_t n, const char *l1, const char *l2, const char *l3) {
  uint64_t cnt = 0, sorted = 1, match = 1;
  KeyT prev = 0;
  for (; it != end; ++it) {
    KeyT k = ko(it->first);
    if (cnt) sorted &= fwd ? prev < k : k < prev;
    match &= m_has(k) & (vout(it->second) == m_val(k));
    prev = k;
    vp_emit(k);
    if (++cnt > 100) break;
  }
  vp_assert(sorted, l1);
  vp_assert(match, l2);
  vp_assert(cnt == n, l3);
}
template <class R> void walk_range(R r, bool fwd, KeyT lo, bool loinc, KeyT hi, bool hiinc) {
  uint64_t cnt = 0, sorted = 1, match = 1;
  KeyT prev = 0;
  for (; r; ++r) {
    KeyT k = ko(r.key());
    if (cnt) sorted &= fwd ? prev < k : k < prev;
    match &= m_has(k) & (vout(r.data()) == m_val(k)) & (uint64_t)(loinc ? k >= lo : k > lo) & (uint64_t)(hiinc ? k <= hi : k < hi);
    prev = k;
    vp_emit(k);
    if (++cnt > 100) break;
  }
  vp_assert(sorted, "a range yields keys in order");
  vp_assert(match, "a range yields only stored entries inside it");
  vp_assert(cnt == m_in(lo, loinc, hi, hiinc), "a range yields every entry inside it");
}
template <class It> void check_bound(It it, It end, KeyT lo, bool loinc) {
  // the smallest key (not) above
  uint64_t n = m_in(lo, loinc, ~(KeyT)0, true);
  if (it == end) {
    vp_assert(n == 0, "a bound is end only when there is no such entry");
    return;
  }
  KeyT k = ko(it->first);
  vp_emit(k);
  vp_assert(m_has(k) & (vout(it->second) == m_val(k)) & (uint64_t)(loinc ? k >= lo : k > lo), "a bound is a stored entry on the right side of the probe");
  vp_assert(m_in(lo, loinc, k, true) == 1, "a bound is the nearest entry");
}
} // namespace
// configuration: shape + 100 * number of symbolic operations + 1000 * mode
extern "C" void vp_main() {
  uint64_t c = vp_config();
  unsigned ops = c / 100 % 10, mode = c / 1000;
  int64_t base = vp_live();
  m = new W;
  shape(c % 100);
  for (unsigned i = 0; i < ops; i++) {
    unsigned op = vp_choice("op", 4);
    dict_op(*m, op, vp_sym("key", 64), vp_sym("val", 64));
  }
#if DBG
  vp_assert((int64_t)m->m.size() == m_n, "size is the number of keys");
  vp_assert(m->m.empty() == (m_n == 0), "empty means no keys");
#endif
  using namespace indexes::btree;
  switch (mode) {
  case 0: case 2: {
    uint64_t all = 1, val = 1;
    for (int i = 0; i < nlg; i++) {
      Ret r = ropt(m->Search(lg[i].k));
      all &= (uint64_t)r.has == m_has(lg[i].k);
      if (r.has) val &= r.v == m_val(lg[i].k);
    }
    vp_assert(all, "Search finds exactly the stored keys");
    vp_assert(val, "Search returns the last value written");
    break;
  }
  case 1: dict_op(*m, OP_SRCH, vp_sym("probe", 64), 0); break;
  case 3: {
    uint64_t n = m_count();
    const Map *cm = &m->m;
    vp_assert((m->m.begin() == m->m.end()) == (n == 0), "begin equals end exactly when the map is empty");
    vp_assert((cm->rbegin() == cm->rend()) == (n == 0), "rbegin equals rend exactly when the map is empty");
    walk(cm->cbegin(), cm->cend(), true, n, "forward iteration is strictly ascending", "forward iteration yields only stored entries", "forward iteration yields every entry once");
    walk(cm->crbegin(), cm->crend(), false, n, "reverse iteration is strictly descending", "reverse iteration yields only stored entries", "reverse iteration yields every entry once");
    break;
  }
  case 7: {
    // iterators and what they hold on to
    auto it = m->m.lower_bound(mk(vp_sym("probe", 64)));
    for (int i = 0; i < 2 && it != m->m.end(); i++) ++it;
    if (it != m->m.end() && it != m->m.begin()) --it;
    auto jt = it;
    vp_emit(jt == m->m.end());
    break;
  }
  case 4: {
    KeyT p = vp_sym("probe", 64);
#if KIND == 2
    // a prefix, compared by its only component
    using P = indexes::btree::compound_key<uint32_t>;
    KeyT pre = p >> 32 << 32;
    if (vp_choice("prefix", 2)) {
      if (vp_choice("upper", 2)) check_bound(m->m.upper_bound(P{(uint32_t)(p >> 32)}), m->m.end(), pre, true);
      else check_bound(m->m.lower_bound(P{(uint32_t)(p >> 32)}), m->m.end(), pre, true);
      break;
    }
#endif
    if (vp_choice("upper", 2)) check_bound(m->m.upper_bound(mk(p)), m->m.end(), p, false);
    else check_bound(m->m.lower_bound(mk(p)), m->m.end(), p, true);
    break;
  }
  case 5: case 6: {
    KeyT lo = vp_sym("lo", 64), hi = vp_sym("hi", 64);
    constexpr range_kind I = INCLUSIVE, E = EXCLUSIVE;
    // 0-3 both ends as keys of the map, given as temporaries
    // 4-7 (compound keys) the lower end is a prefix, 8-11 the upper end is
    unsigned q = vp_choice("kinds", KIND == 2 ? 12 : 4);
#define RANGE(A, B, lo, li, hi, hinc) \
  do { \
    if (mode == 5) { \
      if (q % 4 == 0) { auto r = m->m.range_iter<I, I>(A, B); walk_range(r, true, lo, li, hi, hinc); } \
      if (q % 4 == 1) { auto r = m->m.range_iter<I, E>(A, B); walk_range(r, true, lo, li, hi, hinc); } \
      if (q % 4 == 2) { auto r = m->m.range_iter<E, I>(A, B); walk_range(r, true, lo, li, hi, hinc); } \
      if (q % 4 == 3) { auto r = m->m.range_iter<E, E>(A, B); walk_range(r, true, lo, li, hi, hinc); } \
    } else { \
      if (q % 4 == 0) { auto r = m->m.rrange_iter<I, I>(A, B); walk_range(r, false, lo, li, hi, hinc); } \
      if (q % 4 == 1) { auto r = m->m.rrange_iter<I, E>(A, B); walk_range(r, false, lo, li, hi, hinc); } \
      if (q % 4 == 2) { auto r = m->m.rrange_iter<E, I>(A, B); walk_range(r, false, lo, li, hi, hinc); } \
      if (q % 4 == 3) { auto r = m->m.rrange_iter<E, E>(A, B); walk_range(r, false, lo, li, hi, hinc); } \
    } \
  } while (0)
    const bool LO = q % 4 < 2, HI = q % 2 == 0;
    if (q < 4) RANGE(mk(lo), mk(hi), lo, LO, hi, HI);
#if KIND == 2
    // a prefix sorts just before every key that extends it; as there is no
    // key equal to it, inclusive and exclusive mean the same
    using P = indexes::btree::compound_key<uint32_t>;
    KeyT plo = lo >> 32 << 32, phi = hi >> 32 << 32;
    if (q >= 4 && q < 8) RANGE(P{(uint32_t)(lo >> 32)}, mk(hi), plo, true, hi, HI);
    if (q >= 8) RANGE(mk(lo), P{(uint32_t)(hi >> 32)}, lo, LO, phi, false);
#endif
    break;
  }
  }
  if (mode == 2 || mode == 7) {
    m->m.reclaim_all();
    delete m;
#if OWNVAL
    vp_assert(g_objs == 0, "every value object is destroyed exactly once");
#endif
    vp_assert(g_keys == 0, "every key object is destroyed exactly once");
    vp_assert(vp_live() == base, "destroying the map releases all memory");
  }
  vp_reach("end");
}
