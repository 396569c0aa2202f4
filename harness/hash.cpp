// C13 (and, with modes 2xxxx, C19): the concurrent hash map used by one client.
#include "dict.h"
#include <indexes/hashtable/concurrent_map.h>
#ifndef LIMIT
#define LIMIT 255
#endif
#ifndef OWNKEY
#define OWNKEY 0
#endif
namespace {
#if OWNKEY
long g_keys = 0;
struct Key {
  uint64_t *p;
  Key(uint64_t v) : p(new uint64_t(v)) { g_keys++; }
  Key(const Key &o) : p(new uint64_t(*o.p)) { g_keys++; }
  Key &operator=(const Key &o) { *p = *o.p; return *this; }
  ~Key() { delete p; g_keys--; }
  bool operator==(const Key &o) const { return *p == *o.p; }
};
#else
using Key = uint64_t;
#endif
// Keys with equal low bytes have equal hashes; every position of tables of up
// to 256 buckets and the two reserved hash values occur.
struct H {
#if OWNKEY
  size_t operator()(const Key &k) const { return (size_t)(int64_t)(int8_t)*k.p; }
#else
  size_t operator()(uint64_t k) const { return (size_t)(int64_t)(int8_t)k; }
#endif
};
struct traits : indexes::hashtable::hashtable_traits_default {
  static constexpr LinkType LINEAR_SEARCH_LIMIT = LIMIT;
#ifdef DBG
  static constexpr bool DEBUG = true;
#endif
};
using Map = indexes::hashtable::concurrent_map<Key, Val, H, traits>;
Map *m;
void P(KeyT k) { dict_op(*m, OP_INS, k, 1000 + nlg); }
void D(KeyT k) { dict_op(*m, OP_DEL, k, 0); }
void shape(unsigned s) {
  m = new Map(s == 10 || s == 15 ? 8 : s == 16 ? 16 : 0);
  switch (s) {
  case 0: break;
  case 1: P(1); break;
  case 2: P(1), P(0x101); break;                        // equal hashes
  case 3: P(3), P(7), P(0x103); break;                  // a chain that wraps around
  case 4: P(1), P(5), P(2); break;                      // a home taken by another chain
  case 5: P(0), P(1), P(2), P(3); break;                // full, no chains
  case 6: P(1), P(5), P(9), P(13); break;               // full, one chain
  case 7: P(1), P(5), P(9), P(13), D(1), D(9); break;   // tombstones in a chain
  case 8: P(1), P(2), P(5), P(6), D(1), D(2), D(5), D(6); break; // nothing but tombstones
  case 9: P(2), P(6), P(3), D(2), D(3); break;
  case 10: P(7), P(15), P(0), P(23), P(6), P(8); break; // wrapping chains in 8 buckets
  case 11: P(1), P(2), P(5), P(6), P(3); break;         // grown once
  case 12: for (int i = 0; i < 9; i++) P(i * 4 + 1); break; // grown twice
  case 13: P(0xff), P(0xfe), P(0); break;               // reserved hash values
  case 14: P(1), P(5), m->reserve(8); break;
  case 15: P(1), P(9), P(17), D(9), m->reserve(0); break; // shrunk
  case 16: for (int i = 0; i < 12; i++) P(i * 16 + (i & 1)); D(32), D(0), D(17); break; // long chains
  case 18: P(0), P(0x100), P(0x200), P(1); break;       // with LIMIT 1: never ends
  case 17: P(1), D(1), P(1), D(1), P(1); break;
  }
}
} // namespace
// configuration: shape + 1000 * number of symbolic operations + 10000: a
// symbolic probe; + 20000: reclaim and destroy; + 100: the operations include reserve
extern "C" void vp_main() {
  uint64_t c = vp_config();
  unsigned k = c / 1000 % 10;
  int64_t base = vp_live();
  shape(c % 100);
  for (unsigned i = 0; i < k; i++) {
    unsigned op = vp_choice("op", c / 100 % 10 ? 5 : 4);
    if (op == 4) { m->reserve(vp_choice("reserve", 4) * 3); continue; }
    KeyT key = vp_sym("key", 64);
#if LIMIT < 255
    // Insert never ends when the buckets after a home are taken in tables of
    // every size (known finding): keep the hashes apart
    vp_assume(((key >> 4 & 15) - 4 - 5 * i) < 5);
#endif
    dict_op(*m, op, key, vp_sym("val", 64));
  }
  unsigned mode = c / 10000;
  if (mode == 1) dict_op(*m, OP_SRCH, vp_sym("probe", 64), 0);
  vp_assert((int64_t)m->size() == m_n, "size is the number of keys");
  vp_assert(m->empty() == (m_n == 0), "empty means no keys");
  vp_emit(m->size());
  uint64_t all = 1, val = 1;
  if (mode != 1)
    for (int i = 0; i < nlg; i++) {
      Ret r = ropt(m->Search(lg[i].k));
      all &= (uint64_t)r.has == m_has(lg[i].k);
      if (r.has) val &= r.v == m_val(lg[i].k);
    }
  vp_assert(all, "Search finds exactly the stored keys");
  vp_assert(val, "Search returns the last value written");
  if (mode == 2) {
    m->reclaim_all();
    delete m;
#if OWNVAL
    vp_assert(g_objs == 0, "every value object is destroyed exactly once");
#endif
#if OWNKEY
    vp_assert(g_keys == 0, "every key object is destroyed exactly once");
#endif
    vp_assert(vp_live() == base, "destroying the map releases all memory");
  }
  vp_reach("end");
}
