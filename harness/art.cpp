// C06 (and, with -DCONC, C07): a radix tree used by one client.
#include "dict.h"
#ifdef CONC
#include <indexes/art/concurrent_map.h>
#else
#include <indexes/art/map.h>
#endif
#ifndef PROP
#define PROP 3
#endif
namespace {
struct traits : indexes::art::art_traits_default {
#ifdef DBG
  static constexpr bool DEBUG = true;
#endif
};
#ifdef CONC
using Map = indexes::art::concurrent_map<Val, traits>;
#else
using Map = indexes::art::map<Val, traits>;
#endif
Map *m;
KeyT place(unsigned pl, unsigned i) {
  uint64_t b = i;
  switch (pl) {
  default:
  case 0: return 0x7700 | b;                           // root, no prefix
  case 1: return 0x11 | b << 8;                        // prefix of one byte below the root
  case 2: return 0x332211 | b << 24;                   // prefix of three bytes below the root
  case 3: return 0x332211 | b << 24;                   // the same, and it is the root
  case 4: return 0x44332211ull | (b & 1 ? 0x66ull : 0x55ull) << 32 | b << 40; // two levels of prefixes
  case 5: return 0x0077665544332211ull | b << 56;      // last byte
  case 6: return 0x11 | (uint64_t)(b % 3) << 8 | b << 16; // three inner nodes side by side
  }
}
void P(KeyT k) { dict_op(*m, OP_INS, k, 1000 + nlg); }
void D(KeyT k) { dict_op(*m, OP_DEL, k, 0); }
// n children, then d of them removed from the front (or the back)
struct Shape { int n, front, back; };
const Shape shapes[] = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0},
                        {16, 0, 0}, {17, 0, 0}, {48, 0, 0}, {49, 0, 0}, {5, 1, 0}, {7, 0, 2},
                        {18, 1, 0}, {20, 5, 0}, {50, 2, 0}, {3, 1, 1}, {2, 2, 0}, {18, 12, 2}, {52, 20, 12}, {1, 1, 0}};
} // namespace
// configuration: shape + 100 * placement + 1000 * number of symbolic operations
// + 10000: a symbolic probe afterwards; + 20000: destroy the map (which splits
// on every value of each branching byte) instead of searching
extern "C" void vp_main() {
  uint64_t c = vp_config();
  Shape s = shapes[c % 100];
  unsigned pl = c / 100 % 10, k = c / 1000 % 10;
  int64_t base = vp_live();
  m = new Map;
  if (pl == 1 || pl == 2 || pl == 4) P(0x99);
  for (int i = 0; i < s.n; i++) P(place(pl, (i * 5 + 3) & 0xff));
  for (int i = 0; i < s.front; i++) D(place(pl, (i * 5 + 3) & 0xff));
  for (int i = 0; i < s.back; i++) D(place(pl, ((s.n - 1 - i) * 5 + 3) & 0xff));
  for (unsigned i = 0; i < k; i++) {
    KeyT key = vp_sym("key", 64);
    dict_op(*m, vp_choice("op", 4), key, vp_sym("val", 64));
  }
  unsigned mode = c / 10000;
  if (mode == 1) dict_op(*m, OP_SRCH, vp_sym("probe", 64), 0);
  vp_assert((int64_t)m->size() == m_n, "size is the number of keys");
  vp_emit(m->size());
  if (mode == 0) {
    uint64_t all = 1, val = 1;
    for (int i = 0; i < nlg; i++) {
      if (nlg > 24 && i % 7 && i + 4 < nlg) continue;
      Ret r = ropt(m->Search(lg[i].k));
      all &= (uint64_t)r.has == m_has(lg[i].k);
      if (r.has) val &= r.v == m_val(lg[i].k);
    }
    vp_assert(all, "Search finds exactly the stored keys");
    vp_assert(val, "Search returns the last value written");
  }
  if (mode == 2) {
#ifdef CONC
    m->reclaim_all();
#endif
    delete m;
#if OWNVAL
    vp_assert(g_objs == 0, "every value object is destroyed exactly once");
#endif
    vp_assert(vp_live() == base, "destroying the map releases all memory");
  }
  vp_reach("end");
}
