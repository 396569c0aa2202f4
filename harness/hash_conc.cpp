// C14 (and, with -DLEAK, C19): a concurrent hash map used by several threads.
#include "conc.h"
#ifdef RECLAIM
#include "reclaim.h"
#endif
#include <indexes/hashtable/concurrent_map.h>
#ifndef LIMIT
#define LIMIT 255
#endif
namespace {
// keys with equal low bytes have equal hashes
struct H {
  size_t operator()(uint64_t k) const { return (size_t)(int64_t)(int8_t)k; }
};
struct traits : indexes::hashtable::hashtable_traits_default {
  static constexpr LinkType LINEAR_SEARCH_LIMIT = LIMIT;
#ifdef DBG
  static constexpr bool DEBUG = true;
#endif
};
using Map = indexes::hashtable::concurrent_map<uint64_t, Val, H, traits>;
Map *m;
void P(KeyT k) { dict_op(*m, OP_INS, k, 1000 + nlg); }
void D(KeyT k) { dict_op(*m, OP_DEL, k, 0); }
// the initial table (4 buckets unless grown), and the mask of the key bits which are symbolic
struct Init { KeyT base, mask; };
Init init(unsigned s) {
  switch (s) {
  default:
  case 0: return {1, 0x104};                                  // empty; one chain
  case 1: P(1); return {1, 0x104};                            // a chain of one
  case 2: P(1), P(5); return {1, 0x10c};                      // a chain of two
  case 3: P(0), P(1), P(2); return {1, 0xe};                  // one bucket left
  case 4: P(0), P(1), P(2), P(3); return {1, 0xc};            // full: the next key makes it grow
  case 5: P(1), P(5), D(1); return {1, 0xc};                  // a tombstone heads the chain
  case 6: P(3); return {3, 0x104};                            // chains that wrap around
  case 7: P(1), P(5), P(9), P(13), D(1), D(5), D(9), D(13); return {1, 0xc}; // only tombstones
  case 8: return {0, 3};                                      // empty; different homes
  case 9: P(1), P(2); return {1, 7};                          // chains through each other's homes
  case 10: P(0xff), P(0xfe); return {0xff, 0x101};            // reserved hash values
  }
}
} // namespace
// configuration: initial table + 100 * plan + 10000 * op set
// plan: threads and operations per thread: 0 2x1, 1 2x(2,1), 2 3x1, 3 2x2
// op set: 0 all, 1 upsert/delete, 2 update/delete/search, 3 insert, 4 upsert/delete against reserve, 5 insert/delete against reserve
extern "C" void vp_main() {
  uint64_t c = vp_config();
  int64_t base = vp_live();
  m = new Map;
  Init in = init(c % 100);
  static const int plans[][3] = {{1, 1, 0}, {2, 1, 0}, {1, 1, 1}, {2, 2, 0}};
  const int *pl = plans[c / 100 % 10];
  unsigned set = c / 10000;
  for (int t = 0; t < 3; t++)
    for (int i = 0; i < pl[t]; i++) {
      unsigned op = 0;
      switch (set) {
      case 0: op = vp_choice("op", 5); break;
      case 1: op = vp_choice("op", 2) ? OP_DEL : OP_UPS; break;
      case 2: op = vp_choice("op", 3) + 2; break;
      case 3: op = OP_INS; break;
      case 4: op = t == 1 ? OP_RES : vp_choice("op", 2) ? OP_DEL : OP_UPS; break;
      case 6: op = t ? vp_choice("op", 5) : vp_choice("op", 2) ? OP_DEL : OP_UPS; break;
      case 5: op = t == 1 ? OP_RES : vp_choice("op", 5); break;
      }
      KeyT k = 0;
      if (op != OP_RES) {
        k = vp_sym("key", 64);
        vp_assume((k & ~in.mask) == (in.base & ~in.mask));
      }
      c_add(t, op, k, vp_sym("val", 64));
    }
  conc(*m, set < 4);
#ifdef LEAK
  m->reclaim_all();
  delete m;
  vp_assert(vp_live() == base, "the map releases all memory");
#endif
  vp_reach("end");
}
