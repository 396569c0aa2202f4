// C08 (and, with -DLEAK, C19): a concurrent radix tree used by several threads.
// With -DPICK keys are one of two present and two absent ones, which keeps
// walks over whole nodes (destruction, debug comparisons) concrete.
#include "conc.h"
#ifdef RECLAIM
#include "reclaim.h"
#endif
#include <indexes/art/concurrent_map.h>
namespace {
struct traits : indexes::art::art_traits_default {};
using Map = indexes::art::concurrent_map<Val, traits>;
Map *m;
void P(KeyT k) { dict_op(*m, OP_INS, k, 1000 + nlg); }
void D(KeyT k) { dict_op(*m, OP_DEL, k, 0); }
// the initial tree, and the mask of the key bits which are symbolic
struct Init { KeyT base, mask; };
Init init(unsigned s) {
  switch (s) {
  default:
  case 0: return {0x1100, 0xff};                                         // empty
  case 1: P(0x1101); return {0x1100, 0xffff};                            // one leaf
  case 2: P(0x1101), P(0x1102); return {0x1100, 0xffff};                 // a root of two
  case 3: for (int i = 1; i <= 4; i++) P(0x1100 | i); return {0x1100, 0xff};          // full NODE4 at the root
  case 4: P(0x22); for (int i = 1; i <= 4; i++) P(0x11 | i << 8); return {0x11, 0xff00}; // full NODE4 below the root
  case 5: P(0x22); for (int i = 1; i <= 4; i++) P(0x332211 | i << 24); return {0x332211, 0xff00ff00}; // the same with a longer prefix
  case 6: P(0x22), P(0x0111), P(0x0211); return {0x11, 0xff00};          // two below the root: deleting leaves one
  case 7: P(0x22); for (int i = 1; i <= 4; i++) P(0x11 | i << 8); D(0x0211); return {0x11, 0xff00}; // full with a hole
  case 8: P(0x22); for (int i = 1; i <= 5; i++) P(0x11 | i << 8); return {0x11, 0xff00}; // NODE16 about to shrink
  case 9: P(0x22); for (int i = 1; i <= 16; i++) P(0x11 | i << 8); return {0x11, 0xff00}; // full NODE16
  case 10: P(0x22); for (int i = 1; i <= 17; i++) P(0x11 | i << 8); return {0x11, 0xff00}; // NODE48 about to shrink
  case 11: P(0x22); for (int i = 1; i <= 48; i++) P(0x11 | i << 8); return {0x11, 0xff00}; // full NODE48
  case 12: P(0x0111), P(0x0211), P(0x010122); P(0x020122); return {0x0011, 0x00ff33}; // two inner nodes
  case 13: P(0x22); P(0x11), P(0x010011); return {0x11, 0xffff00};        // prefix 2 below the root, splits
  case 14: P(0x1101); D(0x1101); return {0x1100, 0xff};                  // emptied
  }
}
} // namespace
// configuration: initial tree + 100 * plan + 10000 * op set
// plan: threads and operations per thread: 0 2x1, 1 2x(2,1), 2 3x1, 3 2x2
extern "C" void vp_main() {
  uint64_t c = vp_config();
  int64_t base = vp_live();
  m = new Map;
  Init in = init(c % 100);
  static const int plans[][3] = {{1, 1, 0}, {2, 1, 0}, {1, 1, 1}, {2, 2, 0}};
  const int *pl = plans[c / 100 % 10];
  unsigned set = c / 10000;
  for (int t = 0; t < 3; t++)
    for (int i = 0; i < pl[t]; i++) {
#ifdef PICK
      KeyT cand[4] = {in.base | (in.mask & 0x4040404040), in.base | (in.mask & 0x4141414141), in.base, in.base};
      int nc = 2;
      for (int j = nlg - 1; j >= 0 && nc < 4; j--)
        if (lg[j].put && (lg[j].k & ~in.mask) == (in.base & ~in.mask) && lg[j].k != cand[2]) cand[nc++] = lg[j].k;
      KeyT k = cand[vp_choice("key", nc)];
#else
      KeyT k = vp_sym("key", 64);
      vp_assume((k & ~in.mask) == (in.base & ~in.mask));
#endif
      unsigned op = set == 0 ? vp_choice("op", 5) : set == 1 ? (vp_choice("op", 2) ? OP_DEL : OP_UPS) : set == 6 ? (t ? vp_choice("op", 5) : vp_choice("op", 2) ? OP_DEL : OP_UPS) : set == 2 ? (vp_choice("op", 3)) + 2 : OP_INS;
      c_add(t, op, k, vp_sym("val", 64));
    }
  conc(*m, set < 4);
#ifdef LEAK
  m->reclaim_all();
  delete m;
#if OWNVAL
  vp_assert(g_objs == 0, "every value object is destroyed exactly once");
#endif
  vp_assert(vp_live() == base, "the map releases all memory");
#endif
  vp_reach("end");
}
