// C11 (and, with -DLEAK, C19): a concurrent B+Tree used by several threads.
// -DNODE=<node size> -DMERGE=<merge threshold percent>
#include "conc.h"
#ifdef RECLAIM
#include "reclaim.h"
#endif
#include <thread>
#include <utility>
// A sleep gives the others any amount of time, or none.
namespace std::this_thread {
template <class R, class P> void vp_sleep_for(const chrono::duration<R, P> &) {
  if (vp_choice("sleep", 2)) vp_pause();
}
} // namespace std::this_thread
#define sleep_for vp_sleep_for
#include <indexes/btree/concurrent_map.h>
#undef sleep_for
#ifndef NODE
#define NODE 192
#endif
#ifndef MERGE
#define MERGE 40
#endif
namespace {
struct traits : indexes::btree::btree_traits_default {
  static constexpr int NODE_SIZE = NODE;  // 192: five entries in a leaf, five children in an inner node
  static constexpr int NODE_MERGE_THRESHOLD = MERGE;
#ifdef DBG
  static constexpr bool DEBUG = true;
  static constexpr bool STAT = true;
#endif
};
using Map = indexes::btree::concurrent_map<uint64_t, Val, traits>;
Map *m;
void P(int k) { dict_op(*m, OP_INS, k * 10, 1000 + nlg); }
void D(int k) { dict_op(*m, OP_DEL, k * 10, 0); }
void PP(int a, int b) { for (int i = a; i <= b; i++) P(i); }
void DD(int a, int b) { for (int i = a; i <= b; i++) D(i); }
// the initial map and the range of the symbolic keys
struct Init { KeyT lo, hi; };
Init init(unsigned s) {
  switch (s) {
  default:
  case 0: return {10, 20};                       // empty
  case 1: PP(1, 2); return {10, 20};             // one leaf
  case 2: PP(1, 5); return {29, 31};             // one full leaf: an insert makes a new root
  case 3: PP(1, 6); return {30, 40};             // two leaves of three
  case 4: PP(1, 8); return {60, 81};             // the right leaf is full
  case 5: PP(1, 8); DD(5, 6); return {30, 70};    // two leaves, mergeable after a delete
  case 6: PP(1, 5); DD(2, 3); PP(2, 3); return {20, 31};  // no room but dead entries: an insert trims
  case 7: PP(1, 17); return {170, 180};          // the root is full and so is the last leaf
  case 8: PP(1, 9); D(4); D(7); return {40, 80}; // three leaves, the last two mergeable
  case 9: PP(1, 2); DD(1, 2); return {10, 20};   // an emptied leaf
  case 10: PP(1, 6); DD(4, 6); return {30, 50};  // an emptied right leaf
  case 11: PP(1, 6); DD(1, 3); return {20, 40};  // an emptied left leaf
  case 12: PP(1, 20); DD(13, 14); return {120, 161};  // three levels
  case 13: PP(1, 6); D(2); return {30, 50};      // the same, smaller
  case 14: PP(1, 6); DD(2, 3); D(5); return {40, 60}; // an inner root with one child
  }
}
} // namespace
// configuration: initial map + 100 * plan + 10000 * op set
extern "C" void vp_main() {
  uint64_t c = vp_config();
  int64_t base = vp_live();
  m = new Map;
  Init in = init(c % 100);
  static const int plans[][3] = {{1, 1, 0}, {2, 1, 0}, {1, 1, 1}, {2, 2, 0}};
  const int *pl = plans[c / 100 % 10];
  unsigned set = c / 10000;
  for (int t = 0; t < 3; t++)
    for (int i = 0; i < pl[t]; i++) {
      unsigned op = 0;
      switch (set) {
      case 0: op = vp_choice("op", 5); break;
      case 1: op = vp_choice("op", 2) ? OP_DEL : OP_UPS; break;
      case 2: op = vp_choice("op", 3) + 2; break;
      case 3: op = OP_INS; break;
      case 4: op = OP_DEL; break;
      case 6: op = t ? vp_choice("op", 5) : vp_choice("op", 2) ? OP_DEL : OP_UPS; break;
      case 5: op = t ? vp_choice("op", 2) ? OP_SRCH : OP_UPD : vp_choice("op", 2) ? OP_DEL : OP_UPS; break;
      }
      KeyT k = vp_sym("key", 64);
      vp_assume(k >= in.lo);
      vp_assume(k <= in.hi);
      c_add(t, op, k, vp_sym("val", 64));
    }
  conc(*m, set < 5);
#ifdef LEAK
  m->reclaim_all();
  delete m;
  vp_assert(vp_live() == base, "the map releases all memory");
#endif
  vp_reach("end");
}
