// C12: iterators of the concurrent B+Tree while it is modified.
// -DNODE, -DMERGE as in btree_conc.cpp
#include "conc.h"
#include <thread>
#include <utility>
#include "reclaim.h"
// A sleep gives the others any amount of time, or none.
namespace std::this_thread {
template <class R, class P> void vp_sleep_for(const chrono::duration<R, P> &) {
  if (vp_choice("sleep", 2)) vp_pause();
}
} // namespace std::this_thread
#define sleep_for vp_sleep_for
#include <indexes/btree/concurrent_map.h>
#undef sleep_for
#ifndef NODE
#define NODE 192
#endif
#ifndef MERGE
#define MERGE 40
#endif
namespace {
struct traits : indexes::btree::btree_traits_default {
  static constexpr int NODE_SIZE = NODE;
  static constexpr int NODE_MERGE_THRESHOLD = MERGE;
#ifdef DBG
  static constexpr bool DEBUG = true;
#endif
};
using Map = indexes::btree::concurrent_map<uint64_t, Val, traits>;
Map *m;
void P(int k) { dict_op(*m, OP_INS, k * 10, 1000 + nlg); }
void D(int k) { dict_op(*m, OP_DEL, k * 10, 0); }
void PP(int a, int b) { for (int i = a; i <= b; i++) P(i); }
void DD(int a, int b) { for (int i = a; i <= b; i++) D(i); }
struct Init { KeyT lo, hi; };
Init init(unsigned s) {
  switch (s) {
  default:
  case 0: return {10, 20};                        // empty
  case 1: PP(1, 2); return {10, 21};              // one leaf
  case 2: PP(1, 5); return {19, 51};              // one full leaf
  case 3: PP(1, 6); return {20, 50};              // two leaves of three
  case 4: PP(1, 8); return {30, 81};              // the right leaf is full
  case 5: PP(1, 8); DD(5, 6); return {20, 80};    // two leaves, mergeable after a delete
  case 6: PP(1, 6); D(2); return {10, 60};        // the same, smaller
  case 7: PP(1, 9); D(4); D(7); return {10, 90};  // three leaves, the last two mergeable
  case 8: PP(1, 2); DD(1, 2); return {10, 20};    // an emptied leaf
  case 9: PP(1, 6); DD(4, 6); return {20, 60};    // an emptied right leaf
  case 10: PP(1, 6); DD(1, 3); return {10, 50};   // an emptied left leaf
  case 11: PP(1, 9); DD(4, 6); return {20, 80};   // an emptied leaf in the middle
  case 12: PP(1, 6); DD(2, 3); D(5); return {10, 70}; // an inner root with one child
  case 13: PP(1, 17); return {110, 181};          // the root is full and so is the last leaf
  case 14: for (int i = 11; i >= 1; i--) P(i); return {10, 50}; // full leaf on the left
  case 15: for (int i = 8; i >= 1; i--) P(i); D(5), D(6); return {10, 81};
  }
}
// what the scan yields
const int MAXY = 64;
KeyT y_k[MAXY];
uint64_t y_v[MAXY];
int y_n = 0;
int when[3], n_ops = 0, n_step = 0;  // operation i happens before step when[i]
Op s_ops[3];
bool threaded;
void step() {
  if (!threaded)
    for (int i = 0; i < n_ops; i++)
      if (when[i] == n_step) c_run(*m, s_ops[i]);
  n_step++;
}
template <class K, class V> void yield(K &k, V &v) {
  vp_assert(y_n < MAXY, "a scan ends");
  if (y_n >= MAXY) vp_stop();
  y_k[y_n] = k, y_v[y_n] = vout(v), y_n++;
}
template <class It> void walk(It it, It end) {
  step();
  for (; it != end; ++it) { yield(it->first, it->second); step(); }
}
template <class R> void walk_range(R r) {
  step();
  for (; r; ++r) { yield(r.key(), r.data()); step(); }
}
// kind: 0 begin, 1 rbegin, 2 range, 3 reverse range, 4 from a lower bound, 5 from an upper bound
unsigned kind;
KeyT r_lo, r_hi;
bool forward() { return kind != 1 && kind != 3; }
void scan(void *) {
  using namespace indexes::btree;
  switch (kind) {
  case 0: walk(m->cbegin(), m->cend()); break;
  case 1: walk(m->crbegin(), m->crend()); break;
  case 2: walk_range(m->range_iter<INCLUSIVE, INCLUSIVE>(r_lo, r_hi)); break;
  case 3: walk_range(m->rrange_iter<INCLUSIVE, INCLUSIVE>(r_lo, r_hi)); break;
  case 4: walk(m->lower_bound(r_lo), m->cend()); break;
  case 5: walk(m->upper_bound(r_lo - 1), m->cend()); break;
  }
}
void modify(void *) {
  for (int i = 0; i < n_ops; i++) c_run(*m, s_ops[i]);
}
} // namespace
// configuration: initial map + 100 * kind of scan + 1000 * number of operations
// + 10000: the operations run in a thread of their own
// + 100000: deletes only, + 200000: upserts only
extern "C" void vp_main() {
  uint64_t c = vp_config();
  m = new Map;
  Init in = init(c % 100);
  kind = c / 100 % 10, n_ops = c / 1000 % 10, threaded = c / 10000 % 10;
  unsigned set = c / 100000;
  int keys = m_n;
  r_lo = kind < 2 ? 0 : in.lo + 5, r_hi = kind == 3 ? in.hi - 5 : ~(KeyT)0 - 1;
  for (int i = 0; i < n_ops; i++) {
    s_ops[i].op = set == 1 ? OP_DEL : set == 2 ? OP_UPS : vp_choice("op", 2) ? OP_DEL : OP_UPS;
    s_ops[i].k = vp_sym("key", 64);
    s_ops[i].v = vp_sym("val", 64);
    vp_assume(s_ops[i].k >= in.lo);
    vp_assume(s_ops[i].k <= in.hi);
    if (!threaded) {
      int lo = i ? when[i - 1] : 0;
      when[i] = lo + vp_choice("when", keys + 1 - lo);
    }
  }
  if (threaded) {
    sync_prim::g_max_tid = 2;
    vp_spawn(scan, nullptr);
    vp_spawn(modify, nullptr);
    vp_join_all();
  } else
    scan(nullptr);
  uint64_t sorted = 1, known = 1, value = 1, stable = 1;
  for (int i = 0; i < y_n; i++) {
    KeyT k = y_k[i];
    if (i) sorted &= forward() ? y_k[i - 1] < k : k < y_k[i - 1];
    uint64_t has = m_has(k), val = m_has(k) & (uint64_t)(m_val(k) == y_v[i]);
    for (int j = 0; j < n_ops; j++) {
      uint64_t put = (uint64_t)(s_ops[j].op == OP_UPS) & (uint64_t)(s_ops[j].k == k);
      has |= put;
      val |= put & (uint64_t)(s_ops[j].v == y_v[i]);
    }
    known &= has & (uint64_t)(k >= r_lo) & (uint64_t)(k <= r_hi);
    value &= val;
  }
  for (int i = 0; i < nlg; i++) {
    KeyT k = lg[i].k;
    uint64_t stays = m_final(i) & (uint64_t)(k >= r_lo) & (uint64_t)(k <= r_hi), seen = 0;
    for (int j = 0; j < n_ops; j++)
      if (s_ops[j].op == OP_DEL) stays &= (uint64_t)(s_ops[j].k != k);
    for (int j = 0; j < y_n; j++) seen |= (uint64_t)(y_k[j] == k);
    stable &= (stays ^ 1) | seen;
  }
  vp_assert(sorted, "a scan is strictly ordered");
  vp_assert(known, "a scan yields only keys that were present during it");
  vp_assert(value, "a scan yields values that were stored under the key");
  vp_assert(stable, "a scan yields every key that stays present");
  vp_emit(y_n);
  vp_reach("end");
}
