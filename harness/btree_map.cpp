// C01..C04: the single-threaded B+Tree map against a reference history.
// -DKIND=0 int/uint64, 1 tracked objects, 2 compound keys with shorter probes
// -DNODE=<node size> -DMERGE=<merge threshold percent>
#include "vp.h"
#include <indexes/btree/key.h>
#include <indexes/btree/map.h>
#include <string>
#include <new>
#ifndef KIND
#define KIND 0
#endif
#ifndef NODE
#define NODE 128
#endif
#ifndef MERGE
#define MERGE 20
#endif
#ifndef PROP
#define PROP 0xf
#endif
#ifndef DBG
#define DBG false
#endif
namespace {
struct traits : indexes::btree::btree_traits_default {
  static constexpr int NODE_SIZE = NODE;
  static constexpr int NODE_MERGE_THRESHOLD = MERGE;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = DBG;
};
#if KIND == 1
// An object which owns a heap cell: a missing or doubled destruction is a leak
// or a double free, a copy of unconstructed storage reads uninitialised memory.
long g_live = 0;
struct Obj {
  int *p;
  Obj() : p(new int(0)) { g_live++; }
  Obj(int v) : p(new int(v)) { g_live++; }
  Obj(const Obj &o) : p(new int(*o.p)) { g_live++; }
  Obj &operator=(const Obj &o) { *p = *o.p; return *this; }
  ~Obj() { delete p; g_live--; }
  bool operator<(const Obj &o) const { return *p < *o.p; }
  bool operator==(const Obj &o) const { return *p == *o.p; }
};
using K = Obj;
using V = Obj;
static K mk(int32_t k) { return Obj(k); }
static V mv(uint64_t v) { return Obj((int)(uint32_t)v); }
static int32_t ko(const K &k) { return *k.p; }
static uint64_t vo(const V &v) { return (uint32_t)*v.p; }
static const int VBITS = 32;
#elif KIND == 2
using K = indexes::btree::compound_key<int16_t, int16_t>;
using V = uint64_t;
static K mk(int32_t k) { return K{(int16_t)(k >> 16), (int16_t)((uint16_t)k ^ 0x8000)}; }
static V mv(uint64_t v) { return v; }
static int32_t ko(const K &k) { return (int32_t)((uint32_t)(uint16_t)std::get<0>(k) << 16 | (uint16_t)(std::get<1>(k) ^ 0x8000)); }
static uint64_t vo(const V &v) { return v; }
static const int VBITS = 64;
#else
using K = int32_t;
using V = uint64_t;
static K mk(int32_t k) { return k; }
static V mv(uint64_t v) { return v; }
static int32_t ko(const K &k) { return k; }
static uint64_t vo(const V &v) { return v; }
static const int VBITS = 64;
#endif
using Map = indexes::btree::map<K, V, traits>;

// ---- the reference: a log of writes, read without branching ----
struct Ent { int32_t k; uint64_t v; bool put; };
Ent lg[64];
int nlg = 0;
void m_put(int32_t k, uint64_t v) { lg[nlg++] = {k, v, true}; }
void m_del(int32_t k) { lg[nlg++] = {k, 0, false}; }
bool m_has(int32_t k) {
  uint64_t r = 0;
  for (int i = 0; i < nlg; i++) r = vp_select(lg[i].k == k, lg[i].put, r);
  return r;
}
uint64_t m_val(int32_t k) {
  uint64_t r = 0;
  for (int i = 0; i < nlg; i++) r = vp_select(lg[i].k == k, lg[i].v, r);
  return r;
}
bool m_final(int i) {
  uint64_t r = lg[i].put;
  for (int j = i + 1; j < nlg; j++) r = vp_select(lg[i].k == lg[j].k, 0, r);
  return r;
}
uint64_t m_count() {
  uint64_t n = 0;
  for (int i = 0; i < nlg; i++) n += vp_select(m_final(i), 1, 0);
  return n;
}
// no stored key in (lo, hi) / [lo, ...
bool m_none(int32_t lo, bool loinc, int32_t hi, bool bounded) {
  uint64_t ok = 1;
  for (int i = 0; i < nlg; i++) {
    int32_t k = lg[i].k;
    uint64_t in = (uint64_t)(loinc ? k >= lo : k > lo) & (uint64_t)(bounded ? k < hi : true) & (uint64_t)m_final(i);
    ok &= in ^ 1;
  }
  return ok;
}

// ---- operations ----
Map *m;
void put(int32_t k, uint64_t v) {
  uint64_t had = m_has(k), old = m_val(k);
  V &r = (*m)[mk(k)];
  if (PROP & 1) {
    vp_assert(vo(r) == vp_select(had, old, 0), "subscript yields the stored value, or a value-initialised one for a new key");
  }
  r = mv(v);
  m_put(k, v);
}
// the assignment-only form: a new key's value is only written
void del(int32_t k) {
  bool had = m_has(k);
  bool r = m->erase(mk(k));
  if (PROP & 1) vp_assert(r == had, "erase by key reports whether the key was present");
  m_del(k);
}
// erase by iterator: the first entry not below k
void del_it(int32_t k) {
  auto it = m->find(mk(k));
  if (it == m->end()) {
    if (PROP & 1) vp_assert(!m_has(k), "find misses a stored key");
    return;
  }
  m->erase(it);
  m_del(k);
}
void run_prefix(unsigned id) {
  auto P = [](int k) { put(k * 10, 1000 + k); };
  auto D = [](int k) { del(k * 10); };
  switch (id) {
  case 0: break;
  case 1: for (int i = 1; i <= 5; i++) P(i); break;
  case 2: for (int i = 1; i <= 9; i++) P(i); break;
  case 3: for (int i = 1; i <= 20; i++) P(i); break;
  case 4: for (int i = 20; i >= 1; i--) P(i); break;
  case 5: for (int i = 1; i <= 20; i++) P(i * 8 % 21); break;
  case 6: for (int i = 1; i <= 20; i++) P(i); for (int i = 1; i <= 12; i++) D(i); break;
  case 7: for (int i = 1; i <= 20; i++) P(i); for (int i = 20; i >= 4; i--) D(i); break;
  case 8: for (int i = 1; i <= 9; i++) P(i); for (int i = 1; i <= 9; i++) D(i); break;
  case 9: for (int i = 1; i <= 12; i++) P(i); for (int i = 1; i <= 12; i += 2) D(i); for (int i = 1; i <= 12; i += 4) P(i); break;
  case 10: for (int i = 1; i <= 26; i++) P(i); for (int i = 8; i <= 20; i++) D(i); break;
  case 11: for (int i = 1; i <= 4; i++) P(i); D(2); D(3); break;
  case 12: for (int i = 1; i <= 5; i++) P(i); D(1); D(2); break;
  case 13: P(1); D(1); break;
  case 14: for (int i = 1; i <= 9; i++) P(i); for (int i = 9; i >= 1; i--) D(i); break;
  case 15: for (int i = 1; i <= 6; i++) P(i); D(3); D(4); break;
  case 16: for (int i = 1; i <= 8; i++) P(i); for (int i = 3; i <= 7; i++) D(i); break;
  case 17: for (int i = 1; i <= 3; i++) P(i); break;
  }
}
struct OutOfBound {};
void check_iter() {
  uint64_t n = m_count();
  const Map *cm = m;
  vp_assert((m->begin() == m->end()) == (n == 0), "begin equals end exactly when the map is empty");
  vp_assert((m->rbegin() == m->rend()) == (n == 0), "rbegin equals rend exactly when the map is empty");
  uint64_t cnt = 0, sorted = 1, match = 1;
  int32_t prev = 0;
  for (auto it = m->begin(); it != m->end(); ++it) {
    int32_t k = ko(it->first);
    if (cnt) sorted &= prev < k;
    match &= m_has(k) & (vo(it->second) == m_val(k));
    prev = k;
    cnt++;
    if (cnt > 64) break;
  }
  vp_assert(sorted, "forward iteration is strictly ascending");
  vp_assert(match, "forward iteration yields only stored entries");
  vp_assert(cnt == n, "forward iteration yields every entry once");
  cnt = 0, sorted = 1, match = 1;
  for (auto it = m->rbegin(); it != m->rend(); ++it) {
    int32_t k = ko(it->first);
    if (cnt) sorted &= k < prev;
    match &= m_has(k) & (vo(it->second) == m_val(k));
    prev = k;
    cnt++;
    if (cnt > 64) break;
  }
  vp_assert(sorted, "reverse iteration is strictly descending");
  vp_assert(match, "reverse iteration yields only stored entries");
  vp_assert(cnt == n, "reverse iteration yields every entry once");
  // const map, const iterators, postfix steps
  vp_assert((cm->begin() == cm->end()) == (n == 0), "const begin equals end exactly when the map is empty");
  vp_assert((cm->rbegin() == cm->rend()) == (n == 0), "const rbegin equals rend exactly when the map is empty");
  cnt = 0;
  uint64_t same = 1;
  {
    auto it = m->begin();
    auto ci = cm->cbegin();
    for (; it != m->end() && ci != cm->cend(); it++, ci++) {
      same &= ko(it->first) == ko(ci->first);
      cnt++;
      if (cnt > 64) break;
    }
    vp_assert(same & (cnt == n), "const iteration visits the same entries");
    cnt = 0;
    auto rt = m->rbegin();
    auto rc = cm->crbegin();
    for (; rt != m->rend() && rc != cm->crend(); ++rt, ++rc) {
      same &= ko(rt->first) == ko(rc->first);
      cnt++;
      if (cnt > 64) break;
    }
    vp_assert(same & (cnt == n), "const reverse iteration visits the same entries");
  }
  // ++ and -- are inverse within the map
  uint64_t inv = 1;
  cnt = 0;
  for (auto it = m->begin(); it != m->end(); ++it) {
    auto nx = it;
    ++nx;
    if (nx != m->end()) {
      auto bk = nx;
      --bk;
      inv &= bk == it && ko(bk->first) == ko(it->first);
      auto fw = bk;
      ++fw;
      inv &= fw == nx;
    }
    if (++cnt > 64) break;
  }
  vp_assert(inv, "stepping forward and back returns to the same entry");
  inv = 1;
  cnt = 0;
  for (auto it = m->rbegin(); it != m->rend(); ++it) {
    auto nx = it;
    ++nx;
    if (nx != m->rend()) {
      auto bk = nx;
      bk--;
      inv &= bk == it && ko(bk->first) == ko(it->first);
    }
    if (++cnt > 64) break;
  }
  vp_assert(inv, "stepping a reverse iterator forward and back returns to the same entry");
}
template <class It, class E> void check_bound(It it, E end, int32_t p, bool inc, const char *below, const char *missed) {
  if (it == end) {
    vp_assert(m_none(p, inc, 0, false), missed);
  } else {
    int32_t k = ko(it->first);
    vp_assert(inc ? k >= p : k > p, below);
    vp_assert(m_has(k) & (vo(it->second) == m_val(k)), "bound query yields a stored entry");
    vp_assert(m_none(p, inc, k, true), missed);
  }
}
void check_find() {
  int32_t p = (int32_t)vp_sym("probe", 32);
  const Map *cm = m;
  auto it = m->find(mk(p));
  bool found = it != m->end();
  vp_assert(found == m_has(p), "find sees exactly the stored keys");
  if (found) {
    vp_assert(ko(it->first) == p, "find returns the entry of the key");
    vp_assert(vo(it->second) == m_val(p), "find returns the last value written");
  }
  auto ci = cm->find(mk(p));
  auto ce = cm->end();
  vp_assert((ci != ce) == found, "find on a const map agrees");
  vp_assert(m->size() == m_count(), "size is the number of keys");
  vp_assert(m->empty() == (m_count() == 0), "empty exactly when no key is stored");
}
void check_bounds() {
  int32_t p = (int32_t)vp_sym("probe", 32);
  const Map *cm = m;
#if KIND == 2
  // a shorter compound key sorts before every key it is a prefix of
  indexes::btree::compound_key<int16_t> s{(int16_t)(p >> 16)};
  int32_t lo = (int32_t)((uint32_t)p & 0xffff0000u);
  check_bound(m->lower_bound(s), m->end(), lo, true, "lower_bound (short key) below the probe", "lower_bound (short key) misses an entry");
  check_bound(m->upper_bound(s), m->end(), lo, true, "upper_bound (short key) below the probe", "upper_bound (short key) misses an entry");
  check_bound(cm->lower_bound(s), cm->end(), lo, true, "const lower_bound (short key) below the probe", "const lower_bound (short key) misses an entry");
  check_bound(cm->upper_bound(s), cm->end(), lo, true, "const upper_bound (short key) below the probe", "const upper_bound (short key) misses an entry");
#endif
  check_bound(m->lower_bound(mk(p)), m->end(), p, true, "lower_bound below the probe", "lower_bound misses an entry");
  check_bound(m->upper_bound(mk(p)), m->end(), p, false, "upper_bound not above the probe", "upper_bound misses an entry");
  check_bound(cm->lower_bound(mk(p)), cm->end(), p, true, "const lower_bound below the probe", "const lower_bound misses an entry");
  check_bound(cm->upper_bound(mk(p)), cm->end(), p, false, "const upper_bound not above the probe", "const upper_bound misses an entry");
}
} // namespace

// configuration: prefix + 100 * number of symbolic operations + 1000 * operation set
extern "C" void vp_main() {
  uint64_t c = vp_config();
  unsigned prefix = c % 100, k = c / 100 % 10, set = c / 1000 % 10;
  int64_t base = vp_live();
  m = new Map;
  nlg = 0;
  run_prefix(prefix);
  for (unsigned i = 0; i < k; i++) {
    unsigned op;
    switch (set) {
    default: op = vp_choice("op", 3); break;          // put, erase, erase by iterator
    case 1: op = 0; break;                             // puts only
    case 2: op = 1; break;                             // erases only
    case 3: op = i * 2 < k ? 0 : vp_choice("op", 2); break; // puts, then either
    case 4: op = vp_choice("op", 2); break;
    }
    int32_t key = (int32_t)vp_sym("key", 32);
    if (op == 0)
      put(key, vp_sym("val", VBITS));
    else if (op == 1)
      del(key);
    else
      del_it(key);
  }
  if (PROP & 1) check_find();
  if (PROP & 2) check_iter();
  if (PROP & 4) check_bounds();
  if (!(PROP & 1)) vp_emit(m->size());
  for (auto it = m->begin(); it != m->end(); ++it) vp_emit((uint32_t)ko(it->first));
  delete m;
  if (PROP & 8) {
#if KIND == 1
    vp_assert(g_live == 0, "every key and value object is destroyed exactly once");
#endif
    vp_assert(vp_live() == base, "destroying the map releases all memory");
  }
  vp_reach("end");
}
