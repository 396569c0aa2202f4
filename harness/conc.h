// Several threads of operations on one map, checked for linearizability.
#pragma once
#include "dict.h"
#include <sync_prim/ThreadRegistry.h>
namespace {
// has no effect on the contents
template <class M> auto c_reserve(M &m, uint64_t n) -> decltype(m.reserve(n), void()) { m.reserve(n); }
void c_reserve(...) {}
const unsigned OP_RES = 5;
struct Op { unsigned op; KeyT k; uint64_t v; Ret r; uint64_t inv, res; };
const int MAXT = 3, MAXO = 3;
Op c_ops[MAXT][MAXO];
int c_n[MAXT];
int c_threads = 0;
void *c_map;
template <class M> void c_run(M &m, Op &o) {
  o.inv = vp_stamp();
  switch (o.op) {
  case OP_INS: o.r = {m.Insert(o.k, o.v), 0}; break;
  case OP_UPS: o.r = ropt(m.Upsert(o.k, o.v)); break;
  case OP_UPD: o.r = ropt(m.Update(o.k, o.v)); break;
  case OP_DEL: o.r = ropt(m.Delete(o.k)); break;
  case OP_SRCH: o.r = ropt(m.Search(o.k)); break;
  case OP_RES: c_reserve(m, 3); o.r = {false, 0}; break;
  }
  o.res = vp_stamp();
}
template <class M> void c_thread(void *p) {
  int t = (int)(intptr_t)p;
  for (int i = 0; i < c_n[t]; i++) c_run(*(M *)c_map, c_ops[t][i]);
}
void c_add(int t, unsigned op, KeyT k, uint64_t v) {
  Op &o = c_ops[t][c_n[t]++];
  o.op = op, o.k = k, o.v = v;
  if (c_threads <= t) c_threads = t + 1;
}
template <class M> auto c_size(M &m, int) -> decltype((int64_t)m.size()) { return m.size(); }
template <class M> int64_t c_size(M &, long) { return -1; }
struct St { uint64_t has, v; };
Op *c_all[MAXT * MAXO];
int c_na = 0;
const int MAXF = 64;
KeyT f_key[MAXF];
Ret f_ret[MAXF];
int f_n = 0;
int64_t f_size = -1;
// state of key k after the initial log and the first n operations of the order
struct Eff { KeyT k; uint64_t has, v; };
Eff eff[MAXT * MAXO];
St st_of(KeyT k, int n) {
  St s{m_has(k), m_val(k)};
  for (int i = 0; i < n; i++) {
    uint64_t same = eff[i].k == k;
    s.has = vp_select(same, eff[i].has, s.has);
    s.v = vp_select(same, eff[i].v, s.v);
  }
  return s;
}
uint64_t c_ok;
void c_perm(int n, unsigned used, uint64_t ok, int64_t cnt) {
  if (n == c_na) {
    if (f_size >= 0) ok &= cnt == f_size;
    for (int i = 0; i < f_n; i++) {
      St s = st_of(f_key[i], n);
      ok &= s.has == (uint64_t)f_ret[i].has;
      if (f_ret[i].has) ok &= s.v == f_ret[i].v;
    }
    c_ok |= ok;
    return;
  }
  for (int i = 0; i < c_na; i++) {
    if (used >> i & 1) continue;
    bool can = true;
    for (int j = 0; j < c_na; j++)
      if (!(used >> j & 1) && j != i && c_all[j]->res < c_all[i]->inv) can = false;
    if (!can) continue;
    Op &o = *c_all[i];
    St s = st_of(o.k, n);
    uint64_t k2 = ok;
    Eff e{o.k, s.has, s.v};
    int64_t cn = cnt;
    switch (o.op) {
    case OP_INS:
      k2 &= (uint64_t)o.r.has == (s.has ^ 1);
      e = {o.k, 1, vp_select(s.has, s.v, o.v)};
      cn += s.has ^ 1;
      break;
    case OP_UPS: e = {o.k, 1, o.v}; cn += s.has ^ 1; break;
    case OP_UPD: e = {o.k, s.has, vp_select(s.has, o.v, s.v)}; break;
    case OP_DEL: e = {o.k, 0, 0}; cn -= s.has; break;
    }
    if (o.op != OP_INS && o.op != OP_RES) {
      k2 &= (uint64_t)o.r.has == s.has;
      if (o.r.has) k2 &= o.r.v == s.v;
    }
    eff[n] = e;
    c_perm(n + 1, used | 1u << i, k2, cn);
  }
}
// Threads with as many operations out of the same set differ only in their
// number, so only one order of their operations needs to be explored.
void c_symmetric() {
  for (int t = 1; t < c_threads; t++) {
    if (c_n[t] != 1 || c_n[t - 1] != 1) continue;
    Op &a = c_ops[t - 1][0], &b = c_ops[t][0];
    vp_assume(a.op <= b.op);
    if (a.op == b.op) vp_assume(a.k <= b.k);
  }
}
// runs the threads and checks results and final contents
template <class M> void conc(M &m, bool symmetric = true) {
  c_map = &m;
  if (symmetric) c_symmetric();
  sync_prim::g_max_tid = c_threads;
  for (int t = 0; t < c_threads; t++) vp_spawn(c_thread<M>, (void *)(intptr_t)t);
  vp_join_all();
  for (int t = 0; t < c_threads; t++)
    for (int i = 0; i < c_n[t]; i++) {
      c_all[c_na++] = &c_ops[t][i];
      f_key[f_n++] = c_ops[t][i].k;
    }
  for (int i = 0; i < nlg && f_n < MAXF; i++)
    if (nlg <= 24 || i % 7 == 0 || i + 4 >= nlg) f_key[f_n++] = lg[i].k;
  for (int i = 0; i < f_n; i++) f_ret[i] = ropt(m.Search(f_key[i]));
  f_size = c_size(m, 0);
  c_perm(0, 0, 1, m_n);
  vp_assert(c_ok, "results and final contents fit some sequential order");
  for (int i = 0; i < c_na; i++) vp_emit(c_all[i]->r.has);
}
} // namespace
