// A map with Insert / Upsert / Update / Delete / Search against a reference.
// The reference is a log of writes, read without branching.
#pragma once
#include "vp.h"
#include <optional>
#ifndef OWNVAL
#define OWNVAL 0
#endif
namespace {
#if OWNVAL
long g_objs = 0;
// a value owning a heap cell
struct Val {
  uint64_t *p;
  Val() : p(new uint64_t(0)) { g_objs++; }
  Val(uint64_t v) : p(new uint64_t(v)) { g_objs++; }
  Val(const Val &o) : p(new uint64_t(*o.p)) { g_objs++; }
  Val &operator=(const Val &o) { *p = *o.p; return *this; }
  ~Val() { delete p; g_objs--; }
};
uint64_t vout(const Val &v) { return *v.p; }
#else
using Val = uint64_t;
uint64_t vout(uint64_t v) { return v; }
#endif
using KeyT = uint64_t;
struct Ent { KeyT k; uint64_t v; uint64_t put; };
const int MAXLOG = 700;
Ent lg[MAXLOG];
int nlg = 0;
void m_log(KeyT k, uint64_t v, uint64_t put) { lg[nlg++] = {k, v, put}; }
uint64_t m_has(KeyT k) {
  uint64_t r = 0;
  for (int i = 0; i < nlg; i++) r = vp_select(lg[i].k == k, lg[i].put, r);
  return r;
}
uint64_t m_val(KeyT k) {
  uint64_t r = 0;
  for (int i = 0; i < nlg; i++) r = vp_select(lg[i].k == k, lg[i].v, r);
  return r;
}
uint64_t m_final(int i) {
  uint64_t r = lg[i].put;
  for (int j = i + 1; j < nlg; j++) r = vp_select(lg[i].k == lg[j].k, 0, r);
  return r;
}
int64_t m_n = 0;  // number of keys
struct Ret { bool has; uint64_t v; };
Ret ropt(const std::optional<Val> &o) { return o ? Ret{true, vout(*o)} : Ret{false, 0}; }
enum { OP_INS, OP_UPS, OP_UPD, OP_DEL, OP_SRCH };
// runs one operation on both and compares the results
template <class M> void dict_op(M &m, unsigned op, KeyT k, uint64_t v) {
  uint64_t had = m_has(k), old = m_val(k);
  switch (op) {
  case OP_INS: {
    bool r = m.Insert(k, v);
    vp_assert(r == !had, "Insert succeeds exactly when the key is absent");
    m_log(k, vp_select(had, old, v), 1);
    m_n += vp_select(had, 0, 1);
    break;
  }
  case OP_UPS: {
    Ret r = ropt(m.Upsert(k, v));
    vp_assert(r.has == had, "Upsert returns a previous value exactly when there was one");
    if (r.has) vp_assert(r.v == old, "Upsert returns the previous value");
    m_log(k, v, 1);
    m_n += vp_select(had, 0, 1);
    break;
  }
  case OP_UPD: {
    Ret r = ropt(m.Update(k, v));
    vp_assert(r.has == had, "Update returns a previous value exactly when there was one");
    if (r.has) vp_assert(r.v == old, "Update returns the previous value");
    m_log(k, v, had);
    break;
  }
  case OP_DEL: {
    Ret r = ropt(m.Delete(k));
    vp_assert(r.has == had, "Delete returns a previous value exactly when there was one");
    if (r.has) vp_assert(r.v == old, "Delete returns the previous value");
    m_log(k, 0, 0);
    m_n -= vp_select(had, 1, 0);
    break;
  }
  case OP_SRCH: {
    Ret r = ropt(m.Search(k));
    vp_assert(r.has == had, "Search finds exactly the stored keys");
    if (r.has) vp_assert(r.v == old, "Search returns the last value written");
    break;
  }
  }
}
} // namespace
