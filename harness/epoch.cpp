// C15: epoch based reclamation.
// Objects are published in a slot, replaced, retired and reclaimed by several
// threads; ghost times tell which sections were open when an object was retired.
#include "vp.h"
#include <sync_prim/ThreadRegistry.h>
#include <indexes/utils/EpochManager.h>
namespace {
#ifndef EPOCH
#define EPOCH uint64_t
#endif
struct Obj { int id; };
using EM = indexes::utils::EpochManager<EPOCH, Obj>;
EM *em;
const int MAXG = 24, NT = 3;
struct Ghost { uint64_t retired, closed; int by, reclaimed; bool done; } g[MAXG];
int ng = 0;
std::atomic<Obj *> slot;
struct Th { bool open; uint64_t begin; int depth; Obj *held; } th[NT];
Obj *make() {
  Obj *o = new Obj{ng++};
  return o;
}
void reclaim(int id, Obj *o) {
  vp_assert(o->id == id, "an object is reclaimed by its own reclaimer");
  vp_assert(g[id].retired != 0, "only retired objects are reclaimed");
  vp_assert(++g[id].reclaimed == 1, "an object is reclaimed at most once");
  for (int t = 0; t < NT; t++)
    if (th[t].open) vp_assert(th[t].begin > g[id].retired, "no object is reclaimed while a section that began before its retirement is open");
  delete o;
}
int retired_by(int t) {
  int n = 0;
  for (int i = 0; i < ng; i++) n += g[i].retired && g[i].by == t && !g[i].reclaimed;
  return n;
}
void closeAll(uint64_t now) {
  for (int i = 0; i < ng; i++)
    if (g[i].retired && !g[i].closed) g[i].closed = now;
}
enum { A_ENTER, A_EXIT, A_GRAB, A_NEW, A_CUR, A_RECL, A_SWITCH, A_SPAN, A_N };
bool seq;  // one action after the other: exact expectations
bool can(int t, int a) {
  switch (a) {
  case A_ENTER: return th[t].depth < 2;
  case A_EXIT: return th[t].depth > 0;
  case A_GRAB: return th[t].depth > 0;
  }
  return ng + 2 < MAXG;
}
void progress(int t, size_t left) {
  if (!seq) return;
  vp_assert(left == (size_t)retired_by(t), "the number of unreclaimed objects is reported");
  uint64_t first = ~0ull;
  for (int u = 0; u < NT; u++)
    if (th[u].open && th[u].begin < first) first = th[u].begin;
  for (int i = 0; i < ng; i++)
    if (g[i].by == t && g[i].closed && g[i].closed < first) vp_assert(g[i].reclaimed == 1, "an object no section could see is reclaimed on request");
  if (first == ~0ull) vp_assert(left == 0, "everything is reclaimed on request when no section is open");
}
void retire(int t, bool fresh, int n) {
  Obj *os[2];
  for (int i = 0; i < n; i++) {
    Obj *o = make();
    os[i] = slot.exchange(o);
  }
  int id = os[0]->id, id2 = n > 1 ? os[1]->id : id;
  for (int i = 0; i < n; i++) {
    vp_assert(!g[os[i]->id].retired, "harness: retired once");
    g[os[i]->id].by = t;
    g[os[i]->id].retired = vp_stamp();
  }
  auto f = [id, id2](Obj *o) { reclaim(o->id == id2 ? id2 : id, o); };
  if (fresh) n == 1 ? em->retire_in_new_epoch(f, os[0]) : em->retire_in_new_epoch(f, gsl::span<Obj *>(os, n));
  else n == 1 ? em->retire_in_current_epoch(f, os[0]) : em->retire_in_current_epoch(f, gsl::span<Obj *>(os, n));
  if (fresh && seq) closeAll(vp_stamp());
}
void act(int t, int a) {
  Th &x = th[t];
  switch (a) {
  case A_ENTER:
    em->enter_epoch();
    if (x.depth++ == 0) x.begin = vp_stamp(), x.open = true;
    break;
  case A_EXIT:
    if (--x.depth == 0) x.open = false, x.held = nullptr;
    em->exit_epoch();
    break;
  case A_GRAB:
    if (x.held) vp_assert(x.held->id >= 0, "an object in use is alive");
    x.held = slot.load();
    vp_assert(x.held->id >= 0, "an object just read is alive");
    break;
  case A_NEW: retire(t, true, 1); break;
  case A_CUR: retire(t, false, 1); break;
  case A_SPAN: retire(t, vp_choice("fresh", 2), 2); break;
  case A_RECL: progress(t, em->do_reclaim()); break;
  case A_SWITCH: {
    EPOCH old = em->now();
    EPOCH r = em->switch_epoch();
    if (seq) {
      vp_assert(r == old && em->now() == (EPOCH)(old + 1), "switch_epoch starts the next epoch and returns the old one");
      closeAll(vp_stamp());
    }
    break;
  }
  }
}
void as(int t, int a) {
  sync_prim::g_tid = t + 1;
  act(t, a);
  sync_prim::g_tid = -1;
}
struct Role { int n; const int *acts; int k; } role[NT];
void runner(void *p) {
  int t = (int)(intptr_t)p;
  for (int i = 0; i < role[t].n; i++) {
    int a = role[t].acts[vp_choice("act", role[t].k)];
    if (a >= 0 && can(t, a)) act(t, a);
  }
  if (th[t].held && th[t].open) vp_assert(th[t].held->id >= 0, "an object in use is alive");
}
void finish(bool all) {
  seq = true;
  for (int t = 0; t < NT; t++)
    while (th[t].depth) as(t, A_EXIT);
  if (all) {
    sync_prim::g_tid = 0;
    em->reclaim_all();
    sync_prim::g_tid = -1;
  } else
    for (int t = 0; t < NT; t++) as(t, A_RECL);
  for (int i = 0; i < ng; i++)
    vp_assert(g[i].reclaimed == (g[i].retired ? 1 : 0), "every retired object is reclaimed exactly once in the end");
}
} // namespace
// configuration: below 1000: a sequential history, its first two steps and
// the length fixed by the number; from 1000: threads
extern "C" void vp_main() {
  uint64_t c = vp_config();
  int64_t base = vp_live();
  em = new EM;
  slot = make();
  sync_prim::g_max_tid = NT;
  if (c < 1000) {
    // steps of three threads one after the other; thread numbers appear in order
    seq = true;
    int used = 0, n = 3 + c / 100, thr = c / 10 % 10;
    if (thr) em->set_reclamation_threshold(thr);
    for (int i = 0; i < n; i++) {
      int m = used < NT ? used + 1 : NT;
      int t, a;
      if (i == 0) t = 0, a = c % 10;
      else t = vp_choice("tid", m), a = vp_choice("act", A_N);
      if (t == used) used++;
      if (!can(t, a)) vp_stop();
      as(t, a);
    }
    finish(vp_choice("all", 2));
  } else {
    c -= 1000;
    static const int rd[] = {A_EXIT, A_ENTER, A_GRAB}, wr[] = {A_NEW, A_CUR, A_RECL, A_SPAN}, any[] = {A_ENTER, A_EXIT, A_GRAB, A_NEW, A_CUR, A_RECL, A_SWITCH};
    seq = true;
    switch (c % 10) {
    case 0: break;
    case 1: as(0, A_ENTER), as(0, A_GRAB); break;
    case 2: as(0, A_ENTER), as(0, A_GRAB), as(1, A_ENTER), as(1, A_GRAB); break;
    case 3: as(0, A_ENTER), as(0, A_GRAB), as(1, A_ENTER), as(1, A_GRAB), as(2, A_NEW); break;
    case 4: as(0, A_ENTER), as(0, A_GRAB), as(2, A_SWITCH), as(1, A_ENTER), as(1, A_GRAB), as(2, A_NEW); break;
    case 5: as(0, A_ENTER), as(0, A_ENTER), as(0, A_GRAB), as(2, A_NEW); break;
    case 6: as(0, A_ENTER), as(0, A_GRAB), as(2, A_CUR), as(1, A_ENTER), as(1, A_GRAB), as(2, A_CUR); break;
    case 7: as(2, A_NEW), as(2, A_CUR); break;
    case 8: as(2, A_ENTER), as(2, A_GRAB), as(1, A_CUR), as(2, A_NEW); break;
    case 9: as(0, A_SWITCH), as(0, A_ENTER), as(0, A_GRAB), as(1, A_NEW), as(2, A_ENTER); break;
    }
    seq = false;
    if (c / 10 % 10) em->set_reclamation_threshold(c / 10 % 10);
    int nr = c / 100 % 10, nw = c / 1000 % 10;
    switch (c / 10000) {
    case 0: role[0] = {nr, rd, 3}, role[1] = {nr, rd, 3}, role[2] = {nw, wr, 4}; break;
    case 1: role[0] = {nr, rd, 3}, role[1] = {0, rd, 3}, role[2] = {nw, wr, 4}; break;
    case 2: role[0] = {nr, any, 7}, role[1] = {nw, any, 7}, role[2] = {0, rd, 3}; break;
    case 3: role[0] = {nr, any, 7}, role[1] = {nr, any, 7}, role[2] = {nw, any, 7}; break;
    }
    for (int t = 0; t < NT; t++) vp_spawn(runner, (void *)(intptr_t)t);
    vp_join_all();
    finish(vp_choice("all", 2));
  }
  delete slot.load();
  delete em;
  vp_assert(vp_live() == base, "the epoch manager releases its own memory");
  vp_reach("end");
}
