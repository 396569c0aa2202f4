// Replay runtime: runs a harness natively on the inputs and the schedule of one
// path found by the symbolic executor.  usage: prog replay-file
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <deque>
#include <string>
#include <unordered_map>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#define VP_ASAN 1
#endif
#endif
extern "C" void vp_main();

namespace {
struct In { std::string name; unsigned width; uint64_t v; };
struct Ev { int kind, from, to, post; uint64_t sync; };
std::vector<In> *ins;
std::vector<Ev> *evs;
uint64_t config;
size_t nextIn, nextEv;
uint64_t stamp;
bool mt;
pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
struct Th {
  pthread_t t;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  uint64_t sync = 0;
  bool done = false;
  const uint32_t *blocked = nullptr;
  bool joining = false;
};
std::deque<Th> *th;
int baton;
thread_local int me;
thread_local int hush;

[[noreturn]] void finish(int code) {
  fflush(stdout);
  _exit(code);
}
[[noreturn]] void die(int code, const char *what, const char *arg = "") {
  printf("VP-%s %s\n", what, arg);
  finish(code);
}
void onSignal(int s) {
  const char *m = s == SIGALRM ? "VP-TIMEOUT\n" : s == SIGABRT ? "VP-ABORT\n" : s == SIGFPE ? "VP-FPE\n" : "VP-CRASH\n";
  (void)!write(1, m, strlen(m));
  _exit(s == SIGALRM ? 76 : s == SIGABRT ? 74 : 73);
}

// allocation counting
#ifdef VP_ASAN
struct HashTab {  // open addressing, no allocation through the hooked functions
  enum { N = 1 << 20 };
  const volatile void **t;
} tab;
int64_t live;
pthread_mutex_t tabm = PTHREAD_MUTEX_INITIALIZER;
size_t slot(const volatile void *p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 44; }
const volatile void *const TOMB = (void *)1;
void onMalloc(const volatile void *p, size_t) {
  if (hush || !p || !tab.t) return;
  pthread_mutex_lock(&tabm);
  size_t i = slot(p), n = 0;
  while (tab.t[i] && tab.t[i] != TOMB && n++ < HashTab::N) i = (i + 1) % HashTab::N;
  tab.t[i] = p;
  live++;
  pthread_mutex_unlock(&tabm);
}
void onFree(const volatile void *p) {
  if (!p || !tab.t) return;
  pthread_mutex_lock(&tabm);
  size_t i = slot(p), n = 0;
  while (tab.t[i] && tab.t[i] != p && n++ < HashTab::N) i = (i + 1) % HashTab::N;
  if (tab.t[i] == p) { tab.t[i] = TOMB; live--; }
  pthread_mutex_unlock(&tabm);
}
#endif

void waitBaton() {
  while (baton != me) pthread_cond_wait(&(*th)[me].cv, &big);
}
// called with `big` held
void passTo(int to) {
  if (to < 0 || to >= (int)th->size() || (*th)[to].done) die(79, "DIVERGED", "switch to a thread that cannot run");
  baton = to;
  pthread_cond_signal(&(*th)[to].cv);
}
bool runnable(int i) {
  Th &t = (*th)[i];
  if (t.done) return false;
  if (t.blocked) return *t.blocked == 0;
  if (t.joining) {
    for (size_t k = 1; k < th->size(); k++) if (!(*th)[k].done) return false;
  }
  return true;
}
// the recorded event, if the next one is from this thread at this point
bool take(bool post, int kind0, int kind1, int &to) {
  if (nextEv >= evs->size()) return false;
  Ev &e = (*evs)[nextEv];
  if (e.from != me || e.post != post || (e.kind != kind0 && e.kind != kind1) || e.sync != (*th)[me].sync) return false;
  nextEv++;
  to = e.to;
  return true;
}
void point(bool post) {
  if (!mt) return;
  int to;
  pthread_mutex_lock(&big);
  if (take(post, 0, post ? 0 : 2, to)) { passTo(to); waitBaton(); }
  pthread_mutex_unlock(&big);
}
// give up the processor; big held; must: the thread cannot go on
void giveUp(bool must) {
  int to;
  if (take(false, 1, 1, to)) { passTo(to); return; }
  if (nextEv >= evs->size()) {
    // past the end of the recording: any other thread
    for (size_t k = 1; k <= th->size(); k++) {
      int i = (me + k) % th->size();
      if (i != me && runnable(i)) { passTo(i); return; }
    }
    if (must && !runnable(me)) die(75, "DEADLOCK");
    return;
  }
  if (!must || runnable(me)) return;
  die(79, "DIVERGED", "no recorded switch");
}
struct Ender {
  bool on = false;
  ~Ender() {
    if (!on) return;
    pthread_mutex_lock(&big);
    (*th)[me].done = true;
    giveUp(true);
    pthread_mutex_unlock(&big);
  }
};
thread_local Ender ender;
struct Start { void (*fn)(void *); void *arg; int id; };
void *threadMain(void *p) {
  Start s = *(Start *)p;
  me = s.id;
  ender.on = true;  // constructed first, so destroyed after the other thread_locals
  pthread_mutex_lock(&big);
  waitBaton();
  pthread_mutex_unlock(&big);
  s.fn(s.arg);
  return nullptr;
}
void lockWord(uint32_t *m) {
  pthread_mutex_lock(&big);
  while (*m) {
    (*th)[me].blocked = m;
    giveUp(true);
    waitBaton();
    (*th)[me].blocked = nullptr;
  }
  *m = me + 1;
  pthread_mutex_unlock(&big);
}
} // namespace

extern "C" {
void vp_sync_pre() { (*th)[me].sync++; point(false); }
void vp_sync_post() { point(true); }
uint64_t vp_sym(const char *name, uint64_t bits) {
  if (nextIn >= ins->size()) die(79, "DIVERGED", "input beyond the recording");
  In &i = (*ins)[nextIn++];
  std::string n = std::string(name) + "." + std::to_string(nextIn - 1);
  if (i.name != n || i.width != bits) die(79, "DIVERGED", ("input " + n + " expected " + i.name).c_str());
  return i.v;
}
void vp_assume(bool c) { if (!c) die(78, "ASSUME-FAIL"); }
void vp_assert(bool c, const char *label) { if (!c) die(77, "ASSERT-FAIL", label); }
void vp_reach(const char *l) { printf("REACH %s\n", l); }
void vp_emit(uint64_t v) { printf("EMIT %llu\n", (unsigned long long)v); }
uint64_t vp_config() { return config; }
uint64_t vp_concrete(uint64_t v) { return v; }
bool vp_is_symbolic(uint64_t) { return false; }
uint64_t vp_select(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int vp_tid() { return me; }
int vp_nthreads() { return th->size(); }
uint64_t vp_stamp() { return ++stamp; }
bool vp_is_native() { return true; }
void vp_nopreempt(int) {}
int vp_preempts() { return 0; }
void vp_stop() { printf("STOP\n"); finish(0); }
int64_t vp_live() {
#ifdef VP_ASAN
  return live;
#else
  return 0;
#endif
}
int vp_spawn(void (*fn)(void *), void *arg) {
  hush++;
  pthread_mutex_lock(&big);
  int id = th->size();
  th->emplace_back();
  mt = true;
  Start *s = new Start{fn, arg, id};
  if (pthread_create(&th->back().t, nullptr, threadMain, s)) die(79, "DIVERGED", "pthread_create");
  pthread_mutex_unlock(&big);
  hush--;
  return id;
}
void vp_join_all() {
  pthread_mutex_lock(&big);
  (*th)[me].joining = true;
  while (!runnable(me)) { giveUp(true); waitBaton(); }
  (*th)[me].joining = false;
  mt = false;
  pthread_mutex_unlock(&big);
  hush++;
  for (size_t i = 1; i < th->size(); i++) pthread_join((*th)[i].t, nullptr);
  hush--;
}
void vp_pause() {
  if (!mt) return;
  pthread_mutex_lock(&big);
  giveUp(false);
  waitBaton();
  pthread_mutex_unlock(&big);
}
int vp_sched_yield() { vp_pause(); return 0; }
void vp_mutex_lock(uint32_t *m) { vp_sync_pre(); lockWord(m); vp_sync_post(); }
bool vp_mutex_trylock(uint32_t *m) {
  vp_sync_pre();
  bool ok = !*m;
  if (ok) *m = me + 1;
  vp_sync_post();
  return ok;
}
void vp_mutex_unlock(uint32_t *m) {
  vp_sync_pre();
  if (*m != (uint32_t)me + 1) die(72, "UNLOCK-NOT-OWNER");
  *m = 0;
  vp_sync_post();
}
int vp_pthread_lock(pthread_mutex_t *m) { vp_mutex_lock((uint32_t *)m); return 0; }
int vp_pthread_trylock(pthread_mutex_t *m) { return vp_mutex_trylock((uint32_t *)m) ? 0 : 16; }
int vp_pthread_unlock(pthread_mutex_t *m) { vp_mutex_unlock((uint32_t *)m); return 0; }
[[noreturn]] void vp_unreachable() { die(71, "UNREACHABLE"); }
}

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  ins = new std::vector<In>;
  evs = new std::vector<Ev>;
  th = new std::deque<Th>(1);
  FILE *f = argc > 1 ? fopen(argv[1], "r") : nullptr;
  if (!f) die(79, "DIVERGED", "no replay file");
  char w[64], n[512];
  while (fscanf(f, "%63s", w) == 1) {
    if (!strcmp(w, "config")) { unsigned long long c; (void)!fscanf(f, "%llu", &c); config = c; }
    else if (!strcmp(w, "input")) {
      unsigned wd; unsigned long long v;
      if (fscanf(f, "%511s %u %llx", n, &wd, &v) == 3) ins->push_back({n, wd, v});
    } else if (!strcmp(w, "sched")) {
      int k, a, b, p; unsigned long long s;
      if (fscanf(f, "%d %d %d %d %llu", &k, &a, &b, &p, &s) == 5) evs->push_back({k, a, b, p, s});
    }
  }
  fclose(f);
  signal(SIGALRM, onSignal);
  signal(SIGABRT, onSignal);
  signal(SIGFPE, onSignal);
#ifndef VP_ASAN
  signal(SIGSEGV, onSignal);
  signal(SIGBUS, onSignal);
  signal(SIGILL, onSignal);
#endif
  alarm(getenv("VP_ALARM") ? atoi(getenv("VP_ALARM")) : 20);
#ifdef VP_ASAN
  tab.t = (const volatile void **)calloc(HashTab::N, sizeof(void *));
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  vp_main();
  printf("END\n");
  finish(0);
}
