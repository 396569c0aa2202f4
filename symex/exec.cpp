// Symbolic executor for Prog: depth-first over forked states.
#include <csignal>
#include "ir.h"
#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

static Prog P;

struct Options {
  std::string bc, out, repo = "/repo/";
  uint64_t config = 0;
  int preempt = 1;
  bool por = true;
  double timeLimit = 600;
  uint64_t maxInst = 3000000;   // per path
  uint64_t spinSync = 600;      // scheduling points in a row before a forced switch
  uint64_t maxPause = 400;
  int maxViol = 3;
  int samples = 8;
  uint64_t seed = 1;
  int maxFrames = 1500;
  uint64_t audit = 64;
  bool uninitBranch = true;
  bool trace = false;
  uint64_t shard = 0, shards = 1;
  uint64_t maxPaths = ~0ull;
} O;

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { K_FREE, K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_EXC, K_TLS };

struct Obj {
  uint32_t rc;
  uint32_t size;
  Kind kind;
  bool readonly;
  bool shared;   // reachable by more than one thread
  bool anySym;   // st may contain nonzero
  uint8_t *data; // size bytes
  uint8_t *st;   // per byte: 0 concrete, 1 symbolic, 2 uninitialised   (padded by 16)
  Expr **sym;    // per byte, or null
};
static Obj *newObj(uint32_t size, Kind k, bool uninit) {
  char *m = (char *)malloc(sizeof(Obj) + 2 * ((size_t)size + 16));
  Obj *o = (Obj *)m;
  o->rc = 1; o->size = size; o->kind = k; o->readonly = false; o->shared = false; o->sym = nullptr;
  o->data = (uint8_t *)(m + sizeof(Obj));
  o->st = o->data + size + 16;
  memset(o->data, 0, size + 16);
  memset(o->st, uninit ? 2 : 0, size + 16);
  o->anySym = uninit;
  return o;
}
static Obj *cloneObj(Obj *o) {
  Obj *n = newObj(o->size, o->kind, false);
  n->readonly = o->readonly; n->shared = o->shared; n->anySym = o->anySym;
  memcpy(n->data, o->data, 2 * ((size_t)o->size + 16));
  if (o->sym) {
    n->sym = (Expr **)malloc(sizeof(Expr *) * (o->size + 1));
    memcpy(n->sym, o->sym, sizeof(Expr *) * o->size);
  }
  return n;
}
static void dropObj(Obj *o) {
  if (o && --o->rc == 0) { free(o->sym); free(o); }
}

struct Chunk {
  uint32_t rc = 1;
  uint64_t used = 0;
  Obj *obj[64];
  uint16_t gen[64];
  Kind last[64];
  Chunk() { memset(obj, 0, sizeof obj); memset(gen, 0, sizeof gen); memset(last, 0, sizeof last); }
  Chunk(const Chunk &o) {
    used = o.used;
    memcpy(obj, o.obj, sizeof obj); memcpy(gen, o.gen, sizeof gen); memcpy(last, o.last, sizeof last);
    for (int i = 0; i < 64; i++) if (obj[i]) obj[i]->rc++;
  }
};
static void dropChunk(Chunk *c) {
  if (c && --c->rc == 0) {
    for (int i = 0; i < 64; i++) dropObj(c->obj[i]);
    delete c;
  }
}
constexpr int NCHUNK = 1 << (SLOT_BITS - 6);

struct Mem {
  Chunk *ch[NCHUNK];
  uint32_t cursor = 0;
  int64_t liveHeap = 0;
  uint32_t top = 0;   // chunks in use below this index
  Mem() { memset(ch, 0, sizeof ch); }
  Mem(const Mem &o) { memcpy(ch, o.ch, sizeof ch); cursor = o.cursor; liveHeap = o.liveHeap; top = o.top;
    for (uint32_t i = 0; i < top; i++) if (ch[i]) ch[i]->rc++; }
  ~Mem() { for (uint32_t i = 0; i < top; i++) dropChunk(ch[i]); }
  Mem &operator=(const Mem &) = delete;
  Chunk *wch(uint32_t i) {
    Chunk *c = ch[i];
    if (!c) { c = ch[i] = new Chunk(); if (i >= top) top = i + 1; }
    else if (c->rc > 1) { c->rc--; c = ch[i] = new Chunk(*c); }
    return c;
  }
  Obj *get(uint64_t addr) const {
    if (!isObjAddr(addr)) return nullptr;
    uint32_t s = addrSlot(addr);
    Chunk *c = ch[s >> 6];
    if (!c) return nullptr;
    Obj *o = c->obj[s & 63];
    if (!o || c->gen[s & 63] != addrGen(addr)) return nullptr;
    return o;
  }
  Obj *wget(uint64_t addr) {
    uint32_t s = addrSlot(addr);
    Chunk *c = ch[s >> 6];
    if (c->rc > 1) c = wch(s >> 6);
    Obj *&o = c->obj[s & 63];
    if (o->rc > 1) { o->rc--; o = cloneObj(o); }
    return o;
  }
  void place(uint64_t addr, Obj *o) {
    uint32_t s = addrSlot(addr);
    Chunk *c = wch(s >> 6);
    c->obj[s & 63] = o;
    c->gen[s & 63] = addrGen(addr);
    c->used |= 1ull << (s & 63);
  }
  uint64_t alloc(uint32_t size, Kind k, bool uninit) {
    uint32_t n = 1u << SLOT_BITS;
    for (uint32_t tries = 0; tries <= n; ) {
      uint32_t s = cursor;
      uint32_t ci = s >> 6;
      // addresses are handed out over a window that grows with use, so that a
      // freed address is not handed out again soon
      Chunk *c = ch[ci];
      if (c && c->used == ~0ull) { cursor = ((ci + 1) << 6) & SLOT_MASK; tries += 64; continue; }
      if (!c || !((c->used >> (s & 63)) & 1)) {
        c = wch(ci);
        uint16_t g = (c->gen[s & 63] + (c->last[s & 63] ? 1 : 0)) & GEN_MASK;
        c->gen[s & 63] = g;
        c->obj[s & 63] = newObj(size, k, uninit);
        c->used |= 1ull << (s & 63);
        c->last[s & 63] = k;
        cursor = (s + 1) & SLOT_MASK;
        if (cursor >= window) cursor = base;
        return mkAddr(s, g);
      }
      cursor = (s + 1) & SLOT_MASK;
      if (cursor >= window) { cursor = base; tries++; if (++wraps > 1) { if (window + 512 <= n) window += 512; wraps = 0; } }
      tries++;
    }
    fprintf(stderr, "symex: out of object slots\n");
    exit(3);
  }
  void release(uint64_t addr) {
    uint32_t s = addrSlot(addr);
    Chunk *c = wch(s >> 6);
    dropObj(c->obj[s & 63]);
    c->obj[s & 63] = nullptr;
    c->used &= ~(1ull << (s & 63));
  }
  static uint32_t base;
  uint32_t window = 0, wraps = 0;
};
uint32_t Mem::base = 0;

// ------------------------------------------------------------------ state
struct Frame {
  int32_t func, pc;
  uint32_t base;       // first register
  uint32_t allocBase;  // first stack object
  int32_t call;        // CallInfo in the caller, -1 for none
  uint8_t special;     // 1: destructor call made by the runtime
};
struct Caught { uint64_t obj; int handlers; };
struct Thread {
  std::vector<Frame> fr;
  std::vector<Val> regs;
  std::vector<uint64_t> allocs;
  enum St : uint8_t { RUN, BLOCKED, JOIN, DONE } st = RUN;
  uint64_t blockedOn = 0;
  uint64_t sync = 0;
  bool skipPre = false, lazyPost = false;
  // pruning of equivalent preemptions, see porAcc()
  enum { POR_NONE, POR_AWAY, POR_CHECK };
  uint8_t por = POR_NONE;
  bool porAll = false;
  int porSince = 0;
  std::vector<uint64_t> porAcc;  // sorted (address / 8) * 2 + write
  uint64_t sinceSwitch = 0;
  std::map<int, uint64_t> tls;
  std::vector<std::pair<uint64_t, uint64_t>> dtors;  // function, argument
  std::vector<Caught> caught;
  uint64_t excObj = 0;  // in flight
  bool paused = false;
};
struct SchedEv { uint8_t kind; uint8_t from, to; bool post; uint64_t sync; };  // kind: 0 preempt 1 free 2 forced
struct ExcInfo { uint64_t ti, dtor; };
struct State {
  Mem mem;
  std::vector<Thread> th;
  int cur = 0;
  Path path;
  std::vector<Expr *> inputs;   // in order of creation
  std::vector<Val> emits;
  std::vector<std::pair<int, int>> emitOrder;
  std::vector<SchedEv> sched;
  std::map<uint64_t, ExcInfo> exc;
  uint64_t insts = 0;
  uint64_t step = 0;
  uint64_t stamp = 0;
  int preempts = 0;
  uint64_t pauses = 0;
  uint32_t uninitN = 0, choiceN = 0;
  bool mt = false;
  uint32_t depth = 0;
  std::set<int> reach;
  int noPreempt = 0;
  bool porOn = false;
};

// ------------------------------------------------------------------ statistics
struct Violation {
  std::string kind, label, msg, loc, stack;
  std::vector<std::pair<std::string, u128>> inputs;
  std::vector<unsigned> widths;
  std::vector<SchedEv> sched;
  bool uninit;
};
static std::vector<Violation> g_viol;
static std::map<std::string, int> g_violKeys;
struct Sample {
  std::vector<std::pair<std::string, u128>> inputs;
  std::vector<unsigned> widths;
  std::vector<SchedEv> sched;
  std::vector<u128> emits;
  uint64_t insts;
  size_t constraints;
  std::string pathCond;
};
static std::vector<Sample> g_samples;
static uint64_t g_paths, g_infeasible, g_forks, g_insts, g_asserts, g_assertQueries, g_lost, g_maxPathInst, g_stoppedPaths, g_pruned;
static std::map<std::string, uint64_t> g_reach;
static std::map<std::string, uint64_t> g_unsupp;
static std::vector<std::string> g_labels;
static std::map<std::string, int> g_labelIdx;
static std::map<std::string, uint64_t> g_assertByLabel;
static std::vector<uint8_t> g_locSeen;
static bool g_complete = true;
static std::vector<State *> work;
static std::chrono::steady_clock::time_point t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

enum BI {
  B_NONE, B_MALLOC, B_CALLOC, B_FREE, B_REALLOC, B_NEW, B_NEWARR, B_NEWALIGN, B_NEWARRALIGN, B_DEL, B_DELARR, B_DELSZ, B_DELARRSZ,
  B_DELALIGN, B_ALIGNEDALLOC, B_POSIXMEMALIGN,
  B_MEMMOVE, B_MEMSET, B_MEMCMP,
  B_ABORT, B_ASSERTFAIL, B_TERMINATE, B_EXIT, B_THROWSTD,
  B_NOP, B_ZERO, B_ONE,
  B_SYM, B_ASSUME, B_ASSERT, B_REACH, B_EMIT, B_CONFIG, B_SPAWN, B_JOIN, B_TID, B_PAUSE, B_LOCK, B_TRYLOCK, B_UNLOCK,
  B_STAMP, B_LIVE, B_STOP, B_NATIVE, B_SHARD, B_NOPREEMPT, B_CONCRETE, B_ISSYM, B_NTHREADS, B_ITE, B_PREEMPTS, B_INVALIDATE,
  B_CXAALLOC, B_CXATHROW, B_CXABEGIN, B_CXAEND, B_CXARETHROW, B_CXAFREE, B_CXAGETPTR,
  B_ATEXIT, B_TATEXIT, B_GUARDACQ, B_GUARDREL, B_FMATH1, B_FMATH2, B_PTLOCK, B_PTTRY, B_PTUNLOCK, B_SCHEDYIELD, B_CALLUNEXP,
  B_SNAPADDR,
};
static std::map<std::string, std::pair<int, int>> g_bi;  // name -> (builtin, aux)
static void initBuiltins() {
  auto d = [&](const char *n, int b, int a = 0) { g_bi[n] = {b, a}; };
  d("malloc", B_MALLOC); d("calloc", B_CALLOC); d("free", B_FREE); d("realloc", B_REALLOC);
  d("_Znwm", B_NEW); d("_Znam", B_NEWARR); d("_ZnwmRKSt9nothrow_t", B_NEW); d("_ZnamRKSt9nothrow_t", B_NEWARR);
  d("_ZnwmSt11align_val_t", B_NEW); d("_ZnamSt11align_val_t", B_NEWARR);
  d("_ZnwmSt11align_val_tRKSt9nothrow_t", B_NEW); d("_ZnamSt11align_val_tRKSt9nothrow_t", B_NEWARR);
  d("_ZdlPv", B_DEL); d("_ZdaPv", B_DELARR); d("_ZdlPvm", B_DELSZ); d("_ZdaPvm", B_DELARRSZ);
  d("_ZdlPvSt11align_val_t", B_DEL); d("_ZdaPvSt11align_val_t", B_DELARR);
  d("_ZdlPvmSt11align_val_t", B_DELSZ); d("_ZdaPvmSt11align_val_t", B_DELARRSZ);
  d("_ZdlPvRKSt9nothrow_t", B_DEL); d("_ZdaPvRKSt9nothrow_t", B_DELARR);
  d("aligned_alloc", B_ALIGNEDALLOC); d("memalign", B_ALIGNEDALLOC); d("posix_memalign", B_POSIXMEMALIGN);
  d("memmove", B_MEMMOVE); d("memcpy", B_MEMMOVE); d("memset", B_MEMSET); d("memcmp", B_MEMCMP); d("bcmp", B_MEMCMP);
  d("abort", B_ABORT); d("__assert_fail", B_ASSERTFAIL); d("_ZSt9terminatev", B_TERMINATE); d("exit", B_EXIT); d("_exit", B_EXIT);
  d("__cxa_pure_virtual", B_ABORT); d("__cxa_call_unexpected", B_ABORT); d("__stack_chk_fail", B_ABORT);
  d("_ZSt20__throw_length_errorPKc", B_THROWSTD, 0); d("_ZSt19__throw_logic_errorPKc", B_THROWSTD, 1);
  d("_ZSt20__throw_out_of_rangePKc", B_THROWSTD, 2); d("_ZSt24__throw_out_of_range_fmtPKcz", B_THROWSTD, 2);
  d("_ZSt24__throw_invalid_argumentPKc", B_THROWSTD, 3); d("_ZSt17__throw_bad_allocv", B_THROWSTD, 4);
  d("_ZSt28__throw_bad_array_new_lengthv", B_THROWSTD, 4); d("_ZSt25__throw_bad_function_callv", B_THROWSTD, 5);
  d("_ZSt16__throw_bad_castv", B_THROWSTD, 6); d("_ZSt20__throw_system_errori", B_THROWSTD, 7);
  d("_ZSt27__throw_bad_optional_accessv", B_THROWSTD, 8); d("_ZSt21__throw_runtime_errorPKc", B_THROWSTD, 7);
  d("_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERTFAIL);
  for (const char *n : {"_ZNSt9exceptionD2Ev", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt13runtime_errorC1EPKc",
        "_ZNSt13runtime_errorC2EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12length_errorC1EPKc",
        "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt13runtime_errorD1Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12out_of_rangeD1Ev",
        "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_abort"})
    d(n, B_NOP);
  d("printf", B_ZERO); d("puts", B_ZERO); d("putchar", B_ZERO); d("fprintf", B_ZERO); d("fflush", B_ZERO); d("fputc", B_ZERO); d("fputs", B_ZERO); d("fwrite", B_ZERO); d("perror", B_NOP);
  d("__gthread_active_p", B_ONE);
  d("vp_sym", B_SYM); d("vp_assume", B_ASSUME); d("vp_assert", B_ASSERT); d("vp_reach", B_REACH); d("vp_emit", B_EMIT);
  d("vp_config", B_CONFIG); d("vp_spawn", B_SPAWN); d("vp_join_all", B_JOIN); d("vp_tid", B_TID); d("vp_pause", B_PAUSE);
  d("vp_mutex_lock", B_LOCK); d("vp_mutex_trylock", B_TRYLOCK); d("vp_mutex_unlock", B_UNLOCK);
  d("vp_stamp", B_STAMP); d("vp_live", B_LIVE); d("vp_stop", B_STOP); d("vp_is_native", B_NATIVE); d("vp_nopreempt", B_NOPREEMPT);
  d("vp_concrete", B_CONCRETE); d("vp_is_symbolic", B_ISSYM); d("vp_nthreads", B_NTHREADS); d("vp_select", B_ITE); d("vp_preempts", B_PREEMPTS);
  d("__cxa_allocate_exception", B_CXAALLOC); d("__cxa_throw", B_CXATHROW); d("__cxa_begin_catch", B_CXABEGIN);
  d("__cxa_end_catch", B_CXAEND); d("__cxa_rethrow", B_CXARETHROW); d("__cxa_free_exception", B_CXAFREE); d("__cxa_get_exception_ptr", B_CXAGETPTR);
  d("__cxa_atexit", B_ATEXIT); d("atexit", B_ATEXIT); d("__cxa_thread_atexit", B_TATEXIT);
  d("__cxa_guard_acquire", B_GUARDACQ); d("__cxa_guard_release", B_GUARDREL);
  d("pow", B_FMATH2, 4); d("log", B_FMATH1, 5); d("exp", B_FMATH1, 6); d("floor", B_FMATH1, 1); d("ceil", B_FMATH1, 2); d("sqrt", B_FMATH1, 3);
  d("log2", B_FMATH1, 12); d("round", B_FMATH1, 8); d("fabs", B_FMATH1, 0);
  d("pthread_mutex_lock", B_PTLOCK); d("pthread_mutex_trylock", B_PTTRY); d("pthread_mutex_unlock", B_PTUNLOCK);
  d("pthread_rwlock_rdlock", B_PTLOCK); d("pthread_rwlock_wrlock", B_PTLOCK); d("pthread_rwlock_unlock", B_PTUNLOCK);
  d("sched_yield", B_SCHEDYIELD); d("usleep", B_SCHEDYIELD); d("nanosleep", B_SCHEDYIELD); d("clock_nanosleep", B_SCHEDYIELD);
}
static std::vector<std::pair<int, int>> fnBI;

// ------------------------------------------------------------------ helpers
static State *S;   // current state
static Thread *T;  // current thread
static bool dead;  // current path ended

static std::string locStr(int loc) {
  auto &l = P.locs[loc];
  std::string f = l.file;
  if (f.compare(0, O.repo.size(), O.repo) == 0) f = f.substr(O.repo.size());
  return f + ":" + std::to_string(l.line);
}
static std::string stackStr() {
  std::string s;
  int n = 0;
  for (auto it = T->fr.rbegin(); it != T->fr.rend() && n < 12; ++it, ++n) {
    auto &f = P.funcs[it->func];
    int pc = std::max(0, std::min<int>(it->pc, f.code.size() - 1));
    s += "    " + f.pretty.substr(0, 160) + " at " + locStr(f.code[pc].loc) + "\n";
  }
  return s;
}
static void fillInputs(State *s, std::vector<std::pair<std::string, u128>> &in, std::vector<unsigned> &w) {
  for (Expr *e : s->inputs) {
    static Model empty;
    in.push_back({g_vars[e->aux].name, evalExpr(e, s->path.model ? *s->path.model : empty)});
    w.push_back(e->w);
  }
}
static bool pathHasUninit(State *s) {
  for (auto &g : s->path.groups)
    for (uint32_t v : *g->vars) if (g_vars[v].uninit) return true;
  return false;
}
static void report(const std::string &kind, const std::string &label, const std::string &msg, bool uninit = false) {
  int loc = 0;
  std::string where;
  if (!T->fr.empty()) {
    // innermost frame with a location inside the repository
    for (auto it = T->fr.rbegin(); it != T->fr.rend(); ++it) {
      auto &f = P.funcs[it->func];
      int l = f.code[std::max(0, std::min<int>(it->pc, f.code.size() - 1))].loc;
      if (where.empty()) { loc = l; where = locStr(l); }
      if (P.locs[l].file.compare(0, O.repo.size(), O.repo) == 0) { where = locStr(l); break; }
    }
  }
  std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : where);
  if (g_violKeys[key] >= 3) return;  // a few instances of each, in case one does not replay
  g_violKeys[key]++;
  Violation v;
  v.kind = kind; v.label = label; v.msg = msg; v.loc = where; v.stack = stackStr();
  fillInputs(S, v.inputs, v.widths);
  v.sched = S->sched;
  v.uninit = uninit || pathHasUninit(S);
  g_viol.push_back(v);
  if (O.trace) fprintf(stderr, "violation %s %s %s at %s\n%s", kind.c_str(), label.c_str(), msg.c_str(), where.c_str(), v.stack.c_str());
}
static void fail(const std::string &kind, const std::string &label, const std::string &msg, bool uninit = false) {
  report(kind, label, msg, uninit);
  dead = true;
}
static void unsupp(const std::string &what) {
  g_unsupp[what]++;
  g_complete = false;
  g_lost++;
  dead = true;
}

static Val fromExpr(Expr *e) {
  if (isConst(e) && e->w <= 64) return {(uint64_t)e->val, nullptr};
  return {0, e};
}
static inline Expr *toExpr(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static State *forkState() {
  g_forks++;
  State *n = new State(*S);
  n->depth++;
  return n;
}

// 0: only false, 1: only true, 2: both.  On 2, otherModel satisfies the side
// the current model does not.
static std::shared_ptr<const Model> otherModel;
static bool modelSide;
static const Model emptyModel;
// Conditions settled by the bounds on the path are re-decided by the solver at
// this rate (one in O.audit).
static uint64_t g_simpDecided = 0, g_audited = 0;
static void audit(Expr *c, Expr *s) {
  g_simpDecided++;
  if (!O.audit || g_simpDecided % O.audit) return;
  g_audited++;
  std::shared_ptr<const Model> m;
  Expr *d = mkBin(EK_XOR, c, s);
  if (solve(S->path, d, m) == R_SAT) {
    fprintf(stderr, "internal: unsound simplification of %s to %s\n", exprStr(c, 8).c_str(), exprStr(s, 8).c_str());
    exit(3);
  }
}
static int decide(Expr *c0) {
  Expr *c = S->path.simp(c0);
  if (isConst(c)) {
    if (c != c0) audit(c0, c);
    return c->val ? 1 : 0;
  }
  bool v = evalExpr(c, S->path.model ? *S->path.model : emptyModel) != 0;
  modelSide = v;
  SatRes r = solve(S->path, v ? mkNot(c) : c, otherModel);
  if (r == R_UNSAT) { S->path.learn(c, v); return v ? 1 : 0; }
  if (r == R_UNKNOWN) { g_complete = false; g_lost++; return v ? 1 : 0; }
  return 2;
}
static void assume(State *s, Expr *c, std::shared_ptr<const Model> m) {
  s->path.add(c);
  if (m) s->path.model = m;
}

// Fork on a condition.  The current state continues with the side returned;
// `other`, if non-null, is a copy constrained to the opposite side.
static bool branch(Expr *c, State *&other) {
  other = nullptr;
  int d = decide(c);
  if (d != 2) return d == 1;
  bool side = modelSide;
  if (O.uninitBranch && c->hasUninit) {
    // both outcomes possible and the condition mentions uninitialised memory
    fail("uninit", "uninit-branch", "control flow depends on uninitialised memory: " + exprStr(c, 4), true);
    return side;
  }
  auto om = otherModel;
  other = forkState();
  assume(other, side ? mkNot(c) : c, om);
  assume(S, side ? c : mkNot(c), nullptr);
  return side;
}

// Make v concrete; other feasible values are explored by copies of the state
// that re-execute the current instruction.
static uint64_t concretize(Val &v, unsigned w) {
  if (!v.e) return v.c;
  v.e = S->path.simp(v.e);
  if (isConst(v.e)) { v = {(uint64_t)v.e->val, nullptr}; return v.c; }
  u128 val = evalExpr(v.e, S->path.model ? *S->path.model : emptyModel);
  Expr *eq = mkBin(EK_EQ, v.e, mkConst(val, w));
  if (!isConst(eq)) {
    std::shared_ptr<const Model> m;
    SatRes r = solve(S->path, mkNot(eq), m);
    if (r == R_SAT) {
      if (O.uninitBranch && v.e->hasUninit) {
        fail("uninit", "uninit-value", "an address, size or call target depends on uninitialised memory", true);
        return (uint64_t)val;
      }
      State *o = forkState();
      assume(o, mkNot(eq), m);
      work.push_back(o);
    } else if (r == R_UNKNOWN) { g_complete = false; g_lost++; }
    assume(S, eq, nullptr);
  }
  v = {(uint64_t)val, nullptr};
  return (uint64_t)val;
}

static inline Val *regs() { return &T->regs[T->fr.back().base]; }
static inline Val rd(int32_t o) { return o >= 0 ? regs()[o] : P.consts[~o]; }
static uint64_t rdConc(int32_t o, unsigned w) {
  if (o >= 0) {
    Val &v = regs()[o];
    if (!v.e) return v.c;
    return concretize(v, w);
  }
  Val v = P.consts[~o];
  if (!v.e) return v.c;
  return concretize(v, w);
}

// ---- sharing (for the reduction of scheduling points)
static void publish(uint64_t addr) {
  std::vector<uint64_t> st{addr};
  while (!st.empty()) {
    uint64_t a = st.back();
    st.pop_back();
    Obj *o = S->mem.get(a);
    if (!o || o->shared) continue;
    o = S->mem.wget(a);
    o->shared = true;
    for (uint32_t i = 0; i + 8 <= o->size; i += 8) {
      if (o->anySym && *(uint64_t *)(o->st + i)) {
        if (o->sym && o->sym[i] && o->st[i] == 1) {
          std::vector<Expr *> es{o->sym[i]};
          while (!es.empty()) {
            Expr *e = es.back(); es.pop_back();
            if (isConst(e)) st.push_back((uint64_t)e->val);
            if (e->k == EK_ITE) { es.push_back(e->b); es.push_back(e->c); }
            if (e->k == EK_EXTRACT) es.push_back(e->a);
          }
        }
        continue;
      }
      uint64_t v = *(uint64_t *)(o->data + i) & ~7ull;  // low bits may carry a tag
      if (isObjAddr(v)) st.push_back(v);
    }
  }
}
static void publishAll() {
  for (uint32_t c = 0; c < S->mem.top; c++) {
    if (!S->mem.ch[c]) continue;
    for (int i = 0; i < 64; i++) {
      Obj *o = S->mem.ch[c]->obj[i];
      if (o && !o->shared) S->mem.wget(mkAddr(c * 64 + i, S->mem.ch[c]->gen[i]))->shared = true;
    }
  }
}
static void publishVal(const Val &v) {
  if (!v.e) {
    uint64_t a = v.c & ~7ull;
    if (isObjAddr(a)) publish(a);
    return;
  }
  std::vector<Expr *> es{v.e};
  while (!es.empty()) {
    Expr *e = es.back(); es.pop_back();
    if (isConst(e) && isObjAddr((uint64_t)e->val)) publish((uint64_t)e->val & ~7ull);
    if (e->k == EK_ITE) { es.push_back(e->b); es.push_back(e->c); }
  }
}

static std::string addrDesc(uint64_t a) {
  char b[160];
  if (a < 4096) { snprintf(b, sizeof b, "null pointer (+%llu)", (unsigned long long)a); return b; }
  if (!isObjAddr(a)) { snprintf(b, sizeof b, "wild pointer 0x%llx", (unsigned long long)a); return b; }
  Obj *o = S->mem.get(a);
  if (!o) { snprintf(b, sizeof b, "freed or unallocated object (offset %llu)", (unsigned long long)(a & OFF_MASK)); return b; }
  static const char *kn[] = {"free", "global", "stack", "malloc", "new", "new[]", "exception", "tls"};
  snprintf(b, sizeof b, "offset %lld of a %u-byte %s object", (long long)(a & OFF_MASK), o->size, kn[o->kind]);
  return b;
}

static Obj *check(uint64_t a, uint64_t n, bool write, const char *what) {
  Obj *o = S->mem.get(a);
  uint64_t off = a & OFF_MASK;
  if (!o || off + n > o->size || (write && o->readonly)) {
    std::string label = !o ? (a < 4096 ? "null-deref" : isObjAddr(a) ? "use-after-free" : "wild-pointer")
                           : (write && o->readonly && off + n <= o->size) ? "write-to-constant" : "out-of-bounds";
    fail("memory", label, std::string(what) + " of " + std::to_string(n) + " bytes at " + addrDesc(a));
    return nullptr;
  }
  return o;
}

static bool loadObj(Obj *o, uint64_t addr, uint64_t off, unsigned w, Val &out) {
  unsigned n = (w + 7) / 8;
  if (!o->anySym) {
    if (w <= 64) { uint64_t v = 0; memcpy(&v, o->data + off, n); out = {v & mask64(w), nullptr}; }
    else { u128 v = 0; memcpy(&v, o->data + off, n); out = {0, mkConst(v, w)}; }
    return true;
  }
  bool any = false, un = false;
  for (unsigned i = 0; i < n; i++) { if (o->st[off + i]) any = true; if (o->st[off + i] == 2) un = true; }
  if (!any) {
    if (w <= 64) { uint64_t v = 0; memcpy(&v, o->data + off, n); out = {v & mask64(w), nullptr}; }
    else { u128 v = 0; memcpy(&v, o->data + off, n); out = {0, mkConst(v, w)}; }
    return true;
  }
  if (un) {
    // give uninitialised bytes a fresh value, once
    o = S->mem.wget(addr);
    if (!o->sym) { o->sym = (Expr **)calloc(o->size + 1, sizeof(Expr *)); }
    bool all = true;
    for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 2) all = false;
    if (all) {
      Expr *v = mkVar("uninit." + std::to_string(S->uninitN++), n * 8, true);
      for (unsigned i = 0; i < n; i++) { o->st[off + i] = 1; o->sym[off + i] = mkExtract(v, i * 8, 8); }
    } else
      for (unsigned i = 0; i < n; i++)
        if (o->st[off + i] == 2) { o->st[off + i] = 1; o->sym[off + i] = mkVar("uninit." + std::to_string(S->uninitN++), 8, true); }
  }
  Expr *e = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Expr *b = o->st[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8);
    e = e ? mkConcat(b, e) : b;
  }
  if (e->w != w) e = mkExtract(e, 0, w);
  out = w <= 64 ? fromExpr(e) : Val{0, e};
  return true;
}
static void storeObj(Obj *o, uint64_t off, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8;
  if (!v.e || isConst(v.e)) {
    if (w <= 64) {
      uint64_t c = v.e ? (uint64_t)v.e->val : v.c;
      memcpy(o->data + off, &c, n);
    } else {
      u128 c = v.e ? v.e->val : v.c;
      memcpy(o->data + off, &c, n);
    }
    if (o->anySym) memset(o->st + off, 0, n);
    return;
  }
  if (!o->sym) o->sym = (Expr **)calloc(o->size + 1, sizeof(Expr *));
  o->anySym = true;
  Expr *e = v.e;
  if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = mkExtract(e, i * 8, 8);
    if (isConst(b)) { o->data[off + i] = (uint8_t)b->val; o->st[off + i] = 0; }
    else { o->sym[off + i] = b; o->st[off + i] = 1; }
  }
}

static uint64_t allocate(uint64_t size, Kind k, bool uninit = true) {
  if (size > OFF_MASK - 4096) { unsupp("allocation of " + std::to_string(size) + " bytes"); return 0; }
  uint64_t a = S->mem.alloc((uint32_t)size, k, uninit);
  if (k == K_MALLOC || k == K_NEW || k == K_NEWARR) S->mem.liveHeap++;
  return a;
}
// ---- pruning of equivalent preemptions
// Preempting a thread before a block of its instructions or after it makes no
// difference when nothing the other threads did in between conflicts with the
// block.  While a preempted thread is away the accesses of the others to shared
// memory are recorded; when it is back, its own are compared with them up to
// its next scheduling point; without a conflict the path is one which is also
// explored from a preemption at that later point, and is dropped.
static void porTouch(uint64_t g, uint64_t n, bool w) {
  for (size_t i = 0; i < S->th.size(); i++) {
    Thread &x = S->th[i];
    if ((int)i == S->cur) {
      if (x.por != Thread::POR_CHECK) continue;
      if (x.porAll) { x.por = Thread::POR_NONE; continue; }
      for (uint64_t k = g; k < g + n; k++) {
        auto it = std::lower_bound(x.porAcc.begin(), x.porAcc.end(), k * 2 + (w ? 0 : 1));
        if (it != x.porAcc.end() && *it <= k * 2 + 1) { x.por = Thread::POR_NONE; break; }
      }
    } else if (x.por == Thread::POR_AWAY && !x.porAll) {
      if (n > 64 || x.porAcc.size() > 4000) { x.porAll = true; x.porAcc.clear(); continue; }
      for (uint64_t k = g; k < g + n; k++) {
        uint64_t key = k * 2 + w;
        auto it = std::lower_bound(x.porAcc.begin(), x.porAcc.end(), key);
        if (it == x.porAcc.end() || *it != key) x.porAcc.insert(it, key);
      }
    }
  }
}
static inline void porAcc(Obj *o, uint64_t a, uint64_t n, bool w) {
  if (S->porOn && S->mt && o->shared && !o->readonly) porTouch(a >> 3, ((a + n - 1) >> 3) - (a >> 3) + 1, w);
}
// something that conflicts with everything
static void porEverything() {
  if (!S->porOn || !S->mt) return;
  for (size_t i = 0; i < S->th.size(); i++) {
    Thread &x = S->th[i];
    if ((int)i == S->cur) { if (x.por == Thread::POR_CHECK) x.por = Thread::POR_NONE; }
    else if (x.por == Thread::POR_AWAY) { x.porAll = true; x.porAcc.clear(); }
  }
}

static void release(uint64_t a, Kind want, int64_t size = -1) {
  if (!a) return;
  Obj *o = S->mem.get(a);
  if (!o || (a & OFF_MASK) || o->kind < K_MALLOC || o->kind > K_NEWARR) {
    fail("memory", o ? "invalid-free" : isObjAddr(a) ? "double-free" : "invalid-free", "release of " + addrDesc(a));
    return;
  }
  if (o->kind != want) {
    report("memory", "alloc-dealloc-mismatch", "object released by a different family of functions than allocated it: " + addrDesc(a));
  } else if (size >= 0 && (uint64_t)size != o->size) {
    report("memory", "sized-delete-mismatch", "released with size " + std::to_string(size) + ": " + addrDesc(a));
  }
  if (o->shared) porAcc(o, a, o->size ? o->size : 1, true);
  S->mem.liveHeap--;
  S->mem.release(a);
}

// ------------------------------------------------------------------ calls
static void pushFrame(int fn, int call) {
  auto &f = P.funcs[fn];
  Frame fr;
  fr.func = fn; fr.pc = 0; fr.call = call; fr.special = 0;
  fr.base = T->regs.size();
  fr.allocBase = T->allocs.size();
  T->regs.resize(fr.base + f.nregs);
  T->fr.push_back(fr);
  P.funcs[fn].executed++;
  if ((int)T->fr.size() > O.maxFrames) fail("memory", "stack-overflow", "unbounded recursion");
}
static void popFrame() {
  Frame &f = T->fr.back();
  while (T->allocs.size() > f.allocBase) {
    if (S->porOn && S->mt) { Obj *o = S->mem.get(T->allocs.back()); if (o && o->shared) porAcc(o, T->allocs.back(), o->size ? o->size : 1, true); }
    S->mem.release(T->allocs.back());
    T->allocs.pop_back();
  }
  T->regs.resize(f.base);
  T->fr.pop_back();
}
static void takeEdge(Thread &t, int ei) {
  Edge &e = P.edges[ei];
  Val *R = &t.regs[t.fr.back().base];
  if (!e.overlap) {
    for (auto &m : e.moves) R[m.first] = m.second >= 0 ? R[m.second] : P.consts[~m.second];
  } else {
    Val tmp[64];
    std::vector<Val> big;
    Val *q = tmp;
    if (e.moves.size() > 64) { big.resize(e.moves.size()); q = big.data(); }
    for (size_t i = 0; i < e.moves.size(); i++) { int32_t s = e.moves[i].second; q[i] = s >= 0 ? R[s] : P.consts[~s]; }
    for (size_t i = 0; i < e.moves.size(); i++) R[e.moves[i].first] = q[i];
  }
  t.fr.back().pc = e.pc;
}

// ------------------------------------------------------------------ exceptions
static bool isBase(uint64_t want, uint64_t have, int d = 0) {
  if (want == have) return true;
  if (d > 8) return false;
  auto it = P.globalByAddr.find(have & ~OFF_MASK);
  static Global synth;
  if (it == P.globalByAddr.end()) {
    if (have < 0x9000 || have >= 0x9100) return false;
    static const char *sn[] = {"_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument",
      "_ZTISt9bad_alloc", "_ZTISt17bad_function_call", "_ZTISt8bad_cast", "_ZTISt13runtime_error", "_ZTISt19bad_optional_access"};
    synth.name = sn[(have - 0x9000) / 16];
    synth.isExtern = true;
  }
  Global &g = it == P.globalByAddr.end() ? synth : P.globals[it->second];
  Global *w = nullptr;
  auto iw = P.globalByAddr.find(want & ~OFF_MASK);
  if (iw != P.globalByAddr.end()) w = &P.globals[iw->second];
  if (g.isExtern || g.init.size() < 24) {
    static const std::map<std::string, std::vector<std::string>> bases = {
        {"_ZTISt12out_of_range", {"_ZTISt11logic_error", "_ZTISt9exception"}},
        {"_ZTISt16invalid_argument", {"_ZTISt11logic_error", "_ZTISt9exception"}},
        {"_ZTISt12length_error", {"_ZTISt11logic_error", "_ZTISt9exception"}},
        {"_ZTISt11logic_error", {"_ZTISt9exception"}},
        {"_ZTISt13runtime_error", {"_ZTISt9exception"}},
        {"_ZTISt9bad_alloc", {"_ZTISt9exception"}},
        {"_ZTISt19bad_optional_access", {"_ZTISt9exception"}},
    };
    auto b = bases.find(g.name);
    if (b == bases.end() || !w) return false;
    for (auto &n : b->second) if (w->name == n) return true;
    return false;
  }
  uint64_t vt, base;
  memcpy(&vt, &g.init[0], 8);
  auto iv = P.globalByAddr.find(vt & ~OFF_MASK);
  if (iv != P.globalByAddr.end() && P.globals[iv->second].name == "_ZTVN10__cxxabiv120__si_class_type_infoE") {
    memcpy(&base, &g.init[16], 8);
    return isBase(want, base, d + 1);
  }
  return false;
}
// Unwind the current thread with the exception in flight.
static void unwind() {
  uint64_t ti = S->exc[T->excObj].ti;
  while (!T->fr.empty()) {
    Frame &f = T->fr.back();
    auto &code = P.funcs[f.func].code;
    Inst &in = code[f.pc];
    if (in.op == OP_CALL && P.calls[in.x].unwind >= 0) {
      int ue = P.calls[in.x].unwind;
      int lp = P.edges[ue].pc;
      // landingpad is the first instruction of the target block
      while (code[lp].op != OP_LANDINGPAD && lp - P.edges[ue].pc < 8) lp++;
      if (code[lp].op != OP_LANDINGPAD) { unsupp("landing pad"); return; }
      LPad &l = P.lpads[code[lp].x];
      int64_t sel = -1;
      for (auto &c : l.clauses)
        if (!c.isFilter) {
          if (c.ti == 0 || isBase(c.ti, ti)) { sel = c.ti ? addrSlot(c.ti) : 0x7fffffff; break; }
        } else { sel = 0x7ffffffe; break; }
      if (sel < 0 && l.cleanup) sel = 0;
      if (sel >= 0) {
        takeEdge(*T, ue);
        Val *R = regs();
        R[code[lp].dst] = {T->excObj, nullptr};
        R[code[lp].dst + 1] = {(uint64_t)sel, nullptr};
        return;
      }
    }
    if (T->fr.size() == 1) break;
    popFrame();
  }
  auto it = P.globalByAddr.find(ti & ~OFF_MASK);
  fail("exception", "uncaught-exception", "exception of type " + (it == P.globalByAddr.end() ? std::string("?") : P.globals[it->second].name) + " is not caught");
}
static void throwObj(uint64_t obj, uint64_t ti, uint64_t dtor) {
  S->exc[obj] = {ti, dtor};
  T->excObj = obj;
  unwind();
}

// ------------------------------------------------------------------ scheduling
static bool runnable(int t) {
  Thread &x = S->th[t];
  if (x.st == Thread::RUN) return true;
  if (x.st == Thread::BLOCKED) {
    Obj *o = S->mem.get(x.blockedOn);
    if (!o) return true;  // retry and fault
    uint32_t v;
    memcpy(&v, o->data + (x.blockedOn & OFF_MASK), 4);
    return v == 0;
  }
  if (x.st == Thread::JOIN) {
    for (size_t i = 1; i < S->th.size(); i++) if (S->th[i].st != Thread::DONE) return false;
    return true;
  }
  return false;
}
static void setModel(State *s, Expr *var, u128 v) {
  auto m = std::make_shared<Model>(s->path.model ? *s->path.model : Model());
  if (m->size() <= var->aux) m->resize(var->aux + 1, 0);
  (*m)[var->aux] = v;
  s->path.model = m;
}
static void applySwitch(State *s, int kind, int to, bool post) {
  int from = s->cur;
  s->sched.push_back({(uint8_t)kind, (uint8_t)from, (uint8_t)to, post, s->th[from].sync});
  Thread &ft = s->th[from], &tt = s->th[to];
  if (kind == 0) {
    s->preempts++;
    ft.por = Thread::POR_AWAY, ft.porAll = false, ft.porSince = ft.sinceSwitch;
    ft.porAcc.clear();
    s->porOn = true;
  } else if (ft.por == Thread::POR_CHECK)
    ft.por = Thread::POR_NONE;
  if (tt.por == Thread::POR_AWAY) tt.por = Thread::POR_CHECK;
  s->cur = to;
  s->th[to].sinceSwitch = 0;
  if (s->th[to].st == Thread::BLOCKED || s->th[to].st == Thread::JOIN) s->th[to].st = Thread::RUN;
}
// Switch to one of `c`, which one being a symbolic choice: every alternative
// but the last is taken by a copy of the state.
static void switchAmong(State *s, const std::vector<int> &c, int kind, bool post, const char *name) {
  if (c.size() > 1) {
    Expr *v = mkVar(std::string(name) + std::to_string(s->choiceN++), 4);
    for (size_t i = 0; i < c.size(); i++) {
      bool last = i + 1 == c.size();
      State *n = s;
      if (!last) { g_forks++; n = new State(*s); n->depth++; }
      n->path.add(mkBin(EK_EQ, v, mkConst(i, 4)));
      setModel(n, v, i);
      applySwitch(n, kind, c[i], post);
      if (!last) work.push_back(n);
    }
  } else
    applySwitch(s, kind, c[0], post);
  T = &S->th[S->cur];
}
// The current thread cannot or should not go on.
static void switchFree(bool pausing) {
  std::vector<int> c;
  for (size_t i = 0; i < S->th.size(); i++)
    if ((int)i != S->cur && runnable(i)) c.push_back(i);
  if (pausing) {
    // fairness: prefer threads that have not themselves paused since
    std::vector<int> d;
    for (int i : c) if (!S->th[i].paused) d.push_back(i);
    if (d.empty()) { for (auto &t : S->th) t.paused = false; T->paused = true; d = c; }
    c = d;
  }
  if (c.empty()) {
    if (T->st == Thread::RUN) return;
    if (runnable(S->cur)) { T->st = Thread::RUN; return; }
    std::string who;
    for (size_t i = 0; i < S->th.size(); i++)
      if (S->th[i].st != Thread::DONE) who += " thread" + std::to_string(i) + (S->th[i].st == Thread::BLOCKED ? "(lock)" : "(join)");
    fail("deadlock", "deadlock", "no thread can continue:" + who);
    return;
  }
  switchAmong(S, c, 1, false, "next.");
}
// A scheduling point.  Returns true when another thread now runs.
// debugging aid
static void onSegv(int) { fprintf(stderr, "crash at %s\n", stackStr().c_str()); _exit(139); }
static bool schedPoint(bool post) {
  if (!S->mt || S->noPreempt) return false;
  if (T->por == Thread::POR_CHECK) {
    if (T->porSince + T->sinceSwitch < O.spinSync && O.por) { g_pruned++; dead = true; return true; }
    T->por = Thread::POR_NONE;
  }
  std::vector<int> others;
  for (size_t i = 0; i < S->th.size(); i++) if ((int)i != S->cur && S->th[i].st != Thread::JOIN && runnable(i)) others.push_back(i);
  if (others.empty()) return false;
  if (!post && ++T->sinceSwitch > O.spinSync) {
    int to = others[0];
    for (int o : others) if (o > S->cur) { to = o; break; }
    applySwitch(S, 2, to, post);
    T = &S->th[S->cur];
    return true;
  }
  if (S->preempts >= O.preempt) return false;
  uint64_t n = ++S->step;
  // the k-th preemption happens at global step preempt_at.k
  Expr *pv = mkVar("preempt_at." + std::to_string(S->preempts), 16);
  if (S->preempts > 0 && n == 0) return false;
  Expr *here = mkBin(EK_EQ, pv, mkConst(n, 16)), *later = mkBin(EK_ULT, mkConst(n, 16), pv);
  int d = decide(here);
  if (d == 0) return false;
  if (d == 1) { switchAmong(S, others, 0, post, "target."); return true; }
  auto om = otherModel;
  bool side = modelSide;
  State *o = forkState();
  // only lower bounds were ever asserted about pv, so a large value satisfies
  // them and `later`
  assume(o, here, side ? nullptr : om);
  setModel(S, pv, 0xffff);
  assume(S, later, nullptr);
  // the copy is preempted here, once per possible target
  switchAmong(o, others, 0, post, "target.");
  work.push_back(o);
  return false;
}
// Point before a synchronising instruction that accesses address a.
static bool syncPre(uint64_t a, bool force) {
  if (T->skipPre) return false;
  T->skipPre = true;
  T->sync++;
  if (!S->mt) return false;
  if (!force) {
    Obj *o = S->mem.get(a);
    if (o && !o->shared) return false;
  }
  return schedPoint(false);
}
// Point after a synchronising instruction, taken just before the first later
// access to memory another thread may see.
static inline bool lazyPostPoint(Obj *o) {
  if (!T->lazyPost || !o->shared) return false;
  T->lazyPost = false;
  return schedPoint(true);
}

// ------------------------------------------------------------------ floats
static double bitsD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float bitsF(uint64_t v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static uint64_t dBits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fBits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static double fmathD(int k, double a, double b, double c) {
  switch (k) {
    case 0: return std::fabs(a); case 1: return std::floor(a); case 2: return std::ceil(a); case 3: return std::sqrt(a);
    case 4: return std::pow(a, b); case 5: return std::log(a); case 6: return std::exp(a); case 7: return std::trunc(a);
    case 8: return std::round(a); case 9: return std::rint(a); case 10: return a * b + c; case 11: return std::fma(a, b, c);
    case 12: return std::log2(a); case 13: return std::fmax(a, b); case 14: return std::fmin(a, b);
    case 15: return std::pow(a, (double)(int)b); case 16: return std::exp2(a); case 17: return std::log10(a); default: return std::copysign(a, b);
  }
}
static bool fcmp(int p, double a, double b) {
  bool u = std::isnan(a) || std::isnan(b);
  bool r = false;
  if (p & 1) r |= a == b;
  if (p & 2) r |= a > b;
  if (p & 4) r |= a < b;
  if (p & 8) r |= u;
  return r;
}

static std::string readCStr(uint64_t a) {
  std::string s;
  Obj *o = S->mem.get(a);
  if (!o) return s;
  for (uint64_t off = a & OFF_MASK; off < o->size && o->data[off]; off++) s += (char)o->data[off];
  return s;
}
static int labelOf(const std::string &s) {
  auto it = g_labelIdx.find(s);
  if (it != g_labelIdx.end()) return it->second;
  g_labels.push_back(s);
  return g_labelIdx[s] = g_labels.size() - 1;
}

static const char *stdExc[] = {"_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument",
  "_ZTISt9bad_alloc", "_ZTISt17bad_function_call", "_ZTISt8bad_cast", "_ZTISt13runtime_error", "_ZTISt19bad_optional_access"};

#include "interp.inc"
