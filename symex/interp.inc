// The interpreter loop; included by exec.cpp.

static EK ekOf(int op) {
  switch (op) {
    case OP_ADD: return EK_ADD; case OP_SUB: return EK_SUB; case OP_MUL: return EK_MUL; case OP_UDIV: return EK_UDIV;
    case OP_SDIV: return EK_SDIV; case OP_UREM: return EK_UREM; case OP_SREM: return EK_SREM; case OP_SHL: return EK_SHL;
    case OP_LSHR: return EK_LSHR; case OP_ASHR: return EK_ASHR; case OP_AND: return EK_AND; case OP_OR: return EK_OR;
    case OP_XOR: return EK_XOR; case OP_FADD: return EK_FADD; case OP_FSUB: return EK_FSUB; case OP_FMUL: return EK_FMUL;
    default: return EK_FDIV;
  }
}
static Expr *cmpExpr(int op, Expr *a, Expr *b) {
  switch (op) {
    case OP_EQ: return mkBin(EK_EQ, a, b);
    case OP_NE: return mkNot(mkBin(EK_EQ, a, b));
    case OP_ULT: return mkBin(EK_ULT, a, b);
    case OP_ULE: return mkBin(EK_ULE, a, b);
    case OP_UGT: return mkBin(EK_ULT, b, a);
    case OP_UGE: return mkBin(EK_ULE, b, a);
    case OP_SLT: return mkBin(EK_SLT, a, b);
    case OP_SLE: return mkBin(EK_SLE, a, b);
    case OP_SGT: return mkBin(EK_SLT, b, a);
    default: return mkBin(EK_SLE, b, a);
  }
}
static Expr *fcmpExpr(int p, Expr *a, Expr *b) {
  Expr *r = mkConst(0, 1);
  if (p & 1) r = mkBin(EK_OR, r, mkBin(EK_FOEQ, a, b));
  if (p & 2) r = mkBin(EK_OR, r, mkBin(EK_FOLT, b, a));
  if (p & 4) r = mkBin(EK_OR, r, mkBin(EK_FOLT, a, b));
  if (p & 8) r = mkBin(EK_OR, r, mkBin(EK_FUNO, a, b));
  return r;
}

// load from a symbolic address; returns false when the path ended
static bool symLoad(Val av, unsigned w, Val &out, bool &again) {
  again = false;
  unsigned n = (w + 7) / 8;
  av.e = S->path.simp(av.e);
  if (isConst(av.e)) { again = true; return true; }
  uint64_t a0 = (uint64_t)evalExpr(av.e, S->path.model ? *S->path.model : emptyModel);
  Obj *o = S->mem.get(a0);
  if (!o) {
    // this model's address is invalid: a violation with this model
    check(a0, n, false, "read");
    return false;
  }
  uint64_t base = a0 & ~OFF_MASK;
  Expr *off = mkBin(EK_SUB, av.e, mkConst(base, 64));
  Expr *in = o->size >= n ? mkBin(EK_ULE, off, mkConst(o->size - n, 64)) : mkConst(0, 1);
  State *other;
  bool side = branch(in, other);
  if (dead) { delete other; return false; }
  if (other) work.push_back(other);  // re-executes with the rest of the addresses
  if (!side) {
    // out of bounds of this object under the current model
    uint64_t a1 = (uint64_t)evalExpr(av.e, S->path.model ? *S->path.model : emptyModel);
    check(a1, n, false, "read");
    if (!dead) again = true;
    return false;
  }
  uint64_t o0 = (uint64_t)evalExpr(off, S->path.model ? *S->path.model : emptyModel);
  porAcc(o, base, o->size, false);
  // small objects: fork on the address; tables: one value for all of them
  if (o->size > 65536 || o->size / n < 200) { again = true; return true; }
  // alignment of the offset
  Expr *al = n > 1 ? mkBin(EK_EQ, mkBin(EK_UREM, off, mkConst(n, 64)), mkConst(o0 % n, 64)) : mkConst(1, 1);
  std::shared_ptr<const Model> m;
  if (solve(S->path, S->path.simp(mkNot(al)), m) != R_UNSAT) { again = true; return true; }  // caller concretizes
  std::map<std::pair<uint64_t, Expr *>, std::vector<uint64_t>> groups;
  uint64_t obase = base;
  for (uint64_t k = o0 % n; k + n <= o->size; k += n) {
    o = S->mem.get(obase);
    // skip offsets that hold uninitialised bytes unless feasible
    bool un = false;
    if (o->anySym) for (unsigned i = 0; i < n; i++) if (o->st[k + i] == 2) un = true;
    if (un || o->size > 512) {
      std::shared_ptr<const Model> m2;
      Expr *at = S->path.simp(mkBin(EK_EQ, off, mkConst(k, 64)));
      if (solve(S->path, at, m2) == R_UNSAT) continue;
    }
    Val v;
    loadObj(o, obase + k, k, w, v);
    groups[{v.c, v.e}].push_back(k);
  }
  if (groups.empty()) { again = true; return true; }
  auto best = groups.begin();
  for (auto it = groups.begin(); it != groups.end(); ++it) if (it->second.size() > best->second.size()) best = it;
  Expr *r = toExpr({best->first.first, best->first.second}, w);
  for (auto it = groups.begin(); it != groups.end(); ++it) {
    if (it == best) continue;
    Expr *c = mkConst(0, 1);
    for (uint64_t k : it->second) c = mkBin(EK_OR, c, mkBin(EK_EQ, off, mkConst(k, 64)));
    r = mkIte(c, toExpr({it->first.first, it->first.second}, w), r);
  }
  out = w <= 64 ? fromExpr(r) : Val{0, r};
  return true;
}

static void endPath() {
  g_paths++;
  if (S->insts > g_maxPathInst) g_maxPathInst = S->insts;
  for (int l : S->reach) g_reach[g_labels[l]]++;
  // reservoir of completed paths for replay against the native build
  static uint64_t rng = O.seed * 0x9e3779b97f4a7c15ULL + 1;
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  bool take = (int)g_samples.size() < O.samples;
  size_t at = g_samples.size();
  if (!take && O.samples > 0 && rng % g_paths < (uint64_t)O.samples) { take = true; at = rng / 7919 % O.samples; }
  if (take && O.samples > 0) {
    Sample s;
    fillInputs(S, s.inputs, s.widths);
    s.sched = S->sched;
    for (auto &v : S->emits) s.emits.push_back(v.e ? evalExpr(v.e, S->path.model ? *S->path.model : emptyModel) : v.c);
    s.insts = S->insts;
    s.constraints = 0;
    for (auto &g : S->path.groups) {
      s.constraints += g->cs.size();
      for (auto *e : g->cs) if (s.pathCond.size() < 600) s.pathCond += exprStr(e, 5) + " ";
    }
    if (at == g_samples.size()) g_samples.push_back(s);
    else g_samples[at] = s;
  }
}

// returns: 0 continue (pc advanced by caller), 1 reload without advancing
enum CallRes { C_NEXT, C_RELOAD, C_DEAD };

static void runDtorCall(uint64_t fn, std::vector<Val> args) {
  auto it = P.funcByAddr.find(fn);
  if (it == P.funcByAddr.end() || P.funcs[it->second].isDecl) return;
  pushFrame(it->second, -1);
  T->fr.back().special = 1;
  for (size_t i = 0; i < args.size() && (int)i < P.funcs[it->second].nargs; i++) regs()[i] = args[i];
}

static CallRes lockOp(uint64_t a, bool tryOnly, CallInfo &ci, bool ret) {
  Obj *o = check(a, 4, true, "lock");
  if (!o) return C_DEAD;
  if (syncPre(a, false)) return dead ? C_DEAD : C_RELOAD;
  o = S->mem.get(a);
  if (!o) { check(a, 4, true, "lock"); return C_DEAD; }
  uint64_t off = a & OFF_MASK;
  Val v;
  loadObj(o, a, off, 32, v);
  uint64_t cur = concretize(v, 32);
  if (dead) return C_DEAD;
  o = S->mem.get(a);
  porAcc(o, a, 4, true);
  if (cur != 0) {
    if (tryOnly) {
      if (ret) regs()[ci.dst] = {0, nullptr};
      T->skipPre = false; T->lazyPost = S->mt;
      return C_NEXT;
    }
    T->st = Thread::BLOCKED;
    T->blockedOn = a;
    switchFree(false);
    return dead ? C_DEAD : C_RELOAD;
  }
  o = S->mem.wget(a);
  storeObj(o, off, 32, {(uint64_t)S->cur + 1, nullptr});
  if (ret) regs()[ci.dst] = {tryOnly ? 1ull : 0ull, nullptr};
  T->skipPre = false; T->lazyPost = S->mt;
  T->paused = false;
  return C_NEXT;
}

static CallRes builtin(int id, int aux, CallInfo &ci, int callee) {
  auto argc = [&](size_t i) { return rdConc(ci.args[i], ci.widths[i]); };
  auto setRet = [&](uint64_t v) { if (ci.nret && ci.dst >= 0) regs()[ci.dst] = {v, nullptr}; };
  switch (id) {
    case B_MALLOC: { uint64_t n = argc(0); if (dead) return C_DEAD; setRet(allocate(n, K_MALLOC)); break; }
    case B_CALLOC: { uint64_t n = argc(0), m = argc(1); if (dead) return C_DEAD; setRet(allocate(n * m, K_MALLOC, false)); break; }
    case B_REALLOC: {
      uint64_t p = argc(0), n = argc(1);
      if (dead) return C_DEAD;
      porEverything();
      uint64_t q = allocate(n, K_MALLOC);
      if (p) {
        Obj *o = S->mem.get(p);
        if (!o) { fail("memory", "use-after-free", "realloc of " + addrDesc(p)); return C_DEAD; }
        Obj *d = S->mem.wget(q);
        uint64_t k = std::min<uint64_t>(n, o->size);
        memcpy(d->data, o->data, k); memcpy(d->st, o->st, k); d->anySym = true;
        if (o->sym) { d->sym = (Expr **)calloc(d->size + 1, sizeof(Expr *)); memcpy(d->sym, o->sym, k * sizeof(Expr *)); }
        release(p, K_MALLOC);
      }
      setRet(q);
      break;
    }
    case B_NEW: case B_NEWARR: { uint64_t n = argc(0); if (dead) return C_DEAD; setRet(allocate(n, id == B_NEW ? K_NEW : K_NEWARR)); break; }
    case B_ALIGNEDALLOC: { uint64_t n = argc(1); if (dead) return C_DEAD; setRet(allocate(n, K_MALLOC)); break; }
    case B_POSIXMEMALIGN: {
      uint64_t p = argc(0), n = argc(2);
      if (dead) return C_DEAD;
      if (!check(p, 8, true, "write")) return C_DEAD;
      uint64_t q = allocate(n, K_MALLOC);
      storeObj(S->mem.wget(p), p & OFF_MASK, 64, {q, nullptr});
      setRet(0);
      break;
    }
    case B_FREE: { uint64_t p = argc(0); if (!dead) release(p, K_MALLOC); break; }
    case B_DEL: { uint64_t p = argc(0); if (!dead) release(p, K_NEW); break; }
    case B_DELARR: { uint64_t p = argc(0); if (!dead) release(p, K_NEWARR); break; }
    case B_DELSZ: { uint64_t p = argc(0), n = argc(1); if (!dead) release(p, K_NEW, n); break; }
    case B_DELARRSZ: { uint64_t p = argc(0), n = argc(1); if (!dead) release(p, K_NEWARR, n); break; }
    case B_MEMMOVE: {
      uint64_t d = argc(0), s = argc(1), n = argc(2);
      if (dead) return C_DEAD;
      setRet(d);
      if (!n) break;
      Obj *so = check(s, n, false, "read");
      if (!so) return C_DEAD;
      Obj *dobj = check(d, n, true, "write");
      if (!dobj) return C_DEAD;
      if (S->mt && (lazyPostPoint(dobj) || lazyPostPoint(so))) return dead ? C_DEAD : C_RELOAD;
      porAcc(dobj, d, n, true); porAcc(so, s, n, false);
      uint64_t so_ = s & OFF_MASK, do_ = d & OFF_MASK;
      dobj = S->mem.wget(d);
      so = S->mem.get(s);
      if (so->anySym || dobj->anySym) {
        if (so->sym && !dobj->sym) dobj->sym = (Expr **)calloc(dobj->size + 1, sizeof(Expr *));
        if (so->sym) memmove(dobj->sym + do_, so->sym + so_, n * sizeof(Expr *));
        memmove(dobj->st + do_, so->st + so_, n);
        if (so->anySym) dobj->anySym = true;
      }
      memmove(dobj->data + do_, so->data + so_, n);
      if (S->mt && dobj->shared)
        for (uint64_t i = do_ & ~7ull; i + 8 <= dobj->size && i < do_ + n; i += 8) {
          uint64_t v;
          memcpy(&v, dobj->data + i, 8);
          if (isObjAddr(v & ~7ull)) { publish(v & ~7ull); dobj = S->mem.get(d); }
        }
      break;
    }
    case B_MEMSET: {
      uint64_t d = argc(0), n = argc(2);
      Val v = rd(ci.args[1]);
      if (dead) return C_DEAD;
      setRet(d);
      if (!n) break;
      Obj *o = check(d, n, true, "write");
      if (!o) return C_DEAD;
      if (S->mt && lazyPostPoint(o)) return dead ? C_DEAD : C_RELOAD;
      porAcc(o, d, n, true);
      o = S->mem.wget(d);
      uint64_t off = d & OFF_MASK;
      if (!v.e) {
        memset(o->data + off, (int)v.c, n);
        if (o->anySym) memset(o->st + off, 0, n);
      } else {
        Expr *b = mkExtract(v.e, 0, 8);
        for (uint64_t i = 0; i < n; i++) storeObj(o, off + i, 8, fromExpr(b));
      }
      break;
    }
    case B_MEMCMP: {
      uint64_t a = argc(0), b = argc(1), n = argc(2);
      if (dead) return C_DEAD;
      if (!n) { setRet(0); break; }
      Obj *oa = check(a, n, false, "read");
      if (!oa) return C_DEAD;
      Obj *ob = check(b, n, false, "read");
      if (!ob) return C_DEAD;
      porAcc(oa, a, n, false); porAcc(ob, b, n, false);
      Expr *r = mkConst(0, 32);
      for (uint64_t i = n; i-- > 0;) {
        Val x, y;
        oa = S->mem.get(a);
        loadObj(oa, a, (a & OFF_MASK) + i, 8, x);
        ob = S->mem.get(b);
        loadObj(ob, b, (b & OFF_MASK) + i, 8, y);
        Expr *ex = toExpr(x, 8), *ey = toExpr(y, 8);
        r = mkIte(mkBin(EK_EQ, ex, ey), r, mkIte(mkBin(EK_ULT, ex, ey), mkConst(0xffffffff, 32), mkConst(1, 32)));
      }
      regs()[ci.dst] = fromExpr(r);
      break;
    }
    case B_ABORT: fail("abort", "abort", "abort() called"); return C_DEAD;
    case B_TERMINATE: fail("abort", "terminate", "std::terminate() called"); return C_DEAD;
    case B_ASSERTFAIL: {
      Val v = rd(ci.args[0]);
      fail("abort", "assertion-in-code", "assertion failed: " + (v.e ? std::string("?") : readCStr(v.c)));
      return C_DEAD;
    }
    case B_EXIT: case B_STOP: g_stoppedPaths++; dead = true; return C_DEAD;
    case B_THROWSTD: {
      uint64_t obj = allocate(64, K_EXC, false);
      auto it = P.globalByName.find(stdExc[aux]);
      throwObj(obj, it == P.globalByName.end() ? 0x9000 + aux * 16 : P.globals[it->second].addr, 0);
      return dead ? C_DEAD : C_RELOAD;
    }
    case B_NOP: break;
    case B_ZERO: setRet(0); break;
    case B_ONE: setRet(1); break;
    // ---- harness interface
    case B_SYM: {
      uint64_t nm = argc(0), bits = argc(1);
      if (dead) return C_DEAD;
      std::string name = readCStr(nm) + "." + std::to_string(S->inputs.size());
      Expr *v = mkVar(name, (unsigned)bits);
      S->inputs.push_back(v);
      regs()[ci.dst] = fromExpr(mkZext(v, 64));
      break;
    }
    case B_ASSUME: {
      Val c = rd(ci.args[0]);
      if (!c.e) { if (!c.c) { g_infeasible++; dead = true; return C_DEAD; } break; }
      int d = decide(c.e);
      if (d == 0) { g_infeasible++; dead = true; return C_DEAD; }
      if (d == 2) assume(S, c.e, modelSide ? nullptr : otherModel);
      break;
    }
    case B_ASSERT: {
      g_asserts++;
      Val c = rd(ci.args[0]);
      std::string label = readCStr(rd(ci.args[1]).c);
      g_assertByLabel[label]++;
      if (!c.e) { if (!c.c) { fail("assert", label, label); return C_DEAD; } break; }
      g_assertQueries++;
      int d = decide(c.e);
      if (d == 0) { fail("assert", label, label, c.e->hasUninit); return C_DEAD; }
      if (d == 2) {
        auto save = S->path.model;
        auto om = otherModel;
        bool side = modelSide;
        if (side) S->path.model = om;
        report("assert", label, label, c.e->hasUninit);
        S->path.model = side ? save : om;
        assume(S, c.e, nullptr);
      }
      break;
    }
    case B_REACH: S->reach.insert(labelOf(readCStr(rd(ci.args[0]).c))); break;
    case B_EMIT: S->emits.push_back(rd(ci.args[0])); break;
    case B_CONFIG: setRet(O.config); break;
    case B_TID: setRet(S->cur); break;
    case B_NTHREADS: setRet(S->th.size()); break;
    case B_PREEMPTS: setRet(S->preempts); break;
    case B_STAMP: if (S->porOn && S->mt) porTouch(1, 1, true); setRet(++S->stamp); break;
    case B_LIVE: porEverything(); setRet((uint64_t)S->mem.liveHeap); break;
    case B_NATIVE: setRet(0); break;
    case B_NOPREEMPT: S->noPreempt = (int)argc(0); break;
    case B_CONCRETE: { uint64_t v = argc(0); if (dead) return C_DEAD; setRet(v); break; }
    case B_ISSYM: setRet(rd(ci.args[0]).e ? 1 : 0); break;
    case B_ITE: {
      Val c = rd(ci.args[0]), a = rd(ci.args[1]), b = rd(ci.args[2]);
      if (!c.e) regs()[ci.dst] = c.c ? a : b;
      else regs()[ci.dst] = fromExpr(mkIte(c.e, toExpr(a, 64), toExpr(b, 64)));
      break;
    }
    case B_SPAWN: {
      uint64_t fn = argc(0), arg = argc(1);
      if (dead) return C_DEAD;
      auto it = P.funcByAddr.find(fn);
      if (it == P.funcByAddr.end()) { unsupp("spawn target"); return C_DEAD; }
      if (!S->mt) { S->mt = true; publishAll(); }
      int id = S->th.size();
      int me = S->cur;
      S->th.emplace_back();
      T = &S->th[id];
      pushFrame(it->second, -1);
      if (P.funcs[it->second].nargs) regs()[0] = {arg, nullptr};
      T = &S->th[me];
      setRet(id);
      break;
    }
    case B_JOIN: {
      bool all = true;
      for (size_t i = 1; i < S->th.size(); i++) if (S->th[i].st != Thread::DONE) all = false;
      if (all) { S->mt = false; break; }
      T->st = Thread::JOIN;
      switchFree(false);
      return dead ? C_DEAD : C_RELOAD;
    }
    case B_PAUSE: case B_SCHEDYIELD: {
      setRet(0);
      if (!S->mt) break;
      if (++S->pauses > O.maxPause) { fail("nontermination", "livelock", "threads keep waiting for each other"); return C_DEAD; }
      T->paused = true;
      T->fr.back().pc++;  // calls that pause are never invokes
      if (ci.normal >= 0) { T->fr.back().pc--; takeEdge(*T, ci.normal); }
      switchFree(true);
      return dead ? C_DEAD : C_RELOAD;
    }
    case B_LOCK: case B_PTLOCK: { uint64_t a = argc(0); if (dead) return C_DEAD; return lockOp(a, false, ci, id == B_PTLOCK); }
    case B_TRYLOCK: { uint64_t a = argc(0); if (dead) return C_DEAD; return lockOp(a, true, ci, true); }
    case B_PTTRY: {
      uint64_t a = argc(0);
      if (dead) return C_DEAD;
      CallRes r = lockOp(a, true, ci, true);
      if (r == C_NEXT) regs()[ci.dst] = {regs()[ci.dst].c ? 0ull : 16ull, nullptr};
      return r;
    }
    case B_UNLOCK: case B_PTUNLOCK: {
      uint64_t a = argc(0);
      if (dead) return C_DEAD;
      Obj *o = check(a, 4, true, "unlock");
      if (!o) return C_DEAD;
      if (syncPre(a, false)) return dead ? C_DEAD : C_RELOAD;
      o = check(a, 4, true, "unlock");
      if (!o) return C_DEAD;
      Val v;
      loadObj(o, a, a & OFF_MASK, 32, v);
      if (!v.e && v.c != (uint64_t)S->cur + 1) {
        fail("lock", v.c ? "unlock-not-owner" : "unlock-not-locked", "unlock of a lock the thread does not hold");
        return C_DEAD;
      }
      o = S->mem.wget(a);
      porAcc(o, a, 4, true);
      storeObj(o, a & OFF_MASK, 32, {0, nullptr});
      T->skipPre = false; T->lazyPost = S->mt; T->paused = false;
      setRet(0);
      break;
    }
    // ---- C++ runtime
    case B_CXAALLOC: { uint64_t n = argc(0); setRet(allocate(n ? n : 1, K_EXC, true)); break; }
    case B_CXAFREE: { uint64_t a = argc(0); if (S->mem.get(a)) S->mem.release(a); break; }
    case B_CXATHROW: { uint64_t o = argc(0), ti = argc(1), d = argc(2); throwObj(o, ti, d); return dead ? C_DEAD : C_RELOAD; }
    case B_CXABEGIN: { uint64_t o = argc(0); T->caught.push_back({o, 1}); setRet(o); break; }
    case B_CXAGETPTR: { setRet(argc(0)); break; }
    case B_CXAEND: {
      if (T->caught.empty()) { unsupp("end_catch"); return C_DEAD; }
      Caught c = T->caught.back();
      T->caught.pop_back();
      if (c.handlers < 0) break;
      ExcInfo ei = S->exc[c.obj];
      S->exc.erase(c.obj);
      // the object itself is left to the destructor call below
      if (ei.dtor) {
        auto it = P.funcByAddr.find(ei.dtor);
        if (it != P.funcByAddr.end() && !P.funcs[it->second].isDecl) {
          if (ci.normal >= 0) takeEdge(*T, ci.normal);
          else T->fr.back().pc++;
          runDtorCall(ei.dtor, {{c.obj, nullptr}});
          return dead ? C_DEAD : C_RELOAD;
        }
      }
      break;
    }
    case B_CXARETHROW: {
      if (T->caught.empty()) { fail("abort", "terminate", "rethrow without exception"); return C_DEAD; }
      T->caught.back().handlers = -1;
      T->excObj = T->caught.back().obj;
      unwind();
      return dead ? C_DEAD : C_RELOAD;
    }
    case B_ATEXIT: setRet(0); break;
    case B_TATEXIT: { uint64_t f = argc(0), a = argc(1); T->dtors.push_back({f, a}); setRet(0); break; }
    case B_GUARDACQ: {
      uint64_t a = argc(0);
      Obj *o = check(a, 2, true, "guard");
      if (!o) return C_DEAD;
      porEverything();
      uint64_t off = a & OFF_MASK;
      if (o->data[off]) { setRet(0); break; }
      if (o->data[off + 1]) { switchFree(true); return dead ? C_DEAD : C_RELOAD; }
      S->mem.wget(a)->data[off + 1] = 1;
      setRet(1);
      break;
    }
    case B_GUARDREL: {
      uint64_t a = argc(0);
      if (!check(a, 2, true, "guard")) return C_DEAD;
      porEverything();
      Obj *o = S->mem.wget(a);
      o->data[a & OFF_MASK] = 1;
      o->data[(a & OFF_MASK) + 1] = 0;
      break;
    }
    case B_FMATH1: case B_FMATH2: {
      uint64_t a = argc(0), b = id == B_FMATH2 ? argc(1) : 0;
      if (dead) return C_DEAD;
      setRet(dBits(fmathD(aux, bitsD(a), bitsD(b), 0)));
      break;
    }
    default: unsupp("external function " + P.funcs[callee].pretty); return C_DEAD;
  }
  return dead ? C_DEAD : C_NEXT;
}

static void slowBin(Inst &in, Val a, Val b) {
  unsigned w = in.w;
  Expr *ea = toExpr(a, w), *eb = toExpr(b, w);
  if (in.op >= OP_UDIV && in.op <= OP_SREM) {
    Expr *z = mkBin(EK_EQ, eb, mkConst(0, w));
    State *o;
    bool zero = branch(z, o);
    if (dead) { delete o; return; }
    if (o) work.push_back(o);
    if (zero) { fail("arith", "division-by-zero", "division by zero"); return; }
  }
  Expr *r = mkBin(ekOf(in.op), ea, eb);
  regs()[in.dst] = w <= 64 ? fromExpr(r) : Val{0, r};
}

static void runPath() {
  uint64_t tick = 0;
reload:
  if (dead) return;
  if (T->fr.empty()) {
    // thread finished: thread-exit destructors, last registered first
    if (S->cur != 0 && !T->dtors.empty()) {
      auto d = T->dtors.back();
      T->dtors.pop_back();
      runDtorCall(d.first, {{d.second, nullptr}});
      goto reload;
    }
    if (S->cur == 0) { endPath(); return; }
    T->st = Thread::DONE;
    switchFree(false);
    goto reload;
  }
  {
    Frame *f = &T->fr.back();
    Inst *code = P.funcs[f->func].code.data();
    Val *R = &T->regs[f->base];
    const Val *K = P.consts.data();
#define V(o) ((o) >= 0 ? R[o] : K[~(o)])
#define RELOAD goto reload
#define REFRESH (R = &T->regs[f->base])
    for (;;) {
      Inst &in = code[f->pc];
      if ((++tick & 0xfff) == 0) {
        S->insts += 0x1000; g_insts += 0x1000;
        if (S->insts > O.maxInst) { fail("nontermination", "nontermination", "no end after " + std::to_string(S->insts) + " instructions"); return; }
        if ((tick & 0xfffff) == 0 && elapsed() > O.timeLimit) { g_complete = false; g_lost++; dead = true; return; }
      }
      switch (in.op) {
#define BINOP(OPN, EXPR) case OPN: { Val a = V(in.a), b = V(in.b); if (!a.e && !b.e) { R[in.dst] = {(EXPR) & mask64(in.w), nullptr}; f->pc++; continue; } slowBin(in, a, b); if (dead) return; REFRESH; f->pc++; continue; }
        BINOP(OP_ADD, a.c + b.c)
        BINOP(OP_SUB, a.c - b.c)
        BINOP(OP_MUL, a.c * b.c)
        BINOP(OP_AND, a.c & b.c)
        BINOP(OP_OR, a.c | b.c)
        BINOP(OP_XOR, a.c ^ b.c)
        BINOP(OP_SHL, b.c >= in.w ? 0 : a.c << b.c)
        BINOP(OP_LSHR, b.c >= in.w ? 0 : a.c >> b.c)
        BINOP(OP_ASHR, (uint64_t)(sx64(a.c, in.w) >> (b.c >= in.w ? in.w - 1 : b.c)))
        case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM: {
          Val a = V(in.a), b = V(in.b);
          if (!a.e && !b.e && b.c) { R[in.dst] = {(uint64_t)evalBin(ekOf(in.op), a.c, b.c, in.w), nullptr}; f->pc++; continue; }
          slowBin(in, a, b);
          if (dead) return;
          REFRESH;
          f->pc++;
          continue;
        }
#define CMPOP(OPN, EXPR) case OPN: { Val a = V(in.a), b = V(in.b); if (!a.e && !b.e) R[in.dst] = {(uint64_t)(EXPR), nullptr}; else R[in.dst] = fromExpr(cmpExpr(in.op, toExpr(a, in.w), toExpr(b, in.w))); f->pc++; continue; }
        CMPOP(OP_EQ, a.c == b.c)
        CMPOP(OP_NE, a.c != b.c)
        CMPOP(OP_ULT, a.c < b.c)
        CMPOP(OP_ULE, a.c <= b.c)
        CMPOP(OP_UGT, a.c > b.c)
        CMPOP(OP_UGE, a.c >= b.c)
        CMPOP(OP_SLT, sx64(a.c, in.w) < sx64(b.c, in.w))
        CMPOP(OP_SLE, sx64(a.c, in.w) <= sx64(b.c, in.w))
        CMPOP(OP_SGT, sx64(a.c, in.w) > sx64(b.c, in.w))
        CMPOP(OP_SGE, sx64(a.c, in.w) >= sx64(b.c, in.w))
        case OP_SELECT: {
          Val c = V(in.a);
          if (!c.e) R[in.dst] = c.c ? V(in.b) : V(in.c);
          else if ((in.flags & IF_FORKSEL) && !c.e->hasUninit) {
            State *other;
            bool side = branch(c.e, other);
            if (dead) { delete other; return; }
            if (other) {
              Thread &ot = other->th[other->cur];
              ot.regs[ot.fr.back().base + in.dst] = V(side ? in.c : in.b);
              ot.fr.back().pc++;
              work.push_back(other);
            }
            R[in.dst] = V(side ? in.b : in.c);
          } else {
            Val a = V(in.b), b = V(in.c);
            Expr *r = mkIte(c.e, toExpr(a, in.w), toExpr(b, in.w));
            R[in.dst] = in.w <= 64 ? fromExpr(r) : Val{0, r};
          }
          f->pc++;
          continue;
        }
        case OP_TRUNC: {
          Val a = V(in.a);
          R[in.dst] = a.e ? (in.w2 <= 64 ? fromExpr(mkExtract(a.e, 0, in.w2)) : Val{0, mkExtract(a.e, 0, in.w2)}) : Val{a.c & mask64(in.w2), nullptr};
          f->pc++;
          continue;
        }
        case OP_ZEXT: {
          Val a = V(in.a);
          if (!a.e && in.w2 <= 64) R[in.dst] = a;
          else { Expr *r = mkZext(toExpr(a, in.w), in.w2); R[in.dst] = in.w2 <= 64 ? fromExpr(r) : Val{0, r}; }
          f->pc++;
          continue;
        }
        case OP_SEXT: {
          Val a = V(in.a);
          if (!a.e && in.w2 <= 64) R[in.dst] = {(uint64_t)sx64(a.c, in.w) & mask64(in.w2), nullptr};
          else { Expr *r = mkSext(toExpr(a, in.w), in.w2); R[in.dst] = in.w2 <= 64 ? fromExpr(r) : Val{0, r}; }
          f->pc++;
          continue;
        }
        case OP_COPY: case OP_FREEZE: R[in.dst] = V(in.a); f->pc++; continue;
        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: {
          Val a = V(in.a), b = V(in.b);
          if (!a.e && !b.e) R[in.dst] = {(uint64_t)evalBin(ekOf(in.op), a.c, b.c, in.w), nullptr};
          else R[in.dst] = fromExpr(mkBin(ekOf(in.op), toExpr(a, in.w), toExpr(b, in.w)));
          f->pc++;
          continue;
        }
        case OP_FREM: {
          uint64_t a = rdConc(in.a, in.w), b = rdConc(in.b, in.w);
          if (dead) return;
          R[in.dst] = {in.w == 64 ? dBits(std::fmod(bitsD(a), bitsD(b))) : fBits(std::fmod(bitsF(a), bitsF(b))), nullptr};
          f->pc++;
          continue;
        }
        case OP_FNEG: {
          Val a = V(in.a);
          if (!a.e) R[in.dst] = {a.c ^ (1ull << (in.w - 1)), nullptr};
          else R[in.dst] = fromExpr(mkUn(EK_FNEG, a.e));
          f->pc++;
          continue;
        }
        case OP_FCMP: {
          Val a = V(in.a), b = V(in.b);
          if (!a.e && !b.e) {
            double x = in.w == 64 ? bitsD(a.c) : bitsF(a.c), y = in.w == 64 ? bitsD(b.c) : bitsF(b.c);
            R[in.dst] = {fcmp(in.w2, x, y), nullptr};
          } else
            R[in.dst] = fromExpr(fcmpExpr(in.w2, toExpr(a, in.w), toExpr(b, in.w)));
          f->pc++;
          continue;
        }
        case OP_UI2F: case OP_SI2F: case OP_F2UI: case OP_F2SI: case OP_FPEXT: case OP_FPTRUNC: {
          Val a = V(in.a);
          EK k = in.op == OP_UI2F ? EK_UI2F : in.op == OP_SI2F ? EK_SI2F : in.op == OP_F2UI ? EK_F2UI : in.op == OP_F2SI ? EK_F2SI : in.op == OP_FPEXT ? EK_FPEXT : EK_FPTRUNC;
          if (!a.e && in.w <= 64) {
            if (in.op == OP_UI2F) R[in.dst] = {in.w2 == 64 ? dBits((double)a.c) : fBits((float)a.c), nullptr};
            else if (in.op == OP_SI2F) R[in.dst] = {in.w2 == 64 ? dBits((double)sx64(a.c, in.w)) : fBits((float)sx64(a.c, in.w)), nullptr};
            else R[in.dst] = fromExpr(mkCast(k, mkConst(a.c, in.w), in.w2));
          } else { Expr *r = mkCast(k, toExpr(a, in.w), in.w2); R[in.dst] = in.w2 <= 64 ? fromExpr(r) : Val{0, r}; }
          f->pc++;
          continue;
        }
        case OP_FMATH: {
          Val av = V(in.a);
          if (av.e && (in.x == 1 || in.x == 3)) {
            R[in.dst] = fromExpr(mkUn(in.x == 1 ? EK_FFLOOR : EK_FSQRT, av.e));
            f->pc++;
            continue;
          }
          if (in.x == 10) {
            Val bv = V(in.b), cv = V(in.c);
            if (av.e || bv.e || cv.e) {
              R[in.dst] = fromExpr(mkBin(EK_FADD, mkBin(EK_FMUL, toExpr(av, in.w), toExpr(bv, in.w)), toExpr(cv, in.w)));
              f->pc++;
              continue;
            }
          }
          if (av.e && in.x == 0) { R[in.dst] = fromExpr(mkBin(EK_AND, av.e, mkConst(maskw(in.w) >> 1, in.w))); f->pc++; continue; }
          uint64_t a = rdConc(in.a, in.w), b = rdConc(in.b, in.w), c = rdConc(in.c, in.w);
          if (dead) return;
          if (in.w == 64) R[in.dst] = {dBits(fmathD(in.x, bitsD(a), in.x == 15 ? (double)(int32_t)b : bitsD(b), bitsD(c))), nullptr};
          else R[in.dst] = {fBits((float)fmathD(in.x, bitsF(a), in.x == 15 ? (double)(int32_t)b : bitsF(b), bitsF(c))), nullptr};
          f->pc++;
          continue;
        }
        case OP_ALLOCA: {
          uint64_t n = rdConc(in.a, 64);
          if (dead) return;
          uint64_t a = S->mem.alloc((uint32_t)(n * (uint32_t)in.x), K_STACK, true);
          T->allocs.push_back(a);
          R[in.dst] = {a, nullptr};
          f->pc++;
          continue;
        }
        case OP_OFFSET: {
          Val a = V(in.a);
          if (!a.e) R[in.dst] = {a.c + K[~in.b].c, nullptr};
          else R[in.dst] = fromExpr(mkBin(EK_ADD, a.e, mkConst(K[~in.b].c, 64)));
          f->pc++;
          continue;
        }
        case OP_GEP: {
          Val a = V(in.a), b = V(in.b);
          uint64_t k = V(in.c).c;
          if (!a.e && !b.e) R[in.dst] = {a.c + (uint64_t)sx64(b.c, in.w) * (uint64_t)(int64_t)in.x + k, nullptr};
          else {
            Expr *e = b.e ? mkBin(EK_MUL, mkSext(b.e, 64), mkConst((uint64_t)(int64_t)in.x, 64)) : mkConst((uint64_t)sx64(b.c, in.w) * (uint64_t)(int64_t)in.x, 64);
            e = mkBin(EK_ADD, e, mkConst(k, 64));
            R[in.dst] = fromExpr(mkBin(EK_ADD, toExpr(a, 64), e));
          }
          f->pc++;
          continue;
        }
        case OP_LOAD: {
          Val a = V(in.a);
          if (a.e) {
            if (in.flags & IF_SYNC) { if (syncPre(0, true)) RELOAD; }
            Val out;
            bool again;
            bool ok = symLoad(a, in.w, out, again);
            if (dead) return;
            if (!ok) RELOAD;
            if (again) {
              uint64_t c = rdConc(in.a, 64);
              (void)c;
              if (dead) return;
              RELOAD;  // now concrete (or constant operand)
            }
            REFRESH;
            R[in.dst] = out;
            if (in.flags & IF_SYNC) { T->skipPre = false; T->lazyPost = S->mt; }
            f->pc++;
            continue;
          }
          if (in.flags & IF_SYNC) { if (syncPre(a.c, false)) RELOAD; }
          unsigned n = (in.w + 7) / 8;
          Obj *o = S->mem.get(a.c);
          uint64_t off = a.c & OFF_MASK;
          if (!o || off + n > o->size) { check(a.c, n, false, "read"); return; }
          if (S->mt && !(in.flags & IF_SYNC) && T->lazyPost && lazyPostPoint(o)) RELOAD;
          porAcc(o, a.c, n, false);
          loadObj(o, a.c, off, in.w, R[in.dst]);
          if (in.flags & IF_SYNC) { T->skipPre = false; T->lazyPost = S->mt; }
          f->pc++;
          continue;
        }
        case OP_STORE: {
          Val av = V(in.b);
          uint64_t a = av.c;
          if (av.e) { a = rdConc(in.b, 64); if (dead) return; REFRESH; }
          if (in.flags & IF_SYNC) { if (syncPre(a, false)) RELOAD; }
          unsigned n = (in.w + 7) / 8;
          Obj *o = S->mem.get(a);
          uint64_t off = a & OFF_MASK;
          if (!o || off + n > o->size || o->readonly) { check(a, n, true, "write"); return; }
          if (S->mt && !(in.flags & IF_SYNC) && T->lazyPost && lazyPostPoint(o)) RELOAD;
          Val v = V(in.a);
          o = S->mem.wget(a);
          porAcc(o, a, n, true);
          storeObj(o, off, in.w, v);
          if (S->mt && o->shared) { T->paused = false; if (in.w == 64) publishVal(v); }
          if (in.flags & IF_SYNC) { T->skipPre = false; T->lazyPost = S->mt; }
          f->pc++;
          continue;
        }
        case OP_RMW: {
          uint64_t a = rdConc(in.a, 64);
          if (dead) return;
          if (syncPre(a, false)) RELOAD;
          unsigned n = (in.w + 7) / 8;
          Obj *o = check(a, n, true, "atomic update");
          if (!o) return;
          porAcc(o, a, n, true);
          Val old, v = V(in.b), nv;
          loadObj(o, a, a & OFF_MASK, in.w, old);
          Expr *eo = toExpr(old, in.w), *ev = toExpr(v, in.w), *r;
          switch (in.w2) {
            case 0: r = ev; break;
            case 1: r = mkBin(EK_ADD, eo, ev); break;
            case 2: r = mkBin(EK_SUB, eo, ev); break;
            case 3: r = mkBin(EK_AND, eo, ev); break;
            case 4: r = mkBin(EK_OR, eo, ev); break;
            case 5: r = mkBin(EK_XOR, eo, ev); break;
            case 6: r = mkIte(mkBin(EK_SLT, eo, ev), ev, eo); break;
            case 7: r = mkIte(mkBin(EK_SLT, eo, ev), eo, ev); break;
            case 8: r = mkIte(mkBin(EK_ULT, eo, ev), ev, eo); break;
            case 9: r = mkIte(mkBin(EK_ULT, eo, ev), eo, ev); break;
            default: r = mkNot(mkBin(EK_AND, eo, ev)); break;
          }
          nv = fromExpr(r);
          o = S->mem.wget(a);
          storeObj(o, a & OFF_MASK, in.w, nv);
          if (S->mt && o->shared) { T->paused = false; if (in.w == 64) publishVal(nv); }
          R[in.dst] = old;
          T->skipPre = false; T->lazyPost = S->mt;
          f->pc++;
          continue;
        }
        case OP_CMPXCHG: {
          uint64_t a = rdConc(in.a, 64);
          if (dead) return;
          if (syncPre(a, false)) RELOAD;
          unsigned n = (in.w + 7) / 8;
          Obj *o = check(a, n, true, "atomic update");
          if (!o) return;
          porAcc(o, a, n, true);
          Val old, c = V(in.b), v = V(in.c);
          loadObj(o, a, a & OFF_MASK, in.w, old);
          bool eq;
          if (!old.e && !c.e && in.w <= 64) eq = old.c == c.c;
          else {
            State *other;
            Expr *q = mkBin(EK_EQ, toExpr(old, in.w), toExpr(c, in.w));
            eq = branch(q, other);
            if (dead) { delete other; return; }
            if (other) work.push_back(other);  // re-executes, decided by its constraint
            REFRESH;
          }
          if (eq) {
            o = S->mem.wget(a);
            storeObj(o, a & OFF_MASK, in.w, v);
            if (S->mt && o->shared) { T->paused = false; if (in.w == 64) publishVal(v); }
          }
          R[in.dst] = old;
          R[in.dst + 1] = {eq, nullptr};
          T->skipPre = false; T->lazyPost = S->mt;
          f->pc++;
          continue;
        }
        case OP_FENCE: f->pc++; continue;
        case OP_BR: takeEdge(*T, in.x); continue;
        case OP_CBR: {
          Val c = V(in.a);
          if (!c.e) { takeEdge(*T, c.c ? in.x : in.b); continue; }
          State *other;
          bool side = branch(c.e, other);
          if (dead) { delete other; return; }
          if (other) {
            takeEdge(other->th[other->cur], side ? in.b : in.x);
            work.push_back(other);
          }
          takeEdge(*T, side ? in.x : in.b);
          continue;
        }
        case OP_SWITCH: {
          Val c = V(in.a);
          SwitchTab &t = P.switches[in.x];
          if (!c.e) {
            int e = t.dflt;
            for (auto &k : t.cases) if (k.first == c.c) { e = k.second; break; }
            takeEdge(*T, e);
            continue;
          }
          // group cases by target edge effect: each case edge is distinct here
          int taken = -1;
          for (auto &k : t.cases) {
            State *other;
            bool side = branch(mkBin(EK_EQ, c.e, mkConst(k.first, in.w)), other);
            if (dead) { delete other; return; }
            if (side) {
              if (other) work.push_back(other);  // re-executes the switch without this case
              taken = k.second;
              break;
            }
            if (other) { takeEdge(other->th[other->cur], k.second); work.push_back(other); }
          }
          takeEdge(*T, taken >= 0 ? taken : t.dflt);
          continue;
        }
        case OP_CALL: {
          CallInfo &ci = P.calls[in.x];
          int callee = ci.callee;
          if (callee < 0) {
            uint64_t tg = rdConc(ci.target, 64);
            if (dead) return;
            auto it = P.funcByAddr.find(tg);
            if (it == P.funcByAddr.end()) { fail("memory", "bad-call", "call through " + addrDesc(tg)); return; }
            callee = it->second;
          }
          Function &cf = P.funcs[callee];
          if (cf.isDecl) {
            CallRes r = builtin(fnBI[callee].first, fnBI[callee].second, ci, callee);
            if (r == C_DEAD || dead) return;
            if (r == C_RELOAD) RELOAD;
            f = &T->fr.back();
            if (ci.normal >= 0) takeEdge(*T, ci.normal);
            else f->pc++;
            REFRESH;
            continue;
          }
          uint32_t ob = f->base;
          pushFrame(callee, in.x);
          if (dead) return;
          uint32_t nb = T->fr.back().base;
          size_t na = std::min<size_t>(ci.args.size(), cf.nargs);
          for (size_t i = 0; i < na; i++) { int32_t o = ci.args[i]; T->regs[nb + i] = o >= 0 ? T->regs[ob + o] : K[~o]; }
          RELOAD;
        }
        case OP_RET: {
          CallInfo &rv = P.calls[in.x];
          Val tmp[16];
          size_t n = std::min<size_t>(rv.args.size(), 16);
          for (size_t i = 0; i < n; i++) tmp[i] = V(rv.args[i]);
          int call = f->call;
          bool special = f->special;
          popFrame();
          if (call >= 0 && !special) {
            CallInfo &ci = P.calls[call];
            Val *C = regs();
            for (size_t i = 0; i < n && (int)i < ci.nret; i++) C[ci.dst + i] = tmp[i];
            if (ci.normal >= 0) takeEdge(*T, ci.normal);
            else T->fr.back().pc++;
          }
          RELOAD;
        }
        case OP_LANDINGPAD: f->pc++; continue;  // registers were set by unwind()
        case OP_RESUME: {
          uint64_t o = rdConc(in.a, 64);
          if (dead) return;
          T->excObj = o;
          if (T->fr.size() == 1) { unwind(); return; }
          popFrame();
          unwind();
          RELOAD;
        }
        case OP_UNREACHABLE:
          if (in.x > 0) unsupp(P.unsupported[in.x - 1]);
          else fail("ub", "unreachable", "execution reached a point the compiler proved unreachable (undefined behaviour)");
          return;
        case OP_TLSADDR: {
          uint64_t g = V(in.a).c;
          int gi = P.globalByAddr.at(g & ~OFF_MASK);
          auto it = T->tls.find(gi);
          uint64_t a;
          if (it == T->tls.end()) {
            Global &G = P.globals[gi];
            a = S->mem.alloc((uint32_t)G.size, K_TLS, false);
            Obj *o = S->mem.wget(a);
            if (!G.init.empty()) memcpy(o->data, G.init.data(), G.init.size());
            T->tls[gi] = a;
          } else a = it->second;
          R[in.dst] = {a + (g & OFF_MASK), nullptr};
          f->pc++;
          continue;
        }
        case OP_CTPOP: case OP_CTLZ: case OP_CTTZ: case OP_BSWAP: case OP_BITREV: {
          Val a = V(in.a);
          unsigned w = in.w;
          if (!a.e && w <= 64) {
            uint64_t r = 0;
            if (in.op == OP_CTPOP) r = __builtin_popcountll(a.c);
            else if (in.op == OP_CTLZ) r = a.c ? __builtin_clzll(a.c) - (64 - w) : w;
            else if (in.op == OP_CTTZ) r = a.c ? __builtin_ctzll(a.c) : w;
            else if (in.op == OP_BSWAP) r = __builtin_bswap64(a.c) >> (64 - w);
            else for (unsigned i = 0; i < w; i++) r |= ((a.c >> i) & 1) << (w - 1 - i);
            R[in.dst] = {r, nullptr};
          } else {
            Expr *e = toExpr(a, w), *r = nullptr;
            if (in.op == OP_CTPOP) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(EK_ADD, r, mkZext(mkExtract(e, i, 1), w)); }
            else if (in.op == OP_CTLZ) { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); }
            else if (in.op == OP_CTTZ) { r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); }
            else if (in.op == OP_BSWAP) { for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } }
            else { for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } }
            R[in.dst] = w <= 64 ? fromExpr(r) : Val{0, r};
          }
          f->pc++;
          continue;
        }
        case OP_UMIN: case OP_UMAX: case OP_SMIN: case OP_SMAX: {
          Val a = V(in.a), b = V(in.b);
          unsigned w = in.w;
          if (!a.e && !b.e && w <= 64) {
            bool lt = in.op <= OP_UMAX ? a.c < b.c : sx64(a.c, w) < sx64(b.c, w);
            bool mn = in.op == OP_UMIN || in.op == OP_SMIN;
            R[in.dst] = (lt == mn) ? a : b;
          } else {
            Expr *x = toExpr(a, w), *y = toExpr(b, w);
            Expr *lt = mkBin(in.op <= OP_UMAX ? EK_ULT : EK_SLT, x, y);
            bool mn = in.op == OP_UMIN || in.op == OP_SMIN;
            Expr *r = mn ? mkIte(lt, x, y) : mkIte(lt, y, x);
            R[in.dst] = w <= 64 ? fromExpr(r) : Val{0, r};
          }
          f->pc++;
          continue;
        }
        case OP_ABS: {
          Expr *x = toExpr(V(in.a), in.w);
          Expr *r = mkIte(mkBin(EK_SLT, x, mkConst(0, in.w)), mkBin(EK_SUB, mkConst(0, in.w), x), x);
          R[in.dst] = in.w <= 64 ? fromExpr(r) : Val{0, r};
          f->pc++;
          continue;
        }
        case OP_FSHL: case OP_FSHR: {
          unsigned w = in.w;
          Expr *x = toExpr(V(in.a), w), *y = toExpr(V(in.b), w);
          Expr *s = mkBin(EK_UREM, toExpr(V(in.c), w), mkConst(w, w));
          Expr *r;
          if (w <= 64) {
            Expr *c = mkConcat(x, y);
            Expr *ss = mkZext(s, 2 * w);
            if (in.op == OP_FSHL) r = mkExtract(mkBin(EK_SHL, c, ss), w, w);
            else r = mkExtract(mkBin(EK_LSHR, c, ss), 0, w);
            R[in.dst] = fromExpr(r);
          } else {
            Expr *ws = mkBin(EK_SUB, mkConst(w, w), s);
            if (in.op == OP_FSHL) r = mkBin(EK_OR, mkBin(EK_SHL, x, s), mkBin(EK_LSHR, y, ws));
            else r = mkBin(EK_OR, mkBin(EK_SHL, x, ws), mkBin(EK_LSHR, y, s));
            R[in.dst] = {0, r};
          }
          f->pc++;
          continue;
        }
        case OP_UADDO: case OP_USUBO: case OP_UMULO: case OP_SADDO: case OP_SSUBO: case OP_SMULO: {
          unsigned w = in.w;
          Expr *x = toExpr(V(in.a), w), *y = toExpr(V(in.b), w);
          Expr *r, *o;
          if (in.op == OP_UADDO) { r = mkBin(EK_ADD, x, y); o = mkBin(EK_ULT, r, x); }
          else if (in.op == OP_USUBO) { r = mkBin(EK_SUB, x, y); o = mkBin(EK_ULT, x, y); }
          else if (w <= 64) {
            bool sg = in.op != OP_UMULO;
            Expr *X = sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), *Y = sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w);
            Expr *z = mkBin(in.op == OP_SADDO ? EK_ADD : in.op == OP_SSUBO ? EK_SUB : EK_MUL, X, Y);
            r = mkExtract(z, 0, w);
            o = mkNot(mkBin(EK_EQ, z, sg ? mkSext(r, 2 * w) : mkZext(r, 2 * w)));
          } else { unsupp("wide overflow arithmetic"); return; }
          R[in.dst] = w <= 64 ? fromExpr(r) : Val{0, r};
          R[in.dst + 1] = fromExpr(o);
          f->pc++;
          continue;
        }
        case OP_UADDSAT: case OP_USUBSAT: {
          unsigned w = in.w;
          Expr *x = toExpr(V(in.a), w), *y = toExpr(V(in.b), w);
          Expr *r = in.op == OP_UADDSAT ? mkIte(mkBin(EK_ULT, mkBin(EK_ADD, x, y), x), mkConst(maskw(w), w), mkBin(EK_ADD, x, y))
                                        : mkIte(mkBin(EK_ULT, x, y), mkConst(0, w), mkBin(EK_SUB, x, y));
          R[in.dst] = w <= 64 ? fromExpr(r) : Val{0, r};
          f->pc++;
          continue;
        }
        case OP_F2SISAT: case OP_F2UISAT: {
          uint64_t a = rdConc(in.a, in.w2);
          if (dead) return;
          double d = in.w2 == 64 ? bitsD(a) : bitsF(a);
          uint64_t r;
          if (std::isnan(d)) r = 0;
          else if (in.op == OP_F2SISAT) {
            double hi = std::ldexp(1.0, in.w - 1);
            r = d >= hi ? mask64(in.w) >> 1 : d < -hi ? 1ull << (in.w - 1) : (uint64_t)(int64_t)d & mask64(in.w);
          } else r = d <= 0 ? 0 : d >= std::ldexp(1.0, in.w) ? mask64(in.w) : (uint64_t)d;
          R[in.dst] = {r, nullptr};
          f->pc++;
          continue;
        }
        case OP_EXTRACTDYN: {
          uint64_t i = rdConc(in.b, 64);
          if (dead) return;
          REFRESH;
          R[in.dst] = R[in.a + (i < (uint64_t)in.x ? i : 0)];
          f->pc++;
          continue;
        }
        case OP_INSERTDYN: {
          uint64_t i = rdConc(in.b, 64);
          if (dead) return;
          REFRESH;
          if (i < (uint64_t)in.x) R[in.dst + i] = V(in.a);
          f->pc++;
          continue;
        }
        default:
          unsupp("operation " + std::to_string(in.op));
          return;
      }
    }
  }
}

// ------------------------------------------------------------------ output
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string u128s(u128 v) {
  char b[64];
  if (v >> 64) snprintf(b, 64, "\"0x%llx%016llx\"", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, 64, "\"0x%llx\"", (unsigned long long)v);
  return b;
}
static void wrInputs(FILE *f, const std::vector<std::pair<std::string, u128>> &in, const std::vector<unsigned> &w) {
  fprintf(f, "\"inputs\":[");
  for (size_t i = 0; i < in.size(); i++)
    fprintf(f, "%s{\"name\":%s,\"width\":%u,\"value\":%s}", i ? "," : "", js(in[i].first).c_str(), w[i], u128s(in[i].second).c_str());
  fprintf(f, "]");
}
static void wrSched(FILE *f, const std::vector<SchedEv> &s) {
  fprintf(f, "\"sched\":[");
  for (size_t i = 0; i < s.size(); i++)
    fprintf(f, "%s[%d,%d,%d,%d,%llu]", i ? "," : "", s[i].kind, s[i].from, s[i].to, (int)s[i].post, (unsigned long long)s[i].sync);
  fprintf(f, "]");
}
static void writeOut() {
  FILE *f = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
  fprintf(f, "{\"complete\":%s,\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"infeasible\":%llu,\"lost\":%llu,\"stopped\":%llu,\"pruned\":%llu,\n",
          g_complete ? "true" : "false", (unsigned long long)g_paths, (unsigned long long)g_forks, (unsigned long long)g_insts,
          (unsigned long long)g_infeasible, (unsigned long long)g_lost, (unsigned long long)g_stoppedPaths, (unsigned long long)g_pruned);
  fprintf(f, "\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"solver\":%s,\n",
          (unsigned long long)g_ss.queries, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat,
          (unsigned long long)g_ss.unknown, g_ss.time, elapsed(), js(solverVersion()).c_str());
  fprintf(f, "\"asserts\":%llu,\"symbolic_asserts\":%llu,\"max_path_instructions\":%llu,\"expressions\":%llu,\"pending\":%llu,\n", (unsigned long long)g_asserts,
          (unsigned long long)g_assertQueries, (unsigned long long)g_maxPathInst, (unsigned long long)exprCount(), (unsigned long long)work.size());
  auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) {
    fprintf(f, "\"%s\":{", n);
    bool c = false;
    for (auto &x : m) { fprintf(f, "%s%s:%llu", c ? "," : "", js(x.first).c_str(), (unsigned long long)x.second); c = true; }
    fprintf(f, "},\n");
  };
  fprintf(f, "\"decided_by_bounds\":%llu,\"audited\":%llu,\n", (unsigned long long)g_simpDecided, (unsigned long long)g_audited);
  mp("reached", g_reach);
  mp("assert_labels", g_assertByLabel);
  mp("unsupported", g_unsupp);
  std::set<int> sc;
  for (auto &fn : P.funcs) if (fn.executed) sc.insert(fn.scopes.begin(), fn.scopes.end());
  fprintf(f, "\"functions\":[");
  bool c = false;
  for (int s : sc) { fprintf(f, "%s%s", c ? "," : "", js(P.scopes[s]).c_str()); c = true; }
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < g_viol.size(); i++) {
    auto &v = g_viol[i];
    fprintf(f, "%s{\"kind\":%s,\"label\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"uninit\":%s,", i ? ",\n" : "", js(v.kind).c_str(), js(v.label).c_str(),
            js(v.msg).c_str(), js(v.loc).c_str(), js(v.stack).c_str(), v.uninit ? "true" : "false");
    wrInputs(f, v.inputs, v.widths);
    fprintf(f, ",");
    wrSched(f, v.sched);
    fprintf(f, "}");
  }
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < g_samples.size(); i++) {
    auto &s = g_samples[i];
    fprintf(f, "%s{\"path_condition\":%s,\"constraints\":%zu,\"instructions\":%llu,", i ? ",\n" : "", js(s.pathCond).c_str(), s.constraints, (unsigned long long)s.insts);
    wrInputs(f, s.inputs, s.widths);
    fprintf(f, ",");
    wrSched(f, s.sched);
    fprintf(f, ",\"emits\":[");
    for (size_t k = 0; k < s.emits.size(); k++) fprintf(f, "%s%s", k ? "," : "", u128s(s.emits[k]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
}

static int runAll() {
  initBuiltins();
  std::string err;
  if (!loadProgram(O.bc, P, O.repo, err)) { fprintf(stderr, "symex: %s\n", err.c_str()); return 3; }
  fnBI.assign(P.funcs.size(), {B_NONE, 0});
  for (size_t i = 0; i < P.funcs.size(); i++) {
    auto it = g_bi.find(P.funcs[i].name);
    if (it != g_bi.end()) fnBI[i] = it->second;
  }
  auto im = P.funcByName.find("vp_main");
  if (im == P.funcByName.end() || P.funcs[im->second].isDecl) { fprintf(stderr, "symex: no vp_main\n"); return 3; }
  t0 = std::chrono::steady_clock::now();
  S = new State();
  uint32_t maxSlot = 1;
  for (auto &g : P.globals) {
    Obj *o = newObj((uint32_t)g.size, K_GLOBAL, false);
    if (!g.init.empty()) memcpy(o->data, g.init.data(), g.init.size());
    o->readonly = g.isConst && !g.isExtern;
    S->mem.place(g.addr, o);
    maxSlot = std::max<uint32_t>(maxSlot, addrSlot(g.addr) + 1 + (uint32_t)(g.size >> OFF_BITS));
  }
  Mem::base = ((maxSlot + 63) & ~63u);
  S->mem.cursor = Mem::base;
  S->mem.window = Mem::base + 512;
  S->th.emplace_back();
  T = &S->th[0];
  S->path.model = std::make_shared<Model>();
  pushFrame(im->second, -1);
  for (auto it = P.ctors.rbegin(); it != P.ctors.rend(); ++it) { pushFrame(*it, -1); T->fr.back().special = 1; }
  work.push_back(S);
  while (!work.empty()) {
    S = work.back();
    work.pop_back();
    T = &S->th[S->cur];
    dead = false;
    uint64_t before = g_insts;
    runPath();
    (void)before;
    delete S;
    S = nullptr;
    if ((int)g_violKeys.size() >= O.maxViol) { g_complete = false; break; }
    if (elapsed() > O.timeLimit || g_paths >= O.maxPaths) { if (!work.empty()) g_complete = false; break; }
  }
  writeOut();
  return g_viol.empty() ? 0 : 1;
}

int main(int argc, char **argv) {
  static char altstk[1 << 16];
  stack_t ss{};
  ss.ss_sp = altstk, ss.ss_size = sizeof altstk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onSegv, sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, nullptr);
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "instrument" && argc >= 4) {
    std::string err;
    bool fine = false, asan = false;
    for (int i = 4; i < argc; i++) { if (!strcmp(argv[i], "--fine")) fine = true; if (!strcmp(argv[i], "--asan")) asan = true; }
    if (!instrumentBitcode(argv[2], argv[3], fine, asan, err)) { fprintf(stderr, "instrument: %s\n", err.c_str()); return 3; }
    return 0;
  }
  if (cmd != "run" || argc < 3) { fprintf(stderr, "usage: symex run FILE.bc [options]\n       symex instrument IN OUT [--fine] [--asan]\n"); return 2; }
  O.bc = argv[2];
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return argv[++i]; };
    if (a == "--out") O.out = val();
    else if (a == "--config") O.config = strtoull(val(), 0, 0);
    else if (a == "--no-por") O.por = false;
    else if (a == "--preempt") O.preempt = atoi(val());
    else if (a == "--time") O.timeLimit = atof(val());
    else if (a == "--max-inst") O.maxInst = strtoull(val(), 0, 0);
    else if (a == "--max-viol") O.maxViol = atoi(val());
    else if (a == "--max-paths") O.maxPaths = strtoull(val(), 0, 0);
    else if (a == "--samples") O.samples = atoi(val());
    else if (a == "--seed") O.seed = strtoull(val(), 0, 0);
    else if (a == "--repo") O.repo = val();
    else if (a == "--audit") O.audit = strtoull(val(), 0, 0);
    else if (a == "--spin") O.spinSync = strtoull(val(), 0, 0);
    else if (a == "--solver-timeout") g_solverTimeoutMs = atoi(val());
    else if (a == "--dump") g_dumpQueries = val();
    else if (a == "--no-uninit") O.uninitBranch = false;
    else if (a == "--trace") O.trace = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  return runAll();
}
