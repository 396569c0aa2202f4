#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's code.

  run_check.py <property> [quick|thorough]      run the check
  run_check.py --replay <file>                  run one recorded violation natively

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 3: the
check could not be run.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks as C  # noqa: E402

CLANG = shutil.which("clang++-18") or "clang++"
LLVM_LINK = shutil.which("llvm-link-18") or "llvm-link"
CPUS = os.cpu_count() or 4
CFLAGS = ["-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only",
          "-mllvm", "-phi-node-folding-threshold=0", "-mllvm", "-two-entry-phi-node-folding-threshold=0",
          "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w",
          "-I" + HERE + "/harness", "-I" + HERE + "/stubs", "-I" + REPO + "/include", "-I" + REPO + "/src",
          "-I" + REPO + "/src/benchmark"]


def log(*a):
    print(*a, flush=True)


def setup():
    """Build the executor (a no-op when it is up to date)."""
    out = os.environ.get("VERIF_BUILD", HERE + "/build")
    os.makedirs(out, exist_ok=True)
    lock = open(out + "/.lock", "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = subprocess.run([HERE + "/symex/build.sh", out], capture_output=True, text=True)
    if r.returncode:
        log(r.stdout, r.stderr)
        sys.exit(3)
    return out


class Variant:
    """One build of a harness: bitcode for the executor, programs for replay."""

    def __init__(self, name, work, symex):
        self.name, self.work, self.symex = name, work, symex
        v = C.VARIANTS[name]
        self.src, self.flags = v["src"], v.get("flags", [])
        self.fine = v.get("fine", False)
        self.lock = threading.Lock()
        self.natives = {}
        self.bc = work + "/" + name + ".bc"
        self.linked = work + "/" + name + ".l.bc"

    def compile(self):
        cmd = [CLANG] + CFLAGS + self.flags + ["-emit-llvm", "-c", HERE + "/harness/" + self.src, "-o", self.bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return "compilation of %s failed:\n%s" % (self.name, r.stderr[-4000:])
        rt = self.work + "/rt.bc"
        r = subprocess.run([LLVM_LINK, self.bc, rt, "-o", self.linked], capture_output=True, text=True)
        if r.returncode:
            return "linking of %s failed:\n%s" % (self.name, r.stderr[-4000:])
        return None

    def native(self, kind):
        with self.lock:
            if kind in self.natives:
                return self.natives[kind]
            inst = self.work + "/" + self.name + "." + kind + ".bc"
            exe = self.work + "/" + self.name + "." + kind
            asan = kind == "asan"
            r = subprocess.run([self.symex, "instrument", self.bc, inst] + (["--asan"] if asan else []) + (["--fine"] if self.fine else []),
                               capture_output=True, text=True)
            if r.returncode == 0:
                r = subprocess.run([CLANG, "-O1", "-g", "-w", "-Wno-override-module"] + (["-fsanitize=address"] if asan else []) +
                                   [inst, HERE + "/native/rt.cpp", "-o", exe, "-lpthread"], capture_output=True, text=True)
            if r.returncode:
                log("native build of %s failed: %s" % (self.name, r.stderr[-2000:]))
                exe = None
            self.natives[kind] = exe
            return exe


def write_replay(path, config, item):
    with open(path, "w") as f:
        f.write("config %d\n" % config)
        for i in item["inputs"]:
            f.write("input %s %d %s\n" % (i["name"], i["width"], i["value"]))
        for s in item["sched"]:
            f.write("sched %d %d %d %d %d\n" % tuple(s))


def run_native(exe, replay, fill=None, valgrind=False, alarm=20):
    env = dict(os.environ)
    opt = "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0"
    if fill is not None:
        opt += ":malloc_fill_byte=%d:max_malloc_fill_size=1048576" % fill
    env["ASAN_OPTIONS"] = opt
    env["VP_ALARM"] = str(alarm)
    cmd = [exe, replay]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=65", "--track-origins=no", "--leak-check=no"] + cmd
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=alarm + 60, env=env)
    except subprocess.TimeoutExpired:
        return 76, "VP-TIMEOUT", ""
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


def confirm(var, config, v, path):
    """Run the counterexample against the native build.  Returns a description
    of what was observed, or None."""
    write_replay(path, config, v)
    exe = var.native("asan")
    if not exe:
        return None
    fills = [None]
    if v["uninit"] or v["kind"] == "uninit":
        fills = [0xbe, 0x00, 0xff, 0x5a]
    seen = set()
    for fl in fills:
        rc, out, err = run_native(exe, path, fl)
        seen.add((rc, out))
        what = None
        m = re.search(r"VP-([A-Z-]+) ?(.*)", out)
        if rc == 66 or "ERROR: AddressSanitizer" in err:
            mm = re.search(r"AddressSanitizer:? ([^\n]*)", err)
            what = "AddressSanitizer: " + (mm.group(1)[:160] if mm else "error")
        elif m and m.group(1) == "ASSERT-FAIL":
            what = "assertion fails natively: " + m.group(2)
        elif m and m.group(1) in ("TIMEOUT", "DEADLOCK", "ABORT", "CRASH", "FPE", "UNREACHABLE", "UNLOCK-NOT-OWNER"):
            what = "native run: " + m.group(1)
        elif m and m.group(1) == "DIVERGED":
            what = None
        elif rc < 0 or rc >= 128:
            what = "native run died with %d" % rc
        if what:
            return what + (" (heap fill 0x%02x)" % fl if fl is not None else "")
    if v["uninit"] or v["kind"] == "uninit":
        if len({o for rc, o in seen if rc == 0}) > 1:
            return "the native result depends on uninitialised memory"
        ex2 = var.native("plain")
        if ex2 and shutil.which("valgrind"):
            rc, out, err = run_native(ex2, path, valgrind=True, alarm=60)
            if rc == 65:
                mm = re.search(r"== (Conditional|Use of|Invalid|Syscall)[^\n]*", err)
                return "valgrind: " + (mm.group(0)[3:] if mm else "uninitialised use")
            if "VP-ASSERT-FAIL" in out:
                return "assertion fails natively"
    return None


def known_findings(prop):
    out = []
    p = HERE + "/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("fixed:") or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out.append(d)
    return out


def match_known(kf, variant, config, v):
    for k in kf:
        m = k["match"]
        if "variant" in m and variant not in m["variant"]:
            continue
        if "config" in m and config not in m["config"]:
            continue
        if "kind" in m and m["kind"] != v["kind"]:
            continue
        if "label" in m and m["label"] != v["label"]:
            continue
        if "loc" in m and m["loc"] not in v["loc"]:
            continue
        if "stack" in m and m["stack"] not in v["stack"]:
            continue
        return k
    return None


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_cmd(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build = setup()
    symex = build + "/symex"
    chk = C.CHECKS[prop]
    jobs = chk[tier] if tier in chk else chk["quick"]
    limit = chk.get(tier + "_limit", 420 if tier == "quick" else 6 * 3600)
    only = os.environ.get("VERIF_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, "%s:%d" % (j["variant"], j["config"]))]
    work = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    evdir = HERE + "/evidence"
    os.makedirs(evdir, exist_ok=True)
    repdir = evdir + "/replays"
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(repdir + "/" + prop + "-*"):
        os.remove(f)
    try:
        return run(prop, tier, seed, t0, symex, chk, jobs, limit, work, evdir, repdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, t0, symex, chk, jobs, limit, work, evdir, repdir):
    names = []
    for j in jobs:
        if j["variant"] not in names:
            names.append(j["variant"])
    variants = {n: Variant(n, work, symex) for n in names}
    r = subprocess.run([CLANG] + CFLAGS + ["-fno-builtin", "-emit-llvm", "-c", HERE + "/harness/rt.cpp", "-o", work + "/rt.bc"], capture_output=True, text=True)
    if r.returncode:
        log(r.stderr)
        return 3
    with cf.ThreadPoolExecutor(CPUS) as ex:
        errs = [e for e in ex.map(lambda v: v.compile(), variants.values()) if e]
    if errs:
        for e in errs:
            log(e)
        return 3
    t_compiled = time.time()
    kf = known_findings(prop)
    stop = threading.Event()
    procs = set()
    plock = threading.Lock()
    results = []
    violations, unconfirmed, known = [], [], {}
    validated = [0, 0]
    mismatches = []
    errors = []
    audit = 256 if tier == "quick" else 64

    def do_job(idx, j):
        left = limit - (time.time() - t0)
        if stop.is_set() or left < 1:
            return
        var = variants[j["variant"]]
        out = "%s/job%d.json" % (work, idx)
        tl = min(j.get("time", 120), left)
        cmd = [symex, "run", var.linked, "--out", out, "--config", str(j["config"]), "--preempt", str(j.get("preempt", 0)),
               "--time", str(tl), "--repo", REPO + "/", "--seed", str(seed), "--samples", str(j.get("samples", 3)), "--audit", str(j.get("audit", audit))]
        for k in ("max_inst", "max_viol", "max_paths", "spin", "solver_timeout"):
            if k in j:
                cmd += ["--" + k.replace("_", "-"), str(j[k])]
        env = dict(os.environ)
        if var.fine:
            env["VP_FINE"] = "1"
        tj = time.time()
        with plock:
            if stop.is_set():
                return
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            procs.add(p)
        try:
            so, se = p.communicate(timeout=tl + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
        with plock:
            procs.discard(p)
        if stop.is_set():
            return
        if p.returncode not in (0, 1) or not os.path.exists(out):
            errors.append("%s:%d exit %s %s" % (j["variant"], j["config"], p.returncode, se[-400:]))
            return
        d = json.load(open(out))
        d["job_s"] = round(time.time() - tj, 1)
        d["variant"], d["config"], d["preempt"] = j["variant"], j["config"], j.get("preempt", 0)
        results.append(d)
        done_keys = set()
        for vi, v in enumerate(d["violations"]):
            key = (v["kind"], v["label"], v["loc"])
            k = match_known(kf, j["variant"], j["config"], v)
            if k:
                known.setdefault(k["what"], 0)
                known[k["what"]] += 1
                continue
            if key in done_keys:
                continue
            path = "%s/v%d_%d.txt" % (work, idx, vi)
            what = confirm(var, j["config"], v, path)
            if what is None:
                unconfirmed.append({"job": "%s:%d" % (j["variant"], j["config"]), "kind": v["kind"], "label": v["label"], "loc": v["loc"], "msg": v["msg"]})
                if os.environ.get("VERIF_KEEP"):
                    shutil.copy(path, os.environ["VERIF_KEEP"] + "/unconfirmed-%s-%d.txt" % (j["variant"], vi))
                continue
            done_keys.add(key)
            rec = {"property": prop, "variant": j["variant"], "config": j["config"], "observed": what, "violation": v}
            with plock:
                violations.append(rec)
            if tier == "quick" and not os.environ.get("VERIF_ALL"):
                stop.set()
                with plock:
                    for q in procs:
                        q.kill()
                return
        # replay a few explored paths and compare the traces
        if stop.is_set() or not d["samples"]:
            return
        n = j.get("validate", 3)
        for si, s in enumerate(d["samples"][:n]):
            exe = var.native("asan")
            if not exe or stop.is_set():
                return
            path = "%s/s%d_%d.txt" % (work, idx, si)
            write_replay(path, j["config"], s)
            rc, so, se = run_native(exe, path)
            em = [int(x.split()[1]) for x in so.splitlines() if x.startswith("EMIT ")]
            want = [int(x, 16) for x in s["emits"]]
            ok = rc == 0 and "END" in so and em == want
            with plock:
                validated[0] += 1
                validated[1] += ok
                if not ok:
                    mismatches.append({"job": "%s:%d" % (j["variant"], j["config"]), "rc": rc, "native": em[:40], "symbolic": want[:40], "out": (so[-300:] + se[-300:])})
                    if os.environ.get("VERIF_KEEP"):
                        shutil.copy(path, os.environ["VERIF_KEEP"] + "/mismatch-%s-%d-%d.txt" % (j["variant"], j["config"], si))
            os.remove(path)
        os.remove(out)

    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("weight", 1))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = [ex.submit(do_job, i, jobs[i]) for i in order]
        for f in futs:
            f.result()

    rc = 0
    shown = set()
    for n, rec in enumerate(violations):
        v = rec["violation"]
        key = (v["kind"], v["label"], v["loc"])
        if key in shown:
            continue
        shown.add(key)
        path = "%s/%s-%d.json" % (repdir, prop, n)
        json.dump(rec, open(path, "w"), indent=1)
        log("%s %s at %s" % (v["kind"], v["msg"], v["loc"]))
        log("  observed: " + rec["observed"])
        log("  inputs: " + ", ".join("%s=%s" % (i["name"], i["value"]) for i in v["inputs"][:24]))
        if v["sched"]:
            log("  schedule: " + " ".join("%d->%d@%d%s" % (s[1], s[2], s[4], "+" if s[3] else "") for s in v["sched"][:40]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
        if len(shown) >= 10:
            break
    for w, n in known.items():
        log("KNOWN-FINDING: property=%s %s" % (prop, w))
    tot = lambda k: sum(d[k] for d in results)
    complete = [d for d in results if d["complete"]]
    if rc == 0:
        ended = sum(d["reached"].get("end", 0) for d in results)
        if not results or not ended:
            log("nothing was explored: " + "; ".join(errors[:3]))
            rc = 3
    funcs = sorted({f for d in results for f in d["functions"]})
    unsup = {}
    for d in results:
        for k, n in d["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + n
    labels = {}
    for d in results:
        for k, n in d["assert_labels"].items():
            labels[k] = labels.get(k, 0) + n
    samples = []
    for d in results:
        for s in d["samples"][:1]:
            samples.append({"job": "%s:%d" % (d["variant"], d["config"]), "path_condition": s["path_condition"],
                            "inputs": {i["name"]: i["value"] for i in s["inputs"]}, "schedule": s["sched"][:20]})
    samples = samples[:12]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated[1],
            "samples": samples,
            "explanation": "states: symbolic states (completed paths and forks); transitions: instructions of the compiled code interpreted symbolically; traces: explored paths run natively with the same emitted trace",
            "paths": tot("paths"),
            "assertions_evaluated": tot("asserts"),
            "assertions_over_symbolic_values": tot("symbolic_asserts"),
            "assertions": labels,
            "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "solver_cache_hits": tot("cache_hits"),
            "decided_by_path_bounds": tot("decided_by_bounds"), "of_those_re_decided_by_solver": tot("audited"),
            "solver_seconds": round(tot("solver_s"), 3),
            "solver": results[0]["solver"] if results else "",
            "jobs": len(jobs), "jobs_run": len(results), "jobs_exhausted_within_bounds": len(complete),
            "jobs_cut_by_time": sorted("%s:%d" % (d["variant"], d["config"]) for d in results if not d["complete"])[:60],
            "slowest_jobs_s": {"%s:%d" % (d["variant"], d["config"]): d["job_s"] for d in sorted(results, key=lambda d: -d["job_s"])[:12]},
            "job_errors": errors[:20],
            "exhaustive": len(complete) == len(jobs),
            "unsupported": unsup,
            "traces_replayed": validated[0], "trace_mismatches": mismatches[:5],
            "unconfirmed_candidates": unconfirmed[:10],
            "bounds": chk.get("bounds", ""), "outside": chk.get("outside", ""),
            "functions_encoded": len(funcs), "functions": funcs[:400],
            "compile_s": round(t_compiled - t0, 2),
        },
        "assumptions": chk.get("assumptions", []) + C.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(shown),
    }
    tmp = evdir + "/" + prop + ".json.tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, evdir + "/" + prop + ".json")
    log("%s %s: %d/%d jobs (%d exhausted), %d paths, %d assertions, %d queries (%.1f s solver), %d/%d traces match, %d violations, %d unconfirmed, %.1f s"
        % (prop, tier, len(results), len(jobs), len(complete), tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), validated[1], validated[0], len(shown), len(unconfirmed), wall))
    if os.environ.get("VERIF_TIMES"):
        for d in sorted(results, key=lambda d: -d["job_s"])[:int(os.environ["VERIF_TIMES"])]:
            log("  %6.1f s %s:%d paths %d solver %.1f %s" % (d["job_s"], d["variant"], d["config"], d["paths"], d["solver_s"], "" if d["complete"] else "PARTIAL"))
    for e in errors[:5]:
        log("WARNING job error: " + e)
    for m in mismatches[:3]:
        log("WARNING trace mismatch: " + json.dumps(m)[:600])
    for u in unconfirmed[:5]:
        log("WARNING candidate not reproduced natively: " + json.dumps(u)[:400])
    if unsup:
        log("WARNING unsupported: " + json.dumps(unsup)[:400])
    return rc


def replay_cmd(path):
    rec = json.load(open(path))
    build = setup()
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        var = Variant(rec["variant"], work, build + "/symex")
        r = subprocess.run([CLANG] + CFLAGS + ["-fno-builtin", "-emit-llvm", "-c", HERE + "/harness/rt.cpp", "-o", work + "/rt.bc"])
        e = var.compile()
        if e:
            log(e)
            return 3
        what = confirm(var, rec["config"], rec["violation"], work + "/r.txt")
        log(what or "not reproduced")
        return 1 if what else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
