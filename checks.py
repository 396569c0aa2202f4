"""What each check explores.  A job is one symbolic execution: a harness build
(variant) with a scenario number (config)."""

COMMON_ASSUMPTIONS = [
    "clang 18 compiles the harness and /repo's headers at -O1 to the bitcode that is executed; native replays use the same bitcode",
    "allocation never fails; at most 2^22 bytes per allocation",
]

VARIANTS = {}
CHECKS = {}


def variant(name, src, *flags, fine=False):
    VARIANTS[name] = {"src": src, "flags": list(flags), "fine": fine}
    return name


def jobs(var, configs, **kw):
    return [dict(kw, variant=var, config=c) for c in configs]


# ---------------------------------------------------------------- C01 - C04
PREFIXES = list(range(0, 18))
SMALL = [0, 1, 2, 7, 8, 11, 12, 13, 14, 15, 16, 17]


def bt(name, prop, kind=0, node=128, merge=20, dbg=False):
    return variant(name, "btree_map.cpp", "-DPROP=%d" % prop, "-DKIND=%d" % kind, "-DNODE=%d" % node, "-DMERGE=%d" % merge,
                   "-DDBG=%s" % ("true" if dbg else "false"))


for pid, prop in (("C01", 1), ("C02", 2), ("C03", 4), ("C04", 8)):
    a = bt(pid + "_int", prop)
    b = bt(pid + "_obj", prop, kind=1, node=160)
    m = bt(pid + "_merge", prop, merge=60, dbg=True)
    c = bt(pid + "_cmp", prop, kind=2)
    w = bt(pid + "_wide", prop, node=224, merge=40)
    q, t = [], []
    for v in (a, b, m, c, w):
        q += jobs(v, [100 + p for p in PREFIXES], weight=2 if v == c else 1)
        q += jobs(v, [200 + p for p in SMALL if v != c or p != 2], weight=4 if v == c else 2)
        t += jobs(v, [100 + p for p in PREFIXES] + [200 + p for p in PREFIXES] + [300, 3300, 1400, 3400, 301, 311, 313, 317], time=900)
    q += jobs(a, [300, 3300], weight=5)
    if pid == "C04":
        for v in (a, b, m, c, w):
            q += jobs(v, [203, 204, 205, 206, 209, 210] + [300 + p for p in SMALL if p != 2] + [400], weight=5, time=60)
    CHECKS[pid] = {
        "quick": q, "thorough": t,
        "bounds": "18 concrete histories of up to 39 writes (trees of height 1-4, emptied leaves, merged nodes) followed by 1 symbolic operation, 12 of them by 2, and 3 symbolic operations from the empty map; every key, value and probe; node sizes 128/160/224 bytes, merge thresholds 20/40/60 %, int, owning-object and compound keys",
        "outside": "longer symbolic histories, other key types and node sizes, allocation failure",
    }


# ---------------------------------------------------------------- C06, C07
ART_SMALL = [0, 1, 2, 3, 4, 5, 10, 15, 16, 19]
ART_BOUNDS = ("20 concrete shapes (0-52 children; every node size, full, under-full, emptied and with holes) in 7 placements (root without prefix, "
              "prefixes of 1 and 3 bytes below the root and at the root, two levels, last byte, sibling nodes), then 1 symbolic operation; small shapes then 2; 3 from the empty map; "
              "every 64-bit key, every value and operation")


def art(pid, *flags):
    a = variant(pid + "_word", "art.cpp", *flags)
    o = variant(pid + "_own", "art.cpp", "-DOWNVAL=1", *flags)
    d = variant(pid + "_dbg", "art.cpp", "-DDBG", *flags)
    return a, o, d


def ART_Q(a, o, d):
    q = jobs(a, [1000 + 100 * pl + s for pl in range(7) for s in range(20)])
    q += jobs(a, [10000 + 100 * pl + s for pl in range(7) for s in range(20)])
    q += jobs(a, [11000 + 100 * pl + s for pl in range(7) for s in (0, 1, 2, 3, 16)])
    q += jobs(d, [1000 + 100 * pl + s for pl in range(7) for s in ART_SMALL + [6, 7, 8, 9, 11, 12, 13]])
    q += jobs(a, [2000 + 100 * pl + s for pl in range(6) for s in (0, 1, 2, 4, 5, 10)] + [3000], weight=3)
    q += jobs(o, [21000 + 100 * pl + s for pl in range(6) for s in (0, 1, 2, 4, 5, 10, 16)], weight=3)
    q += jobs(o, [20000 + 100 * pl + s for pl in range(6) for s in range(20)])
    return q


def ART_T(a, o, d):
    return (jobs(a, [k * 1000 + 100 * pl + s for k in (1, 2) for pl in range(7) for s in range(20)] + [3000, 3001, 3002, 3003, 4000], time=1200)
            + jobs(a, [10000 + k * 1000 + 100 * pl + s for k in (0, 1) for pl in range(7) for s in range(20)], time=600)
            + jobs(d, [k * 1000 + 100 * pl + s for k in (1, 2) for pl in range(7) for s in ART_SMALL + [6, 7, 8, 9, 11, 12, 13]], time=1200)
            + jobs(o, [20000 + k * 1000 + 100 * pl + s for k in (0, 1) for pl in range(7) for s in range(20)], time=600))


a, o, d = art("C06")
CHECKS["C06"] = {"quick": ART_Q(a, o, d), "bounds": ART_BOUNDS, "outside": "longer symbolic histories; keys other than 64-bit integers (the tree has no others)"}

CHECKS["C06"]["thorough"] = ART_T(a, o, d)

a, o, d = art("C07", "-DCONC")
CHECKS["C07"] = {"quick": ART_Q(a, o, d), "thorough": ART_T(a, o, d), "bounds": ART_BOUNDS, "outside": CHECKS["C06"]["outside"]}

# ---------------------------------------------------------------- C08
a = variant("C08_sym", "art_conc.cpp", "-DRECLAIM")
d = variant("C08_dbg", "art_conc.cpp", "-DDBG", "-DLEAK", "-DPICK")
q = jobs(a, [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14], preempt=2, weight=6)
q += jobs(a, [10100, 10101, 10200], preempt=1, weight=3)
q += jobs(a, [60100, 60106, 60114], preempt=1, weight=4)
q += jobs(d, [i for i in range(15) if i not in (9, 10, 11)], preempt=2, weight=5)
q += jobs(d, [9, 10, 11], preempt=1, weight=5)
q += jobs(d, [10100, 10101, 10102, 10104, 10106, 10108, 10200], preempt=1, weight=3)
t = jobs(a, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], preempt=2, time=1800)
t += jobs(a, [0, 1, 2, 3, 6, 13], preempt=3, time=1800)
t += jobs(a, [60100 + i for i in range(15)], preempt=1, time=1800)
t += jobs(a, [10100 + i for i in range(15)] + [10200 + i for i in range(9)] + [20200 + i for i in range(9)] + [10300, 10301, 10302, 10306, 10308], preempt=1, time=1800)
t += jobs(d, range(15), preempt=3, time=1800)
t += jobs(d, [100 + i for i in range(15)] + [200 + i for i in range(15)] + [300 + i for i in range(9)], preempt=1, time=1800)
CHECKS["C08"] = {
    "quick": q, "thorough": t, "threads": True,
    "bounds": "15 initial trees (empty, one leaf, full NODE4 at the root and below, with holes, NODE16/48 about to shrink or full, prefixes); 2 threads of 1 operation with 2 preemptions over all operations and symbolic keys, (2,1) operations and 3 threads with 1 preemption over upserts and deletes; sequentially consistent interleavings at atomic accesses and lock operations; word-sized values",
    "outside": "weak memory orders, more preemptions and threads, values larger than a machine word",
}

# ---------------------------------------------------------------- C05
v = variant("C05", "ckey.cpp")
CHECKS["C05"] = {"quick": jobs(v, [t * 1000 + a + 10 * b + 100 * c for t in range(4) for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3)]),
                 "bounds": "keys of 1 to 3 components, every combination of three lengths; every component value; signed and unsigned integers of 8-64 bits and objects that define only < and ==",
                 "outside": "longer keys, component types with an inconsistent order (floating point NaN)"}

# ---------------------------------------------------------------- C15
v = variant("C15", "epoch.cpp")
w = variant("C15_int", "epoch.cpp", "-DEPOCH=int")
q = jobs(v, [a + 10 * thr + 100 for a in (0, 3, 4, 5, 6, 7) for thr in (0, 1, 2)])
q += jobs(v, [200 + a for a in (0, 3, 4, 7)], weight=4)
q += jobs(v, [1000 + p + 10 * thr + 100 * nr + 1000 * nw + 10000 * pl for p in range(10) for thr, nr, nw, pl in ((0, 1, 2, 0), (0, 2, 2, 1), (1, 1, 2, 0), (2, 2, 2, 1))], preempt=2)
q += jobs(v, [1000 + p + 10 * thr + 1100 + 10000 * pl for p in range(10) for thr, pl in ((0, 3), (1, 2))], preempt=1, weight=2)
q += jobs(v, [1000 + p + 2200 + 20000 for p in range(10)], preempt=1, weight=3)
q += jobs(w, [100, 103, 104, 105, 13202, 13204, 13206], preempt=1)
t = jobs(v, [a + 10 * thr + 100 * n for a in (0, 3, 4, 5, 6, 7) for thr in (0, 1, 2, 3) for n in (1, 2, 3)], time=1800)
t += jobs(v, [1000 + p + 10 * thr + 100 * nr + 1000 * nw + 10000 * pl for p in range(10) for thr in (0, 1, 2) for nr, nw, pl in ((2, 2, 0), (2, 3, 1), (2, 2, 2), (1, 1, 3))], preempt=2, time=1800)
CHECKS["C15"] = {
    "quick": q, "thorough": t, "threads": True,
    "bounds": "three threads: every history of 4-5 calls (enter, exit, read, retire in the new or current epoch, retire a span, reclaim, switch epoch), reclamation thresholds 1, 2 and 1000; 10 initial situations followed by 1-2 symbolic calls per thread running concurrently with 1-2 preemptions (sequentially consistent)",
    "outside": "weak memory orders, wrap-around of the epoch counter, reclaim_all while other threads retire",
}

# ---------------------------------------------------------------- C13, C14
v = variant("C13", "hash.cpp")
d = variant("C13_dbg", "hash.cpp", "-DDBG", "-DOWNVAL=1", "-DOWNKEY=1")
l1 = variant("C13_l1", "hash.cpp", "-DLIMIT=1")
l2 = variant("C13_l2", "hash.cpp", "-DLIMIT=2")
SH = range(18)
q = jobs(v, [n * 1000 + s for n in (1, 2) for s in SH] + [12100 + s for s in SH if s not in (10, 11, 12, 14, 16)] + [11000 + s for s in SH])
q += jobs(v, [3000, 3001, 3002, 3100], weight=5)
q += jobs(d, [1100 + s for s in SH] + [2000 + s for s in SH if s not in (12, 16)])
q += jobs(l1, [1000 + s for s in SH] + [2000, 2002], max_inst=400000, weight=2)
q += jobs(l2, [1000 + s for s in SH] + [2000, 2002, 2004, 2012], max_inst=400000, weight=2)
q += jobs(l1, [18], max_inst=400000)
t = jobs(v, [n * 1000 + s for n in (2, 3) for s in SH] + [12100 + s for s in SH] + [13000 + s for s in SH] + [3100 + s for s in SH] + [4000, 4001], time=1800)
t += jobs(d, [2100 + s for s in SH] + [3000, 3001, 3005], time=1800)
t += jobs(l1, [1000 + s for s in SH] + [2000 + s for s in SH] + [18], max_inst=800000, time=900)
t += jobs(l2, [1000 + s for s in SH] + [2000 + s for s in SH], max_inst=800000, time=900)
CHECKS["C13"] = {
    "quick": q, "thorough": t,
    "bounds": "18 concrete histories (equal hashes, chains that wrap around or cross, full tables, tombstones, nothing but tombstones, tables grown, shrunk and reserved, the two reserved hash values), then 1-3 symbolic operations including reserve; every 64-bit key (the hash is the key's low byte, sign-extended), value and operation; tables of up to 256 buckets; linear search limits 1, 2 and 255; word-sized and owning keys and values",
    "outside": "longer symbolic histories; hash functions that depend on more than 8 bits (but hashes of up to 256 distinct values, chosen freely by the keys, occur); with limits below 255 the symbolic keys have hashes at least 16 apart (known finding)",
}

a = variant("C14", "hash_conc.cpp", "-DRECLAIM")
l = variant("C14_leak", "hash_conc.cpp", "-DLEAK", "-DDBG")
q = jobs(a, [0, 1, 2, 3, 5, 6, 8, 9, 10], preempt=2, weight=3)
q += jobs(a, [4, 7, 100, 10004], preempt=2, weight=6)
q += jobs(a, [60100, 60101, 60105, 60106, 60108, 60110], preempt=1, weight=3)
q += jobs(a, [50000 + i for i in range(11)] + [10200 + i for i in (0, 1, 4, 5)] + [50103, 50107, 101, 105, 30204, 30207], preempt=1, weight=3)
q += jobs(l, list(range(11)) + [50003, 50004, 50007], preempt=1)
t = jobs(a, range(11), preempt=3, time=3600)
t += jobs(a, [100 + i for i in range(11)] + [10200 + i for i in range(11)] + [10300 + i for i in range(11)] + [200 + i for i in range(11)], preempt=1, time=3600)
t += jobs(a, [50000 + i for i in range(11)] + [50100 + i for i in range(11)] + [30200 + i for i in range(11)], preempt=2, time=3600)
t += jobs(l, [i for i in range(11)] + [50000 + i for i in range(11)], preempt=2, time=3600)
CHECKS["C14"] = {
    "quick": q, "thorough": t, "threads": True,
    "bounds": "11 initial tables (empty, chains of 1-3, one free bucket, full, tombstones, wrapping and crossing chains, reserved hashes); 2 threads of one operation with 2 preemptions over all operations and symbolic keys and values, against a thread that rebuilds the table, (2,1) operations and 3 threads with 1 preemption; sequentially consistent interleavings at atomic accesses and lock operations; word-sized keys and values",
    "outside": "weak memory orders, more preemptions and threads, keys or values which are not trivially copyable words (a search copies the value while an update replaces it), size() read while a table is replaced",
}

# ---------------------------------------------------------------- C09, C10
BTC_BOUNDS = ("22 concrete histories of up to 72 writes (trees of height 1-4, emptied, merged, trimmed and under-full nodes, empty maps that once held entries) followed by %s; "
              "every key, value and probe; node sizes 192/224 bytes, merge thresholds 20/60 %%, int, owning-object and compound keys, with and without the map's own assertions")


def btc(pid):
    return (variant(pid + "_int", "btc.cpp"), variant(pid + "_own", "btc.cpp", "-DKIND=1", "-DOWNVAL=1", "-DNODE=224"),
            variant(pid + "_cmp", "btc.cpp", "-DKIND=2"), variant(pid + "_merge", "btc.cpp", "-DMERGE=60", "-DDBG=true"))


BS = range(22)
BSMALL = [0, 1, 2, 8, 11, 12, 13, 14, 15, 16, 17, 21]
a, o, c, m = btc("C09")
q, t = [], []
for v in (a, o, c, m):
    q += jobs(v, [100 + s for s in BS if s != 18] + [1100 + s for s in BSMALL])
    q += jobs(v, [200 + s for s in BSMALL if v != c or s in (0, 8, 11, 13, 14)], weight=2)
    t += jobs(v, [m_ * 1000 + k * 100 + s for m_ in (0, 1) for k in (1, 2) for s in BS] + [300, 400, 301, 308, 313, 317, 321], time=900)
q += jobs(a, [300], weight=5)
q += jobs(m, [300], weight=5)
CHECKS["C09"] = {"quick": q, "thorough": t, "bounds": BTC_BOUNDS % "1 symbolic operation, 12 of them by 2, and 3 symbolic operations from the empty map",
                 "outside": "longer symbolic histories, other key types and node sizes, keys compared by a run-time comparator (does not compile in this code base)"}

a, o, c, m = btc("C10")
q, t = [], []
for v in (a, o, c, m):
    q += jobs(v, [3100 + s for s in BS if s != 18] + [4000 + s for s in BS if s != 18])
    q += jobs(v, [4100 + s for s in BSMALL if v != c or s != 2])
    q += jobs(v, [k * 1000 + s for k in (5, 6) for s in BSMALL + ([6, 7, 9, 20] if v != c else []) if v != c or s != 2])
    t += jobs(v, [k * 1000 + n * 100 + s for k in (3, 4, 5, 6) for n in (0, 1) for s in BS] + [k * 1000 + 200 + s for k in (3, 4, 5, 6) for s in BSMALL], time=900)
for v in (a, m):
    q += jobs(v, [k * 1000 + 100 + s for k in (5, 6) for s in (0, 8, 11, 12, 13, 14, 15, 17)], weight=2)
CHECKS["C10"] = {"quick": q, "thorough": t, "bounds": BTC_BOUNDS % "0-1 symbolic operation and a walk in either direction, a bound query with a symbolic probe, or a range with two symbolic end points (all eight kinds of range; for compound keys also prefixes as end points and probes)",
                 "outside": "longer symbolic histories, other key types and node sizes, stepping an iterator against its direction past the end"}

# ---------------------------------------------------------------- C11
a = variant("C11", "btree_conc.cpp", "-DRECLAIM")
d = variant("C11_leak", "btree_conc.cpp", "-DDBG", "-DLEAK")
q = jobs(a, [0, 1, 2, 3, 5, 6, 9, 10, 11, 13, 14], preempt=2, weight=5)
q += jobs(a, [4, 7, 8, 12], preempt=1, weight=3)
q += jobs(a, [60100, 60101, 60102, 60103, 60107, 60109, 10200, 10201, 10202, 10203, 50201], preempt=1, weight=4)
q += jobs(d, list(range(15)), preempt=1, weight=2)
t = jobs(a, range(15), preempt=2, time=3600) + jobs(a, [0, 1, 2, 3, 9, 11, 13, 14], preempt=3, time=3600)
t += jobs(a, [k * 10000 + p * 100 + i for k, p in ((0, 1), (6, 1), (1, 2), (3, 2), (5, 2), (1, 3)) for i in range(15)], preempt=1, time=3600)
t += jobs(d, [k * 10000 + p * 100 + i for k, p in ((0, 0), (6, 1)) for i in range(15)], preempt=2, time=3600)
CHECKS["C11"] = {
    "quick": q, "thorough": t, "threads": True,
    "bounds": "15 initial maps (empty, one leaf, full leaf at the root and below, full root, mergeable, emptied and untrimmed leaves, one-child root, three levels); 2 threads of one operation with 2 preemptions (4 of the maps: 1) over all operations, symbolic keys around the interesting nodes and symbolic values; (2,1) operations and 3 threads with 1 preemption; retired nodes are released as soon as the epoch manager allows; sequentially consistent interleavings at atomic accesses and lock operations; word-sized keys and values; a sleeping thread waits arbitrarily long or not at all",
    "outside": "weak memory orders, more preemptions and threads, keys or values which are not trivially copyable words (a search copies the value while an update replaces it)",
}

# ---------------------------------------------------------------- C12
a = variant("C12", "btree_scan.cpp")
d = variant("C12_dbg", "btree_scan.cpp", "-DDBG")
q = jobs(a, [1000 + 100 * k + s for k in range(6) for s in range(16)], weight=2)
q += jobs(a, [2000 + 100 * k + s for k in range(4) for s in range(16) if s != 13 or k > 1], weight=4)
q += jobs(a, [3000 + 100 * k + s for k in range(4) for s in (1, 9, 10)], weight=5)
q += jobs(a, [11000 + 100 * k + s for k in range(4) for s in (1, 3, 5, 6, 9, 10, 11)], preempt=3, weight=5)
q += jobs(a, [12303, 12311], preempt=2, weight=9)
q += jobs(d, [1000 + 100 * k + s for k in range(4) for s in range(16)])
t = jobs(a, [n * 1000 + 100 * k + s for n in (2, 3) for k in range(6) for s in range(16)], time=1800)
t += jobs(a, [11000 + 100 * k + s for k in range(6) for s in range(16)], preempt=3, time=1800)
t += jobs(a, [12000 + 100 * k + s for k in range(6) for s in range(16)], preempt=2, time=3600)
t += jobs(d, [2000 + 100 * k + s for k in range(4) for s in range(16)], time=1800)
CHECKS["C12"] = {
    "quick": q, "thorough": t, "threads": True,
    "bounds": "16 initial maps; one complete scan (forward or reverse, of the whole map, of a range with symbolic end points, or from a bound) with 1-3 symbolic upserts and deletes placed before any of its steps, or executed by a second thread with 2-3 preemptions inside the steps; sequentially consistent interleavings at atomic accesses and lock operations; word-sized keys and values",
    "outside": "weak memory orders, more writes during the scan, keys or values which are not trivially copyable words",
}

# ---------------------------------------------------------------- C19
ba = variant("C19_btree", "btc.cpp", "-DKIND=1", "-DOWNVAL=1", "-DNODE=224")
bi = variant("C19_btree_int", "btc.cpp", "-DMERGE=60", "-DDBG=true")
bo = variant("C19_btree_val", "btc.cpp", "-DOWNVAL=1", "-DMERGE=40")
aa = variant("C19_art", "art.cpp", "-DCONC", "-DOWNVAL=1")
ai = variant("C19_art_int", "art.cpp", "-DCONC", "-DDBG")
ha = variant("C19_hash", "hash.cpp", "-DOWNKEY=1", "-DOWNVAL=1")
hi = variant("C19_hash_int", "hash.cpp", "-DDBG")
bl = variant("C19_btree_conc", "btree_conc.cpp", "-DLEAK")
al = variant("C19_art_conc", "art_conc.cpp", "-DLEAK", "-DPICK")
hl = variant("C19_hash_conc", "hash_conc.cpp", "-DLEAK")
q, t = [], []
for v in (ba, bi, bo):
    q += jobs(v, [2000 + s for s in BS] + [2100 + s for s in BS if s != 18] + [7000 + s for s in BSMALL])
    t += jobs(v, [m_ * 1000 + 100 * k + s for m_ in (2, 7) for k in (0, 1, 2) for s in BS], time=900)
q += jobs(bo, [2200 + s for s in BSMALL], weight=2)
q += jobs(aa, [20000 + 100 * pl + s for pl in range(6) for s in range(20)] + [21000 + 100 * pl + s for pl in range(6) for s in (0, 1, 2, 4, 5, 10, 16)])
q += jobs(ai, [21000 + 100 * pl + s for pl in range(6) for s in (0, 1, 4, 10)])
t += jobs(aa, [20000 + 1000 * k + 100 * pl + s for k in (1, 2) for pl in range(7) for s in ART_SMALL], time=900)
q += jobs(ha, [20000 + s for s in SH] + [21000 + s for s in SH] + [21100 + s for s in SH] + [22000, 22001, 22002, 22005], weight=2)
q += jobs(hi, [21100 + s for s in SH])
t += jobs(ha, [22000 + s for s in SH] + [22100 + s for s in SH] + [23000, 23001], time=1800)
q += jobs(bl, list(range(15)), preempt=1, weight=2)
q += jobs(al, list(range(15)), preempt=1, weight=2)
q += jobs(hl, list(range(11)) + [50000 + i for i in range(11)], preempt=1, weight=2)
t += jobs(bl, [k + i for k in (0, 60100) for i in range(15)], preempt=2, time=3600)
t += jobs(al, [k + i for k in (0, 60100) for i in range(15)], preempt=2, time=3600)
t += jobs(hl, [k + i for k in (0, 50000, 60100) for i in range(11)], preempt=2, time=3600)
CHECKS["C19"] = {
    "quick": q, "thorough": t, "threads": True,
    "bounds": "the histories of C07, C09 and C13 (18-22 concrete prefixes per map, 1-2 symbolic operations, partly iterators standing inside the map) followed by reclamation and destruction, with word-sized and owning keys and values; 2 threads of one operation each with 1 preemption on 41 initial maps, then reclamation and destruction",
    "outside": "longer symbolic histories, concurrent threads with owning keys or values",
}

NOT_APPLICABLE = {}
