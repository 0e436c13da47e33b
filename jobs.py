# Units and jobs per property.  A unit is one harness with the real sources it
# needs; a job is one run of the executor on it.
COMMON_ASSUMPTIONS = [
    "clang 18 -O1 bitcode of the sources (x86-64, -mssse3, no auto-vectorisation, Eigen without explicit vectorisation) has the semantics of the shipped build",
    "models of library code that only exists as a shared object (rt/rt.cc, stubs/): libstdc++ runtime, node containers without rebalancing, single-bucket hash tables, pthreads, clocks (arbitrary values), glog (a failed CHECK aborts), formatting of log output is skipped",
    "allocation never fails (except absurd sizes)", "trusted: LLVM 18, Z3, the executor in engine/"]
def cases(d, **kw):
    """jobs from {name: case-number or params}"""
    r = []
    for n, p in d.items():
        r.append(dict(name=n, params=dict(case=p) if isinstance(p, int) else p, **kw))
    return r
ID_NATIVE = dict(libs=["-lglog", "-lprotobuf"], srcs=["aslam_cv_common/src/hash-id.cc", "aslam_cv_common/src/internal/unique-id.cc", "$PROTO/aslam/common/id.pb.cc"])
ID = dict(srcs=["aslam_cv_common/src/hash-id.cc", "aslam_cv_common/src/internal/unique-id.cc"], native=ID_NATIVE, proto=True)
PROPS = {}
PROPS["P07"] = dict(units=[dict(ID, name="ids", harness="p07_ids.cc", bounds="all 2^128 id values; rejected strings of length 0..40",
    reach=["roundTrip", "injective", "upperCase", "badLength", "proto", "protoBadSize", "print"],
    jobs=cases(dict(roundtrip=0, injective=1, case=2, badlength=3, proto=4, protobad=5, printed=6)))])
PROPS["P08"] = dict(units=[dict(ID, name="ids", harness="p07_ids.cc", bounds="all triples of 128-bit ids", reach=["orderHash", "orderId", "hashing", "validity"],
    jobs=cases(dict(order=7, typed=8, hash=9, validity=10)))])
PROPS["P09"] = dict(units=[dict(ID, name="ids", harness="p07_ids.cc", bounds="4 ids generated in sequence, arbitrary clock; all pairs of 32-bit integers", reach=["generate", "fromInt", "generateThreads"],
    jobs=cases(dict(generate=11, fromint=12)) + cases(dict(threads=13), args=["--atomic-sched"], confirm="stress"))])

RW = dict(harness="p01_rwlock.cc", srcs=["aslam_cv_common/src/reader-writer-lock.cc", "aslam_cv_common/src/reader-first-reader-writer-lock.cc"], native=dict(sched=True))
SCHED_BOUNDS = "scheduling points: every mutex acquisition, condition signal/broadcast, blocking operation, thread end and harness yield; preemption bound per job (parameter pre; blocking switches are always explored); unsynchronised accesses are found by a happens-before race check"
def rw(pre, extra=[], **p):
    return [dict(name="%s_%s_pre%s%s" % ("first" if f else "base", "_".join("%s%s" % x for x in p.items()), pre, "s" if extra else ""), params=dict(p, first=f), args=["--preemptions", str(pre)] + extra) for f in (0, 1)]
SP = ["--spurious"]
PROPS["P01"] = dict(units=[dict(RW, name="rwlock", reach=["exclusion"], bounds="both lock kinds; 2-4 threads, 1-3 operations each out of {read, write} with symbolic programs; " + SCHED_BOUNDS,
    jobs=dict(quick=rw(4, case=0, threads=3, ops=1, lo=0, hi=1) + rw(3, case=0, threads=2, ops=2, lo=0, hi=1) + rw(2, SP, case=0, threads=3, ops=1, lo=0, hi=1) + rw(1, case=0, threads=4, ops=1, lo=0, hi=1),
              thorough=rw(7, case=0, threads=3, ops=1, lo=0, hi=1) + rw(6, case=0, threads=2, ops=2, lo=0, hi=1) + rw(4, case=0, threads=2, ops=3, lo=0, hi=1) + rw(3, SP, case=0, threads=3, ops=1, lo=0, hi=1) + rw(2, case=0, threads=4, ops=1, lo=0, hi=1) + rw(2, case=0, threads=3, ops=2, lo=0, hi=1)))])
PROPS["P02"] = dict(units=[dict(RW, name="rwlock", reach=["exclusion"], bounds="both lock kinds; 2-4 threads, 1-3 operations each out of {read, write, read-then-upgrade} with symbolic programs; " + SCHED_BOUNDS,
    jobs=dict(quick=rw(3, case=0, threads=3, ops=1, lo=0, hi=2) + rw(3, case=0, threads=2, ops=2, lo=1, hi=2) + rw(1, SP, case=0, threads=3, ops=1, lo=1, hi=2),
              thorough=rw(5, case=0, threads=3, ops=1, lo=0, hi=2) + rw(5, case=0, threads=2, ops=2, lo=0, hi=2) + rw(2, SP, case=0, threads=3, ops=1, lo=0, hi=2) + rw(2, case=0, threads=4, ops=1, lo=0, hi=2) + rw(2, case=0, threads=3, ops=2, lo=1, hi=2)))])
PROPS["P03"] = dict(units=[dict(RW, name="rwlock", reach=["exclusion", "sharing", "preference", "inUse"], bounds="both lock kinds; 2-4 threads, 1-2 operations each out of {read, write, read-then-upgrade}; one waiting writer or reader for the usage report and the admission order; " + SCHED_BOUNDS,
    jobs=dict(quick=rw(3, case=1) + rw(3, case=2) + rw(3, case=3) + rw(2, case=0, threads=3, ops=1, lo=0, hi=2) + rw(2, case=0, threads=2, ops=2, lo=0, hi=2) + rw(1, case=0, threads=4, ops=1, lo=0, hi=2),
              thorough=rw(8, case=1) + rw(8, case=2) + rw(8, case=3) + rw(4, SP, case=2) + rw(4, SP, case=3) + rw(5, case=0, threads=3, ops=1, lo=0, hi=2) + rw(4, case=0, threads=2, ops=2, lo=0, hi=2) + rw(2, case=0, threads=4, ops=1, lo=0, hi=2)))])

TP = dict(harness="p04_pool.cc", srcs=["aslam_cv_common/src/thread-pool.cc"], native=dict(sched=True))
def tp(pre, *extra, **p):
    return dict(name="_".join("%s%s" % x for x in p.items()) + "_pre%d%s" % (pre, "s" if extra else ""), params=p, args=["--preemptions", str(pre)] + list(extra))
PROPS["P04"] = dict(units=[dict(TP, name="pool", reach=["execution", "twoClients", "throwing", "nested"], bounds="1-3 workers, 1-4 tasks, 1-2 clients, symbolic groups and arguments; " + SCHED_BOUNDS,
    jobs=dict(quick=[tp(2, case=0, workers=1, tasks=3, end=0), tp(2, case=0, workers=2, tasks=2, end=0), tp(1, case=0, workers=2, tasks=2, end=1), tp(1, case=0, workers=2, tasks=2, end=2), tp(2, case=0, workers=2, tasks=1, end=3), tp(1, case=0, workers=1, tasks=2, end=3),
                     tp(1, case=1), tp(2, case=2), tp(1, case=2, workers=2), tp(2, case=5), tp(1, case=5, workers=2), tp(1, "--spurious", case=0, workers=1, tasks=2, end=0)],
              thorough=[tp(3, case=0, workers=1, tasks=4, end=0), tp(3, case=0, workers=2, tasks=2, end=0), tp(2, case=0, workers=2, tasks=3, end=0), tp(1, case=0, workers=3, tasks=3, end=0), tp(2, case=0, workers=2, tasks=2, end=1), tp(2, case=0, workers=2, tasks=2, end=2), tp(3, case=0, workers=2, tasks=2, end=3),
                     tp(2, case=1), tp(4, case=2), tp(3, case=2, workers=2), tp(4, case=5), tp(3, case=5, workers=2), tp(2, "--spurious", case=0, workers=2, tasks=2, end=0)]))])
PROPS["P05"] = dict(units=[dict(TP, name="pool", reach=["execution", "blockedGroup", "concurrency", "backlog"], bounds="1-3 workers, 2-4 tasks (up to 7 behind two busy workers) in up to 2 groups or none (symbolic), 1-2 clients; " + SCHED_BOUNDS,
    jobs=dict(quick=[tp(1, case=0, workers=2, tasks=3, groups=2, end=0), tp(3, case=0, workers=2, tasks=2, groups=1, end=0), tp(0, case=0, workers=3, tasks=3, groups=2, end=0), tp(0, case=0, workers=2, tasks=4, groups=2, end=2), tp(1, case=1), tp(1, case=3), tp(2, case=4), tp(0, case=7), tp(0, case=7, gate=1), tp(0, case=7, tasks=5), tp(1, case=7, tasks=3)],
              thorough=[tp(2, case=0, workers=2, tasks=3, groups=2, end=0), tp(5, case=0, workers=2, tasks=2, groups=1, end=0), tp(1, case=0, workers=3, tasks=3, groups=2, end=0), tp(1, case=0, workers=2, tasks=4, groups=2, end=2), tp(2, case=1), tp(2, case=3), tp(4, case=4), tp(1, case=7), tp(1, case=7, gate=1), tp(0, case=7, tasks=6), tp(2, case=7, tasks=3)]))])
PROPS["P06"] = dict(units=[dict(TP, name="pool", reach=["execution", "twoClients", "nested", "nestedLate", "concurrency"], bounds="1-2 workers, 1-3 tasks, 1-2 threads waiting at once; " + SCHED_BOUNDS,
    jobs=dict(quick=[tp(2, case=0, workers=2, tasks=2, end=2), tp(3, case=0, workers=1, tasks=2, end=2), tp(1, case=0, workers=2, tasks=3, end=2), tp(2, case=1, workers=1, wait=1), tp(0, case=1, workers=2, wait=1), tp(6, case=5), tp(1, case=5, workers=2), tp(4, case=6), tp(2, case=6, workers=2), tp(1, case=3, waiter=2), tp(0, case=3, waiter=1), tp(1, "--spurious", case=0, workers=1, tasks=1, end=2)],
              thorough=[tp(3, case=0, workers=2, tasks=2, end=2), tp(5, case=0, workers=1, tasks=2, end=2), tp(2, case=0, workers=2, tasks=3, end=2), tp(3, case=1, workers=1, wait=1), tp(1, case=1, workers=2, wait=1), tp(9, case=5), tp(3, case=5, workers=2), tp(8, case=6), tp(3, case=6, workers=2), tp(2, case=3, waiter=2), tp(1, case=3, waiter=1), tp(2, "--spurious", case=0, workers=2, tasks=1, end=2)]))])

TIME = dict(harness="p10_time.cc", srcs=[])
def digits(ns): return [dict(name="text%d%s" % (d, "neg" if g else ""), params=dict(case=4, digits=d, negative=g)) for d in ns for g in (0, 1)]
PROPS["P10"] = dict(units=[dict(TIME, name="time", reach=["compileTime", "fromNano", "toNano", "wholeUnits", "text", "validity"], bounds="all 64-bit timestamps (text: a job per sign and number of digits); all doubles whose conversion does not overflow; whole numbers of a unit up to +-64 (quick) or +-3000 (thorough)",
    jobs=dict(quick=cases(dict(constants=0, fromnano=1, tonano=2, validity=5, whole=dict(case=3, lim=64))) + digits(range(1, 20)),
              thorough=cases(dict(constants=0, fromnano=1, tonano=2, validity=5, whole=dict(case=3, lim=3000), text=4)) + digits(range(1, 20))))])

DESCR = dict(harness="p11_descr.cc", srcs=[])
def hs(n, how, **kw): return dict(name="flip%d_%d%s" % (n, how, "".join("_%s%s" % x for x in kw.items())), params=dict(case=0, bytes=n, how=how, **kw))
def he(n, how): return dict(name="ends%d_%d" % (n, how), params=dict(case=1, bytes=n, how=how))
PROPS["P11"] = dict(units=[dict(DESCR, name="hamming", reach=["hammingStep", "hammingEnds", "unequalSizes"], bounds="descriptors of 16-64 bytes with arbitrary content, every byte position, symbolic bit; 128-496 bytes with arbitrary first and last word and all or no bits differing in between; sizes that are whole 16-byte words up to 31 of them (beyond, the 8-bit counters of the implementation overflow)",
    jobs=dict(quick=[hs(16, h) for h in range(4)] + [hs(32, 3), hs(48, 0)] + [hs(64, 3, byte=b) for b in (0, 17, 40, 63)] + [hs(n, h, ends=16, byte=b) for n, h in ((128, 0), (496, 3)) for b in (2, n - 1)] + [hs(496, 1, ends=16, byte=5, between=0)]
                    + [he(n, h) for n, h in ((16, 0), (48, 1), (64, 2), (256, 3), (496, 0))] + cases(dict(unequal=15)),
              thorough=[hs(n, h) for n in (16, 32, 48) for h in range(4)] + [hs(64, 3)] + [hs(n, h, ends=16, byte=b, between=t) for n in (80, 128, 256, 496) for h in (0, 1, 2, 3) for b in (2, n - 1) for t in (0, 255, 0x35)] + [hs(128, 0, byte=b) for b in (0, 77)]
                    + [he(n, h) for n in range(16, 500, 16) for h in range(4)] + cases(dict(unequal=15))))])
IC = ["--ifconv"]
PROPS["P12"] = dict(units=[dict(DESCR, name="views", reach=["bitsRef", "bitsEigen", "bitsRefused", "flipRandom", "ownership", "randomFill"], bounds="descriptors of 1-4 bytes with arbitrary content and position; all sequences of 3 (quick) or 4 (thorough) operations on two descriptors; random flips of 1 byte with arbitrary random numbers",
    jobs=dict(quick=cases(dict(bits=3, eigen=4, refused=5, random=8)) + cases(dict(one=dict(case=3, bytes=1), four=dict(case=4, bytes=4))) + cases(dict(flips=6), args=IC) + cases(dict(own=dict(case=7, steps=3))),
              thorough=cases(dict(bits=dict(case=3, bytes=16), eigen=dict(case=4, bytes=16), refused=5, random=8)) + cases(dict(flips=6, flips2=dict(case=6, bytes=2, max=3)), args=IC) + cases(dict(own=dict(case=7, steps=4)))))])
PROPS["P13"] = dict(units=[dict(DESCR, name="means", reach=["binaryMean", "noMean", "closestToMedian", "floatMean", "deviations"], bounds="binary mean: up to 16 bytes and 7 descriptors of arbitrary content; fractions: 1-2 bytes, up to 4 descriptors; closest to the median: 3-5 descriptors differing in 8-3 arbitrary bits, and 3-4 far apart (total distances above 255); deviations: up to 5 descriptors differing in up to 3 bits",
    jobs=dict(quick=cases({"mean%d_%d_%d" % (a, r, c): dict(case=9, api=a, rows=r, cols=c) for a, r, c in ((0, 1, 1), (0, 1, 2), (0, 16, 3), (0, 2, 4), (0, 1, 7), (1, 1, 1), (1, 1, 2), (1, 3, 4), (1, 2, 5))}, args=IC)
                    + cases(dict(none=10, closest3=11, closest4=dict(case=11, mask=7, cols=4), closest5=dict(case=11, mask=3, cols=5), closestfar=dict(case=11, mask=1, cols=4, spread=4), closestfar3=dict(case=11, mask=1, cols=3, spread=8), closest1=dict(case=11, cols=1), closest2=dict(case=11, cols=2), fraction1=dict(case=12, cols=1), fraction3=dict(case=12, mask=64), fraction4=dict(case=12, cols=4), dev1=dict(case=13, cols=1), dev2=dict(case=13, cols=2), dev3=13, dev3_3=dict(case=13, bits=3)), args=IC),
              thorough=cases({"mean%d_%d_%d" % (a, r, c): dict(case=9, api=a, rows=r, cols=c) for a in (0, 1) for r in (1, 3, 16) for c in range(1, 9)}, args=IC)
                    + cases(dict(none=10, closest3=11, closest4=dict(case=11, mask=15, cols=4), closest5=dict(case=11, mask=7, cols=5), closestfar=dict(case=11, mask=3, cols=4, spread=4), closestfar3=dict(case=11, mask=7, cols=3, spread=8), fraction4=dict(case=12, cols=4), fraction3=12, fraction5=dict(case=12, rows=2, cols=5), dev5=dict(case=13, cols=5, bits=2), dev4=dict(case=13, cols=4, bits=3)), args=IC))),
    dict(DESCR, name="norm", reach=["squaredNorm"], bounds="1 byte, arbitrary real mean (exact arithmetic)", jobs=cases(dict(norm=14), args=["--real"]))])

CHAN = dict(harness="p15_channels.cc", srcs=["aslam_cv_common/src/channel.cc", "aslam_cv_common/src/channel-serialization.cc", "$VERIF/rt/cvmat.cc"],
            native=dict(libs=["-lglog", "-lopencv_core"], srcs=["aslam_cv_common/src/channel.cc", "aslam_cv_common/src/channel-serialization.cc"]))

def ints(case, pts, w): return cases({"i%d_%s%d_%d" % (case, "m" if v < 0 else "", abs(v), w): dict(case=case, around=v, window=w) for v in pts})
AL = ["--alloc-limit", "1048576"]
PROPS["P15"] = dict(units=[dict(CHAN, name="channels", reach=["matrixTrip", "matricesTrip", "integerTrip", "doubleTrip", "imageTrip", "distinct"],
    bounds="matrices up to 3x3 (thorough 5x5) of 1, 2, 4 and 8 byte elements, lists of up to 3, images up to 2x2 (thorough 3x3) of every depth with 1-3 channels, all with arbitrary content, into fresh or used channels; integers as text: all 16-bit ones and windows of 41 (thorough 2001) values around powers of ten and the ends of the types",
    jobs=dict(quick=cases(dict(bytes=0, points=1, ints=2, nx3=3, fixed=4, lists=5, lists2=6, u16=10, doubles=11, images=12, distinct=13, distinct2=14))
                    + ints(7, (0, -10**9, 2**31 - 15, -2**31 + 15), 20) + ints(8, (0, 10**18, -2**63 + 15), 20) + ints(9, (10**19, -1, 2**63), 20),
              thorough=cases(dict(bytes=dict(case=0, max=5), points=dict(case=1, max=5), ints=dict(case=2, max=8), nx3=dict(case=3, max=6), fixed=4, lists=dict(case=5, max=2, count=4), lists2=dict(case=6, max=4), u16=10, doubles=11, images=dict(case=12, max=3), distinct=dict(case=13, max=4), distinct2=dict(case=14, max=5)))
                    + ints(7, [0, 2**31 - 500, -2**31 + 500] + [s * 10**k for k in range(3, 10) for s in (1, -1)], 1000) + ints(8, [0, 2**63 - 500, -2**63 + 500] + [s * 10**k for k in range(4, 19, 3) for s in (1, -1)], 1000) + ints(9, [0, 2**63, 10**19, 10**15], 1000)))])
PROPS["P16"] = dict(units=[dict(CHAN, name="malformed", reach=["badMatrix", "badMatrices", "badImage", "badScalar", "badMatrixAccepted", "badMatricesAccepted", "badImageAccepted"], args=AL,
    bounds="buffers of 0-24 bytes (lists: 0-49, images with very many channels: 529) in a block of exactly that size; announced sizes 0-3 or one of 7 extreme values, numbers of matrices 0-2 or extreme, arbitrary content, element type and number of channels; allocations above 1 MB fail",
    jobs=dict(quick=cases(dict(bytes=20, points=dict(case=21, size=40), nx3=dict(case=22, size=32), fixed=dict(case=23, size=30), lists=dict(case=24, headers=1, size=48), lists2=dict(case=25, headers=1, size=48), two=dict({"case": 24, "odd": 0, "from": 38, "size": 43}), two2=dict({"case": 25, "odd": 0, "from": 46, "size": 49}), lists22=dict({"case": 28, "headers": 1, "from": 22, "size": 30}), listsN2=dict({"case": 29, "headers": 1, "from": 22, "size": 30}), images=dict(case=26, odd=3), manychannels=dict(case=26, wide=1), scalars=27)),
              thorough=cases(dict(bytes=dict(case=20, size=40), points=dict(case=21, size=70), nx3=dict(case=22, size=60), fixed=dict(case=23, size=40), lists=dict(case=24, headers=1, size=60), lists2=dict(case=25, headers=1, size=70), two=dict({"case": 24, "odd": 1, "from": 30, "size": 50}), two2=dict({"case": 25, "odd": 1, "from": 36, "size": 60}), lists22=dict({"case": 28, "headers": 1, "size": 34}), listsN2=dict({"case": 29, "headers": 1, "size": 34}), images=dict(case=26, size=40), manychannels=dict(case=26, wide=1), scalars=27))))])
PROPS["P17"] = dict(units=[dict(CHAN, name="groups", reach=["groupOps", "groupClone", "groupEqual", "groupTypes"], bounds="all sequences of 4 (thorough 5) operations on three channels; clones and comparisons of groups with any subset of three channels and up to 2 elements of arbitrary content",
    jobs=dict(quick=cases(dict(ops=30, clone=31, equal=32, types=34), args=IC), thorough=cases(dict(ops=dict(case=30, steps=5), clone=31, equal=32, types=34), args=IC, time=1500))),
    dict(CHAN, name="groupThreads", reach=["groupThreads"], native=dict(sched=True, libs=["-lglog", "-lopencv_core"], srcs=CHAN["native"]["srcs"]), bounds="two threads, one or two operations each; " + SCHED_BOUNDS,
    jobs=dict(quick=[tp(3, case=33, how=h) for h in range(3)], thorough=[tp(6, case=33, how=h) for h in range(3)]))])

STL = dict(harness="p18_stl.cc", srcs=[])
RE = ["--real"]
PROPS["P18"] = dict(units=[dict(STL, name="erase", reach=["eraseVector", "eraseRefused", "eraseMatrix"], bounds="lists and matrices of 0-4 (thorough 6) elements, columns or rows of arbitrary content, 0-3 (thorough 4) arbitrary distinct 64-bit positions (any order for lists, ascending for matrices), right and wrong expected counts",
    jobs=dict(quick=cases(dict(list=0, container=dict(case=0, container=1), cols=1, rows=2, colsOf=3, rowsOf=4)),
              thorough=cases(dict(list=dict(case=0, max=6, k=4), container=dict(case=0, container=1, max=5, k=4), cols=dict(case=1, max=6, k=4), rows=dict(case=2, max=6, k=4), colsOf=dict(case=3, max=6, k=4), rowsOf=dict(case=4, max=6, k=4)))))])
PROPS["P19"] = dict(units=[dict(STL, name="lists", reach=["median", "emptyRefused", "keepBest", "draw", "flatten"], bounds="median: every weak order of 1-4 (thorough 5) arbitrary integers or doubles; keeping the best: up to 4 (thorough 5) elements of arbitrary weight, any limit; drawing: up to 3 (thorough 4) elements, arbitrary random numbers, at most 5 of them drawn; flattening: up to 4 columns of arbitrary content",
    jobs=dict(quick=cases(dict([("median%d" % n, dict(case=5, n=n)) for n in (1, 2, 3, 4)] + [("medianD%d" % n, dict(case=6, n=n)) for n in (2, 3, 4)], empty=8, keep=9, draw=dict(case=10, max=3, draws=4), drawFixed=dict(case=10, fixed=1), flat=11)),
              thorough=cases(dict([("median%d" % n, dict(case=5, n=n)) for n in (1, 2, 3, 4, 5)] + [("medianD%d" % n, dict(case=6, n=n)) for n in (1, 2, 3, 4, 5)], empty=8, keep=dict(case=9, max=5), draw=dict(case=10, max=4), drawFixed=dict(case=10, fixed=1, max=8), flat=dict(case=11, max=6))))),
    dict(STL, name="moments", reach=["meanDeviation"], bounds="1-4 (thorough 6) arbitrary reals (exact arithmetic)", jobs=dict(quick=cases({"n%d" % n: dict(case=7, n=n) for n in (1, 2, 3, 4)}, args=RE), thorough=cases({"n%d" % n: dict(case=7, n=n) for n in range(1, 7)}, args=RE)))])
GRID = dict(harness="p20_grid.cc", srcs=["$VERIF/rt/cvmat.cc"], native=dict(srcs=[], libs=["-lglog", "-lopencv_core", "-lopencv_imgproc"]))
def go(c, ops, n, **kw): return cases({"c%d_op%d_%d%s" % (c, o, n, "".join("_%s%s" % x for x in kw.items())): dict(case=c, op=o, points=n, **kw) for o in ops}, args=RE if c in (1, 3) else [])
PROPS["P20"] = dict(units=[dict(GRID, name="grid", reach=["grid", "gridRefused", "gridAccepted", "corner"], bounds="grids of 2x2, 3x2, 1x3 and 3x1 cells (not dividing the area evenly), up to 3 (thorough 4) points at arbitrary positions (reals, or integers inside a 7x5 area) with arbitrary weights (reals or unsigned integers) before one operation with any limit; sequences of up to 3 (thorough 4) operations, at most one (thorough two) of them with a minimum distance; positions within 2 (thorough 16) floating-point steps of the end of an area whose size divides awkwardly",
    jobs=dict(quick=go(1, (0, 1, 2, 3, 4, 9), 3) + go(3, (0, 1, 2, 3, 4, 9), 2) + go(0, (0, 3, 9), 2) + go(1, (1, 3, 4), 2, rows=9, cr=4) + go(1, (2,), 1, rows=4, cols=9) + go(1, (2,), 1, rows=9, cols=3) + go(1, (5,), 1, steps=2, near=1) + go(3, (5,), 1, steps=2) + cases(dict(corner=4)),
              thorough=go(1, (0, 1, 3, 4), 4) + go(1, (2, 9), 3) + go(3, (0, 1, 2, 3, 4, 9), 3) + go(0, (0, 1, 3, 4, 9), 2) + go(1, (0, 1, 2, 3, 4), 3, rows=9, cr=4) + go(1, (2,), 2, rows=4, cols=9) + go(1, (2,), 2, rows=9, cols=3) + go(1, (5,), 1, steps=3, near=1) + go(3, (5,), 1, steps=3, near=1) + cases(dict(corner=dict(case=4, areas=2, below=3)))))])
STATSRC = ["aslam_cv_common/src/statistics.cc", "aslam_cv_common/src/timer.cc"]
STAT = dict(harness="p21_stats.cc", srcs=STATSRC, flags=["-include", "symx_streams.h"], native=dict(srcs=STATSRC, libs=["-lglog"], flags=[]))
PROPS["P21"] = dict(units=[dict(STAT, name="accumulate", reach=["accumulator"], bounds="windows of 1, 3 and unlimited size, 3-5 (thorough 7) arbitrary samples: sums, extremes, counts and window content over doubles, means and variances in exact arithmetic",
    jobs=dict(quick=cases(dict(window=dict(case=0, n=4), unlimited=dict(case=1, n=3), one=dict(case=6, n=3)), args=IC) + cases(dict(windowR=dict(case=0, n=5), unlimitedR=dict(case=1, n=4), oneR=dict(case=6, n=3)), args=RE),
              thorough=cases(dict(window=dict(case=0, n=5), unlimited=dict(case=1, n=5), one=dict(case=6, n=4)), args=IC, time=1500) + cases(dict(windowR=dict(case=0, n=7), unlimitedR=dict(case=1, n=6), oneR=dict(case=6, n=5)), args=RE)))])
def st(pre, *extra, **p): return dict(tp(pre, "--real", *extra, case=5, still=1, **p))
PROPS["P22"] = dict(units=[dict(STAT, name="registry", reach=["registry", "timers", "elapsed", "report"], bounds="all sequences of 4 (thorough 5) registrations, samples and resets over 3 names, all sequences of 4 (thorough 5) operations on two timers; 3 operations with arbitrary sample values and clocks; reports of every set of 3 names with 0-2 samples",
    jobs=dict(quick=cases(dict(names=dict(case=2, values=0, tags=2, steps=4, still=1), timers=dict(case=3, steps=4, still=1), report=dict(case=7, still=1), reportT=dict(case=7, still=1, timing=1))) + cases(dict(values=2, elapsed=4), args=IC),
              thorough=cases(dict(names=dict(case=2, values=0, tags=2, steps=5, still=1), timers=dict(case=3, steps=5, still=1), report=dict(case=7, still=1), reportT=dict(case=7, still=1, timing=1))) + cases(dict(values=dict(case=2, steps=4), elapsed=4), args=IC, time=1500))),
    dict(STAT, name="concurrent", reach=["statThreads"], native=dict(STAT["native"], sched=True), bounds="two threads, one using the registry while the other registers a name and adds a sample; " + SCHED_BOUNDS,
    jobs=dict(quick=[tp(3, case=5, still=1, how=h, timing=t) for h in range(6) for t in (0, 1)], thorough=[tp(8, case=5, still=1, how=h, timing=t) for h in range(6) for t in (0, 1)]))])
DISTSRC = ["aslam_cv_cameras/src/distortion%s.cc" % x for x in ("", "-radtan", "-equidistant", "-fisheye")]
DIST = dict(harness="p23_distortion.cc", srcs=DISTSRC, native=dict(srcs=DISTSRC, libs=["-lglog", "-lgflags"]))
def di(name, c, models, **kw): return cases({"%s%d%s" % (name, m, "".join("_%s%s" % x for x in kw.items())): dict(case=c, model=m, **kw) for m in models}, args=RE)
PROPS["P23"] = dict(units=[dict(DIST, name="jacobians", reach=["pointJacobian", "parameterJacobian", "nothing", "parameterForms"], bounds="exact arithmetic; all points with coordinates up to 8 in magnitude (equidistant: except radii from 1e-10 to 1e-8), all coefficients up to 10 in magnitude (fisheye: the valid ones)",
    jobs=di("point", 0, (1, 2, 3)) + di("parameter", 1, (1, 2, 3)) + di("null", 2, (0,)) + di("internal", 12, (1, 2, 3)))])
PROPS["P24"] = dict(units=[dict(DIST, name="inverse", reach=["closedForm", "centre", "newton", "iteration", "fixpoint", "equiCentre", "undistortForms"], bounds="exact arithmetic; fisheye: all points up to 1000 and all valid coefficients outside the linearised centre and up to 89 degrees; iterative models: one step from any point up to 8 for any coefficients (equidistant: any four on the axis, any one off it), up to two steps on the axis for one set of coefficients and any tolerance from 1e-12 to 1",
    jobs=di("closed", 3, (3,)) + di("centre", 4, (3,)) + di("step", 5, (1,)) + di("axis", 5, (1, 2), axis=1) + [j for f in (1, 2, 4, 8) for j in di("one", 5, (2,), free=f, zero=1)] + di("iterate", 6, (1, 2)) + di("fix", 7, (1,)) + di("small", 8, (2,)) + di("forms", 13, (0, 1, 3)) + di("forms", 13, (2,), free=1, zero=1))])
PROPS["P25"] = dict(units=[dict(DIST, name="models", reach=["formula", "noEffect", "forms", "parameters", "comparison"], bounds="models and call forms in exact arithmetic: all points up to 8, all coefficients up to 10 (fisheye: the valid ones); parameters and comparison: all doubles, 0-6 coefficients",
    jobs=di("formula", 9, (1, 2, 3)) + di("none", 10, (1, 2, 3)) + di("forms", 11, (0, 1, 2, 3)) + cases({"parameters%d" % m: dict(case=14, model=m) for m in range(4)}) + cases(dict(compare=15)))])
TARGETSRC = ["aslam_cv_calibration/src/target-base.cc"]
TARGET = dict(harness="p37_target.cc", srcs=TARGETSRC + ["$VERIF/rt/cvmat.cc"], native=dict(srcs=TARGETSRC, libs=["-lglog", "-lopencv_core", "-lopencv_imgproc"]))
PROPS["P37"] = dict(units=[dict(TARGET, name="target", reach=["targetMade", "targetRefused", "gridInside", "gridOutside", "index", "indexOutside", "extent", "cornerById", "cornerByIndex", "cornerRefused", "correspondences", "observationRefused", "foreignCorner"],
    bounds="targets of 1-3 (thorough 4) rows and columns with arbitrary points, all 64-bit rows, columns and indices; observations of 0-3 (thorough 0-4) different corners of a 2x2 (thorough also 2x3) target in any order, any 32-bit corner asked for",
    jobs=dict(quick=cases(dict(make=0, grid=1, index=2, extent=3, observe=4, invalid=5)),
              thorough=cases(dict(make=0, grid=dict(case=1, max=4), index=dict(case=2, max=4), extent=dict(case=3, max=4), observe=dict(case=4, k=4), observe23=dict(case=4, rows=2, cols=3, k=3), invalid=5))))])
FEDSRC = ["aslam_cv_detector/src/kaze/fed.cpp"]
FED = dict(harness="p39_fed.cc", srcs=FEDSRC, inc=["aslam_cv_detector/include"], native=dict(srcs=FEDSRC, libs=[]))
def fe(ns, **kw): return cases({"n%d%s" % (n, "_order" if kw.get("order") else ""): dict(case=1, n=n, **kw) for n in ns}, args=RE)
def pr(*windows): return cases({"prime%d" % lo: dict(case=0, lo=lo, hi=hi) for lo, hi in windows})
PROPS["P39"] = dict(units=[dict(FED, name="fed", reach=["prime", "steps", "reordered", "cycle", "none"], bounds="primality: every integer up to 100 (negative ones too) and the windows around 11^2, 13^2, 17^2 (thorough: up to 350, and the windows around 29^2 and 101^2); steps: up to 40 (thorough 120) steps, all scales and maximum steps (exact arithmetic on the steps as rounded by the code's constants); cycle times needing up to 12 (thorough 40) steps, up to 7 cycles",
    jobs=dict(quick=pr((-2147483648, 21), (22, 60), (61, 100), (117, 125), (165, 173), (285, 293)) + fe((1, 2, 3, 4, 7, 12, 25, 40)) + fe(tuple(range(1, 15)) + (21, 40), order=1) + cases(dict(cycle=dict(case=2, max=12), cycleO=dict(case=2, max=6, order=1), process=dict(case=2, max=6, cycles=3, unit=1), process7=dict(case=2, max=3, cycles=7), none=3), args=RE),
              thorough=pr((-2147483648, 21), (22, 60), (61, 100), (101, 160), (161, 220), (221, 280), (281, 350), (838, 846), (10197, 10207)) + fe(range(1, 120, 3)) + fe(range(1, 60), order=1) + cases(dict(cycle=dict(case=2, max=40), cycleO=dict(case=2, max=20, order=1), process=dict(case=2, max=20, cycles=3, unit=1), process7=dict(case=2, max=10, cycles=7), none=3), args=RE)))])
KAZESRC = ["aslam_cv_detector/src/kaze/%s.cpp" % x for x in ("KAZE", "fed", "nldiffusion_functions", "utils")]
KAZE = dict(harness="p40_diffusion.cc", srcs=KAZESRC + ["$VERIF/rt/cvmat.cc"], inc=["aslam_cv_detector/include"], native=dict(srcs=KAZESRC, libs=["-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lopencv_highgui", "-lopencv_features2d", "-lopencv_calib3d"]))
KEYP = dict(KAZE, harness="p43_keypoints.cc")
PROPS["P40"] = dict(units=[dict(KAZE, name="diffusion", reach=["explicitStep", "implicitStep", "solver", "conductivity", "noGradient"], bounds="exact arithmetic; images of 2x2 to 4x4 (thorough 6x5) pixels with arbitrary values from -1 to 1 and conductivities from 0 to 1, all explicit step sizes up to 1 and implicit ones up to 100 (brightness of implicit steps: one pattern of conductivities for more than 2x2 pixels); tridiagonal systems of 2-5 (thorough 7) dominant equations; conductivities for all gradients up to 1 and contrasts from 0.01 to 1",
    jobs=dict(quick=cases({"explicit%d%d" % s: dict(case=0, r=s[0], c=s[1]) for s in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (3, 5))}, args=RE) + cases({"implicit%d%d" % s: dict(case=1, r=s[0], c=s[1]) for s in ((2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (3, 4))}, args=RE) +
                    cases({"total%d%d" % s: dict(case=1, what=1, fixed=s != (2, 2), r=s[0], c=s[1]) for s in ((2, 2), (2, 3), (3, 2), (4, 3), (4, 4))}, args=RE) + cases({"solver%d" % n: dict(case=2, n=n, cols=3 - n % 2) for n in (2, 3, 4, 5)}, args=RE) +
                    cases({"conductivity%d" % m: dict(case=3, model=m) for m in range(4)}, args=RE) + cases({"flat%d" % m: dict(case=3, model=m, zero=1) for m in range(4)}),
              thorough=cases({"explicit%d%d" % s: dict(case=0, r=s[0], c=s[1]) for s in ((2, 2), (2, 6), (6, 2), (3, 3), (4, 4), (6, 5))}, args=RE) + cases({"implicit%d%d" % s: dict(case=1, r=s[0], c=s[1]) for s in ((2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (3, 4), (4, 2), (4, 4))}, args=RE, time=600) +
                    cases({"total%d%d" % s: dict(case=1, what=1, fixed=s != (2, 2), r=s[0], c=s[1]) for s in ((2, 2), (2, 3), (3, 2), (4, 3), (6, 5))}, args=RE) + cases({"solver%d" % n: dict(case=2, n=n, cols=3 - n % 2) for n in (2, 3, 4, 5, 6, 7)}, args=RE) +
                    cases({"conductivity%d" % m: dict(case=3, model=m) for m in range(4)}, args=RE) + cases({"flat%d" % m: dict(case=3, model=m, zero=1) for m in range(4)})))])
PROPS["P43"] = dict(units=[dict(KEYP, name="keypoints", reach=["keypoint", "noKeypoint", "closeKeypoints", "farKeypoints", "refined", "refinedAway", "response", "kernels", "contrast"], bounds="exact arithmetic for the numbers of the images; extrema in 3x3 and 3x4 (thorough 4x4 at a fixed threshold) pixels on three levels, all responses up to 10, all thresholds; two keypoints 2-3 (thorough up to 5) pixels apart, all scales; refinement of any keypoint of 4x5 pixels for all responses and shifts; responses at scales 1-4; kernels of scales 2-8 (thorough 20); contrast of 2-4 gradients in 2-4 bins with the largest one and the directions fixed. Image filters return arbitrary images",
    jobs=dict(quick=cases(dict(extrema33=dict(case=0), extrema34=dict(case=0, c=4), refine=dict(case=2), refine3=dict(case=2, levels=3), response=3, kernels=4, contrast34=dict(case=5), contrast44=dict(case=5, r=4, bins=3), contrast44low=dict(case=5, r=4, bins=3, perc=30), contrast35=dict(case=5, c=5, bins=4)), args=RE) + cases(dict(near=dict(case=1), far=dict(case=1, gap=3))),
              thorough=cases(dict(extrema33=dict(case=0), extrema34=dict(case=0, c=4), extrema44=dict(case=0, r=4, c=4, thr=1000), refine=dict(case=2, levels=4), response=3, kernels=dict(case=4, max=20), contrast34=dict(case=5, bins=5), contrast44=dict(case=5, r=4, bins=4), contrast44low=dict(case=5, r=4, bins=4, perc=30), contrast35=dict(case=5, c=5, bins=8)), args=RE, time=800) + cases({"repeated%d" % g: dict(case=1, gap=g) for g in (2, 3, 4, 5)})))])

CAMSRC = ["aslam_cv_cameras/src/" + f for f in ("camera.cc", "camera-pinhole.cc", "camera-unified-projection.cc", "distortion.cc", "distortion-equidistant.cc", "distortion-fisheye.cc", "distortion-radtan.cc")] + ["aslam_cv_common/src/" + f for f in ("sensor.cc", "hash-id.cc", "internal/unique-id.cc")]
NOTIMING = ["-DENABLE_TIMING=FALSE", "-DENABLE_STATISTICS=FALSE", "-DEIGEN_MAX_ALIGN_BYTES=16"]
CAMLIBS = ["-lglog", "-lgflags", "-lprotobuf", "-lyaml-cpp", "-lopencv_core"]
CAM = dict(harness="p26_camera.cc", srcs=CAMSRC + ["$VERIF/rt/cvmat.cc"], proto=True, flags=NOTIMING, native=dict(srcs=CAMSRC + ["$PROTO/aslam/common/id.pb.cc"], libs=CAMLIBS, flags=NOTIMING))
def ca(name, c, models, **kw): return cases({"%s%d%s" % (name, m, "".join("_%s%s" % x for x in kw.items())): dict(case=c, model=m, **kw) for m in models}, args=RE)
PROPS["P26"] = dict(units=[dict(CAM, name="cameras", reach=["visible", "outside", "behind", "notProjectable", "forms", "formsInvalid", "templated", "ray", "noRay", "roundTrip", "box", "badMargin"], bounds="exact arithmetic; all points up to 8 in magnitude not on the plane of the lens (unified: at least 1e-3 from the centre, mirror parameters 0-1, wide: 1-4), all focal lengths and centres from 1/8 to 1000, all coefficients up to 10 (fisheye: the valid ones; where stated in the job: one coefficient, one set of intrinsics), images of 40x30; back-projection: keypoints up to 100, iterative models with one step of the inversion; round trip: no distortion and fisheye; image box: all doubles and floats",
    jobs=ca("project", 0, (0, 1, 2, 3)) + ca("project", 0, (0, 1), unified=1) + ca("project", 0, (0,), unified=1, wide=1) + ca("forms", 1, (0, 1, 3)) + ca("forms", 1, (2,), free=1, zero=1, fixed=1) + ca("forms", 1, (0,), unified=1) + ca("generic", 2, (0, 3)) + ca("back", 3, (0, 1, 3)) + ca("back", 3, (0, 3), unified=1) + ca("back", 3, (0,), unified=1, wide=1) + ca("trip", 4, (0, 3)) + cases(dict(box=5)))])
PROPS["P27"] = dict(units=[dict(CAM, name="derivatives", reach=["pointDerivative", "parameterDerivatives", "homogeneousDerivative"], bounds="exact arithmetic; points, intrinsics and coefficients as for the projection (unified camera: no distortion, radial-tangential with one free coefficient for the point); homogeneous points: pinhole camera, both signs of the last coordinate; points where the projection is valid and away from where a distortion changes its formula",
    jobs=ca("point", 6, (0, 1, 2, 3)) + ca("point", 6, (0,), unified=1) + ca("point", 6, (1,), unified=1, free=1, zero=1, fixed=1) + ca("parameter", 7, (0, 1, 2, 3)) + ca("parameter", 7, (0, 1), unified=1) + ca("homogeneous", 8, (0, 1)))])
RIGSRC = CAMSRC + ["aslam_cv_cameras/src/" + f for f in ("camera-3d-lidar.cc", "camera-factory.cc", "ncamera.cc", "random-camera-generator.cc")]
RIG = dict(harness="p28_rig.cc", srcs=RIGSRC + ["$VERIF/rt/cvmat.cc"], proto=True, flags=NOTIMING, native=dict(srcs=RIGSRC + ["$PROTO/aslam/common/id.pb.cc"], libs=CAMLIBS, flags=NOTIMING))
PROPS["P28"] = dict(units=[dict(RIG, name="rigs", reach=["replaced", "posed", "copied", "newIds", "histories", "rigEquality", "badRig", "covariance"], bounds="rigs of 1-3 cameras, every sequence of 2 (thorough 3) operations (replace a camera, set a pose, copy in any of four ways) with any index",
    jobs=dict(quick=cases(dict(histories=0, equality=1, invalid=2, covariance=3)), thorough=cases(dict(histories=dict(case=0, steps=3), equality=1, invalid=2, covariance=3))))])
PROPS["P29"] = dict(units=[dict(RIG, name="camera", reach=["mask", "badMask", "shutter", "cameraEquality", "valid", "factory", "factoryRefused"], bounds="masks of 3x2 pixels with any bytes, all keypoints up to 1e6 in magnitude; all line delays up to 1 s, heights up to 1e5; all sizes; 0-6 parameters, all doubles; every combination of models with 0-4 coefficients and 3-5 intrinsics",
    jobs=cases(dict(mask=4, shutter=5, equality=6, valid=7, factory=8)))])
FRAMESRC = RIGSRC + ["aslam_cv_frames/src/visual-frame.cc", "aslam_cv_frames/src/visual-nframe.cc"] + ["aslam_cv_common/src/" + f for f in ("channel.cc", "channel-serialization.cc")]
FRAME = dict(harness="p30_frame.cc", srcs=FRAMESRC + ["$VERIF/rt/cvmat.cc"], proto=True, flags=NOTIMING, native=dict(srcs=FRAMESRC + ["$PROTO/aslam/common/id.pb.cc"], libs=CAMLIBS, flags=NOTIMING))
PROPS["P30"] = dict(units=[dict(FRAME, name="frames", reach=["kinds", "types", "noTypes", "discard", "cleared", "copies", "bearings", "noBearing", "rawCoordinates"], bounds="0-3 keypoints of one kind of data, any 64-bit index; 1-2 (thorough 3) types of 0-2 keypoints each with all, half or none of the data, all values; discarding, clearing and copying with 1-2 types of up to 2 keypoints; bearings and raw coordinates in exact arithmetic: keypoints up to 100, pinhole cameras without distortion with any focal lengths and centre, raw camera with none or radial-tangential distortion",
    jobs=dict(quick=cases(dict(kinds=0, types=1, noTypes=2, discard=3, clear=4, copies=5)) + cases(dict(bearings=6, raw=7, raw1=dict(case=7, model=1)), args=RE),
              thorough=cases(dict(kinds=0, types=dict(case=1, blocks=3), noTypes=2, discard=dict(case=3, blocks=3), clear=4, copies=5)) + cases(dict(bearings=6, raw=7, raw1=dict(case=7, model=1), raw3=dict(case=7, model=3)), args=RE)))])
PROPS["P31"] = dict(units=[dict(FRAME, name="nframes", reach=["slots", "times", "nframeEquality", "images", "tracks"], bounds="1-2 cameras, every sequence of 2 (thorough 3) operations (set, unset, new rig, copy, assignment to itself) with any index; all times of 1-3 frames; tracks of 1-3 observations",
    jobs=dict(quick=cases(dict(slots=8, times=9, equality=10, images=11, trackIds=12)) + cases(dict(tracks=12), args=RE), thorough=cases(dict(slots=dict(case=8, steps=3), times=dict(case=9, max=4), equality=10, images=11, trackIds=12)) + cases(dict(tracks=dict(case=12, max=4)), args=RE)))])
