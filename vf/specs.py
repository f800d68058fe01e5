"""The units of every property: harness + real sources + bounds."""
META = {}
_P = {}
BA, LOG, SYNC = "vf/models/ba_model.c", "vf/models/log_model.c", "vf/models/sync_model.c"

def prop(pid, assumptions=()):
    META[pid] = {"assumptions": list(assumptions)}
    def deco(f):
        _P[pid] = f
        return f
    return deco
def units(pid, tier):
    return _P[pid](tier == "thorough")

COARSE = ["src/coarse/coarse.c", "src/ravl/ravl.c", "harness/coarse_seq.c", BA, LOG, SYNC]
def coarse(name, ops, strat=0, als="0,8192", reach=("end",), parts=1, timeout=100, dbg=False, **kw):
    defs = ["VF_OPS=\"%s\"" % ops, "VF_STRAT=%d" % strat, "VF_PAGE=4096", "VF_ALS=" + als]
    defs += [] if dbg else ["NDEBUG"]
    defs += ["%s=%s" % (k, v) for k, v in kw.items()]
    return dict(name=name, srcs=COARSE, defs=defs, reach=list(reach), parts=parts, timeout=timeout,
                bounds="history %s (A/a alloc, b page-multiple alloc, F free, X invalid free, S split, M merge, N add, D free all), "
                       "alignments {%s}, strategy %d, sizes and region 1..2^40 bytes %s" % (ops, als, strat, kw or ""))

@prop("C01", ["metadata allocator: fresh memory or failure (contract model); locks: contract model"])
def C01(th):
    u = []
    AR = ("end", "alloc ok", "alloc refused")
    for st in (0, 1, 2):
        u.append(coarse("hist_s%d_al0" % st, "aAFA", st, "0", parts=8, reach=AR))
        u.append(coarse("hist_s%d_al8k" % st, "aAFA" if st == 0 else "AFA", st, "8192", parts=8, reach=AR))
        u.append(coarse("hist_s%d_al64_2m" % st, "aAX", st, "64,2097152", parts=4, reach=AR + ("bad free",)))
        u.append(coarse("small_s%d" % st, "aaFFA", st, "0", parts=8, VF_MAXSZ=16384, reach=AR))
    u.append(coarse("prov", "AFAA", 0, "0,8192", parts=8, VF_PROV=1, reach=AR))
    u.append(coarse("cbfail", "AFA", 0, "8192", parts=8, VF_CBFAIL=1, reach=AR))
    u.append(coarse("dbg", "AFA", 1, "0,8192", dbg=True, parts=4, reach=AR))
    if th:
        for st in (0, 1, 2):
            u.append(coarse("deep_s%d" % st, "aAFA", st, "0,8192,64", parts=24, timeout=800, reach=AR))
            u.append(coarse("deepb_s%d" % st, "aaFAFA", st, "0", parts=24, timeout=800, reach=AR))
    return u

@prop("C02")
def C02(th):
    u = []
    for st in (0, 1, 2):
        u.append(coarse("drain_s%d" % st, "aaD", st, "0,8192", parts=8, reach=("end", "drained")))
        u.append(coarse("drain3_s%d" % st, "aaaD", st, "0", parts=8, reach=("end", "drained")))
        if th:
            u.append(coarse("drainal_s%d" % st, "aaaD", st, "0,8192", parts=24, timeout=600, reach=("end", "drained")))
        u.append(coarse("drainf_s%d" % st, "aaFAD", st, "0", parts=8, reach=("end", "drained")))
    u.append(coarse("split_drain", "aaSD", 0, "0", parts=8, reach=("end", "drained", "split")))
    u.append(coarse("merge_drain", "bbMD", 0, "0", parts=8, reach=("end", "drained", "merge")))
    u.append(coarse("prov", "NAAFD", 0, "0", parts=8, VF_PROV=1, reach=("end", "drained", "alloc ok")))
    return u

@prop("C03")
def C03(th):
    u = [coarse("split", "aASA", 0, "0", parts=8, reach=("end", "split", "bad split")),
         coarse("merge", "bbbMM", 1, "0", parts=8, reach=("end", "merge", "bad merge")),
         coarse("mergef", "bbFAM", 1, "0", parts=8, reach=("end", "merge", "bad merge")),
         coarse("split_merge", "bSMFA", 2, "0", parts=8, reach=("end", "split", "merge", "bad merge")),
         coarse("cbfail", "bbSM", 0, "0", parts=8, VF_CBFAIL=1, reach=("end", "merge", "split")),
         coarse("prov_merge", "AAMF", 0, "0", parts=8, VF_PROV=1, reach=("end", "bad merge"))]
    return u

@prop("C04")
def C04(th):
    AR = ("end", "alloc ok", "alloc refused")
    u = [coarse("oom_alloc", "aAFA", 0, "0", parts=8, VF_OOM=1, VF_MAXSZ=65536, reach=AR),
         coarse("oom_al", "AFA", 1, "8192", parts=8, VF_OOM=1, reach=AR),
         coarse("oom_split", "bbSMD", 0, "0", parts=8, VF_OOM=1, reach=("end", "split", "merge")),
         coarse("oom_prov", "AAFA", 0, "0", parts=8, VF_OOM=1, VF_PROV=1, reach=AR)]
    return u

BASE = ["harness/base_alloc.c", "src/base_alloc/base_alloc.c", "src/base_alloc/base_alloc_global.c",
        "src/base_alloc/base_alloc_linear.c", "src/base_alloc/base_alloc_linux.c", "src/utils/utils_common.c", LOG, SYNC]
def U(name, srcs, reach=("end",), parts=1, timeout=100, bounds="", dbg=False, threads=False, **kw):
    """keyword arguments in capitals are defines"""
    defs = [] if dbg else ["NDEBUG"]
    d = dict(name=name, srcs=srcs, reach=list(reach), parts=parts, timeout=timeout)
    for k, v in kw.items():
        if k.isupper() or k.startswith("VF_"):
            defs.append("%s=%s" % (k, v))
        else:
            d[k] = v
    if threads:
        d["threads"] = True
        defs.append("VF_THREADS")
    d["defs"] = defs + d.get("defs", [])
    d["bounds"] = bounds + (" [%s]" % " ".join("%s=%s" % (k, v) for k, v in kw.items() if k.startswith("VF_")) if kw else "")
    return d
def Q(s):
    return '"%s"' % s
def system(name, mode, srcs, ren="", **kw):
    return U(name, ["harness/system.c"] + srcs, kw.pop("reach", ("end",)), 4, defs=["%s=vf_%s" % (s, s) for s in ren.split()], VF_MODE=mode, **kw)

@prop("B01", ["anonymous memory of the OS: contract model; locks: contract model"])
def B01(th):
    G = dict(inc=["vf/models"])
    GR = ("end", "alloc", "refused", "free")
    u = [U("global", BASE, GR, 8, VF_MODE=1, VF_OPS=Q("afa"), **G),
         U("global_dbg", BASE, ("end", "alloc"), 4, dbg=True, VF_MODE=1, VF_OPS=Q("AA"), **G),
         U("global_small", BASE, ("end", "alloc", "free"), 8, VF_MODE=1, VF_OPS=Q("AAfA"), **G),
         U("global_oom", BASE, GR, 8, VF_MODE=1, VF_OPS=Q("Aaf"), VF_OOM=1, **G),
         U("grow", BASE, parts=2, VF_MODE=2, VF_N=520, VF_SMALL=0, **G),
         U("grow_oom", BASE, ("end", "refused"), parts=2, VF_MODE=2, VF_N=520, VF_SMALL=0, VF_OOM=2, **G),
         U("threads", BASE, parts=4, threads=True, VF_MODE=4, VF_LINEAR=0, VF_FREE=1, **G),
         U("threads_grow1", BASE, parts=4, dbg=True, threads=True, VF_MODE=4, VF_LINEAR=0, VF_FREE=0, VF_FILL=1, **G),
         U("threads_grow0", BASE, parts=4, dbg=True, threads=True, VF_MODE=4, VF_LINEAR=0, VF_FREE=1, VF_FILL=0, **G)]
    return u

@prop("B02", ["anonymous memory of the OS: contract model; locks: contract model"])
def B02(th):
    G = dict(inc=["vf/models"])
    GR = ("end", "alloc", "free")
    u = [U("hist", BASE, GR, 8, VF_MODE=3, VF_PSZ=20000, VF_OPS=Q("aaafa"), **G),
         U("hist2", BASE, GR, 8, VF_MODE=3, VF_PSZ=20000, VF_OPS=Q("aaffa"), **G),
         U("huge", BASE, GR + ("refused", "foreign"), 8, VF_MODE=3, VF_PSZ=20000, VF_OPS=Q("aAfX"), **G),
         U("dbg", BASE, GR, 8, dbg=True, VF_MODE=3, VF_PSZ=20000, VF_OPS=Q("aaf"), **G),
         U("oom", BASE, GR, 8, VF_MODE=3, VF_PSZ=20000, VF_OOM=2, VF_OPS=Q("aaafa"), **G),
         U("threads", BASE, parts=4, threads=True, VF_MODE=4, VF_LINEAR=1, VF_FREE=0, **G)]
    return u

CRIT = ["harness/critnib.c", "src/critnib/critnib.c", BA, LOG, SYNC]
@prop("M01", ["metadata allocator and locks: contract models", "keys differ in the listed nibbles of the listed base patterns; queries are any 64-bit key"])
def M01(th):
    def c(name, ops, pos="60,4,0", nib=1, bases="0x0ull,~0x0ull", reach=("end",), parts=8, **kw):
        return U(name, CRIT, reach, parts, inc=[], VF_OPS=Q(ops), VF_POS=pos, VF_NIB=nib, VF_BASES=bases,
                 args=["--first", "0"], **kw)
    Z, O, P = "0x0ull", "0x0ull,~0x0ull", "0x123456789abcdef0ull"
    u = [c("get", "iiig", bases=Z), c("getp", "iiig", pos="60,28", bases=P),
         c("le", "iiil", pos="60,4", bases=O), c("le2", "iil", pos="8,4,0", bases=Z), c("le3", "iiil", pos="60,0", bases=P),
         c("find2", "iif", pos="60,4", bases=O), c("find3", "iif", pos="60,28,0", bases=Z),
         c("iter", "iiit", pos="60,0", reach=("end", "iter")),
         c("iter4", "iit", pos="4,0", nib=2, bases="~0x0ull", reach=("end", "iter")),
         c("remove", "iirI*l", pos="60,32", bases=P, reach=("end", "removed", "again")),
         c("remove4", "iiirr*f", pos="8,0", bases=P, reach=("end", "removed")),
         c("remove_any", "iiR*f", pos="56,0", bases=O, reach=("end", "removed")),
         c("grace", "iirCi*g", pos="60,0", bases=P, reach=("end", "removed")),
         c("absent", "iirZii*", pos="60,4", bases=P, reach=("end", "removed")),
         c("update", "iiu*g", pos="60,4", bases=O, reach=("end", "again")),
         c("oom", "iIu*g", pos="60,4", bases=Z, VF_OOM=1, reach=("end", "again", "enomem"))]
    if th:
        u += [c("getz", "iiig", bases=O, timeout=500), c("lez", "iiil", bases=O, timeout=500), c("removez", "iiirI*l", pos="60,32", bases=P, timeout=500),
              c("find4", "iiif", nib=2, pos="60,0", bases=Z, parts=24, timeout=500),
              c("find3b", "iiif", parts=24, timeout=500),
              c("remove3", "iiirI*l", pos="60,32", nib=3, bases=P, parts=24, timeout=500),
              c("grace3", "iirCi*g", pos="60,0", nib=3, bases="0xfedcba9876543210ull", timeout=500),
              c("oom3", "iiIu*g", pos="60,4", nib=3, VF_OOM=1, timeout=500)]
    return u

@prop("M02", ["metadata allocator: contract model; locks: contract model with blocking", "interleavings at every atomic access and lock operation, up to the stated number of preemptions"])
def M02(th):
    C = ["harness/critnib_mt.c"] + CRIT[1:]
    u = [U("get", C, parts=4, threads=True, race=False, preempt=2, VF_MODE=1),
         U("le", C, parts=8, threads=True, race=False, preempt=2, VF_MODE=2),
         U("ge", C, parts=8, threads=True, race=False, preempt=2, VF_MODE=5),
         U("grace_get", C, parts=8, threads=True, race=False, preempt=2, VF_MODE=3),
         U("grace_le", C, parts=8, threads=True, race=False, preempt=2, VF_MODE=6),
         U("grace_find", C, parts=8, threads=True, race=False, preempt=2, VF_MODE=7),
         U("writers", C, parts=4, threads=True, preempt=3, VF_MODE=4),
         U("get_any", C, parts=8, threads=True, race=False, preempt=1, VF_MODE=8),
         U("le_any", C, parts=8, threads=True, race=False, preempt=1, VF_MODE=9)]
    if th:
        u += [U("get3", C, parts=16, timeout=800, threads=True, race=False, preempt=4, VF_MODE=1),
              U("le3", C, parts=24, timeout=800, threads=True, race=False, preempt=4, VF_MODE=2)]
    return u

CN, BAP = "vf/models/critnib_model.c", "vf/models/bapool_model.c"
PROV = ["src/utils/utils_common.c", "src/memory_provider.c", "src/memory_provider_get_last_failed.c"]
TRK = ["harness/tracker.c", "src/provider/provider_tracking.c", "src/ipc_cache.c"] + PROV + [CN, BAP, BA, LOG, SYNC]
def trk(name, ops, reach=("end", "alloc"), parts=8, **kw):
    return U(name, TRK, reach, parts, VF_OPS=Q(ops), bounds="history %s: A/N/O/3.. alloc at nesting level 0/1/2/3.., F free, S split, M merge, Q query; addresses < 2^46, sizes < 2^40" % ops, **kw)
@prop("T01", ["pointer map, metadata pools and locks: contract models (decided by M01, B01)", "upstream blocks of one level are disjoint; nested blocks lie inside one block of the level below"])
def T01(th):
    u = [trk("flat", "AAAFQ", ("end", "alloc", "free")),
         trk("nested", "AANNF", ("end", "alloc", "free")),
         trk("nested2", "AANFN", ("end", "alloc", "free")),
         trk("deep", "ANONF", ("end", "alloc", "free")),
         trk("split", "AASQ", ("end", "split")),
         trk("nsplit", "ANSSF", ("end", "split", "free")),
         trk("merge", "ASMAF", ("end", "split", "merge")),
         trk("nmerge", "ANSMF", ("end", "split", "merge")),
         trk("kmerge", "ASNNM", ("end", "split", "merge")),
         trk("levels", "ANO34567QF", ("end", "alloc", "free"), VF_NL=8),
         trk("levels_split", "ANO34567S", ("end", "alloc", "split"), VF_NL=8),
         trk("dbg", "ANSMF", ("end", "split", "merge"), dbg=True)]
    return u
@prop("T02", ["pointer map, metadata pools and locks: contract models (decided by M01, B01)"])
def T02(th):
    u = [trk("oom_alloc", "ANFA", ("end", "alloc", "refused"), VF_OOM=1),
         trk("oom_split", "ASMF", ("end", "split", "merge"), VF_OOM=1),
         trk("oom_nsplit", "ANSMF", ("end", "split", "merge"), VF_OOM=1),
         trk("levels", "ANO345678F8", ("end", "alloc", "refused", "free"), VF_NL=9),
         trk("up", "ANSMF", ("end", "split", "merge", "refused"), VF_UPFAIL=1),
         trk("up2", "ANFFA", ("end", "free", "refused"), VF_UPFAIL=2)]
    return u

TRM = ["harness/tracker_mt.c"] + TRK[1:]
@prop("T03", ["pointer map, metadata pools and locks: contract models; map operations are atomic", "two threads, every atomic, lock and map operation is a scheduling point"])
def T03(th):
    k = dict(threads=True, preempt=3 if th else 2, parts=8)
    return [U("lookup", TRM, VF_MODE=1, VF_REUSE=1, **k),
            U("reuse", TRM, VF_MODE=2, VF_REUSE=1, race=False, **k),
            U("any", TRM, VF_MODE=6, VF_REUSE=2, race=False, **k),
            U("nested", TRM, VF_MODE=3, VF_REUSE=1, **k),
            U("top", TRM, VF_MODE=4, VF_REUSE=1, **k),
            U("split", TRM, VF_MODE=5, VF_REUSE=2, **k),
            U("split_reuse", TRM, VF_MODE=5, VF_REUSE=1, race=False, **k)]

API = ["harness/api.c", "src/memory_pool.c", "src/provider/provider_tracking.c", "src/ipc_cache.c"] + PROV + [CN, BAP, BA, LOG, SYNC]
@prop("A01", ["metadata allocator: contract model"])
def A01(th):
    u = [U("mandatory", API, ("end", "created", "refused"), 4, VF_MODE=1, VF_GROUP=0),
         U("optional", API, ("end", "created", "refused"), 4, VF_MODE=1, VF_GROUP=1),
         U("dispatch", API, ("end", "call", "refused"), 8, VF_MODE=2, VF_STEPS=3 if th else 2),
         U("dispatch_dbg", API, ("end", "call", "refused"), 4, dbg=True, VF_MODE=2, VF_STEPS=1)]
    return u
@prop("A02", ["metadata allocator, pointer map and locks: contract models"])
def A02(th):
    u = [U("create", API, ("end", "created", "refused", "bad"), 4, VF_MODE=3),
         U("create_oom", API, ("end", "created", "refused"), 4, VF_MODE=3, VF_OOM=1),
         U("create_lock", API, ("end", "created", "refused"), 4, VF_MODE=3, VF_LOCKFAIL=1),
         U("dispatch", API, ("end", "call", "foreign"), 8, VF_MODE=4, VF_STEPS=3 if th else 2),
         U("tracked", API, ("end", "call"), 8, VF_MODE=6, VF_STEPS=2, bounds="two calls through the providers that two pools see"),
         U("tags", API, ("end",), 4, VF_MODE=5, threads=True, preempt=3 if th else 2, bounds="two threads set the tag, one reads it")]
    return u

IPC = ["harness/ipc.c", "src/ipc.c", "src/memory_pool.c", "src/provider/provider_tracking.c", "src/ipc_cache.c"] + PROV + [CN, BAP, BA, LOG, SYNC]
def ipc(name, ops, reach=("end", "handle", "opened"), parts=8, **kw):
    return U(name, IPC, reach, parts, VF_OPS=Q(ops),
             bounds="history %s: A alloc, H handle, P put, O open, C close, F free, T a handle of another process with the same address, X close a foreign address, E bad arguments; two pools as producers and consumers, block sizes up to 2^40" % ops, **kw)
@prop("I01", ["pointer map, metadata pools and locks: contract models", "consumers close a handle before the producer frees the block", "upstream providers: contract model with IPC operations"])
def I01(th):
    return [ipc("basic", "AHOCX"), ipc("two", "AHHOO"), ipc("put", "AHPHOC"), ipc("free", "AHFAHO"), ipc("blocks", "AAHHO"), ipc("bad", "AEHOE", ("end", "bad", "opened")), ipc("twin", "AHTOOC", ("end", "handle", "opened", "twin")), ipc("twin2", "AHTOCO", ("end", "handle", "opened", "twin", "closed"), VF_MAX=Q("1")), ipc("reopen", "AHOCOC", ("end", "closed")),
            ipc("fail", "AHOHO", ("end", "no handle", "not opened"), VF_UPFAIL=1),
            ipc("oom", "AHOHO", ("end", "no handle", "not opened"), VF_OOM=1)]
@prop("I02", ["pointer map, metadata pools and locks: contract models", "consumers close a handle before the producer frees the block"])
def I02(th):
    return [ipc("evict", "AHOCO", VF_MAX=Q("1")), ipc("evict2", "AAHHOCO", VF_MAX=Q("1")), ipc("evict3", "AHOOCO", VF_MAX=Q("2")),
            ipc("inuse", "AAHHOOO", VF_MAX=Q("1")), ipc("stale", "AHOCFAHO", parts=8, VF_MAX=Q("1")),
            ipc("fail", "AHOOCO", ("end", "not opened"), VF_MAX=Q("1"), VF_UPFAIL=1),
            ipc("oom", "AHOOCO", ("end", "not opened"), VF_MAX=Q("1"), VF_OOM=1),
            ipc("renew", "AHOCRO", ("end", "renewed", "opened"), VF_MAX=Q("1")), ipc("renew2", "AAHHOCRO", ("end", "renewed", "opened"), VF_MAX=Q("1")),
            ipc("lock", "AHOO", ("end", "not opened"), VF_LOCKFAIL=1)]
@prop("I03", ["pointer map, metadata pools and locks: contract models; map operations are atomic", "two threads, every lock, map and provider operation is a scheduling point"])
def I03(th):
    def mt(name, mode, what, **kw):
        return U(name, IPC, ("end",), 8, VF_MODE=mode, threads=True, preempt=3 if th else 2, bounds=what + "; block sizes up to 2^40, all positions", **kw)
    return [mt("make", 1, "two threads make handles of any addresses of two blocks"),
            mt("makeput", 3, "two threads make, put and make handles"), mt("makefree", 4, "a handle is made while another block is freed"),
            mt("open", 5, "two threads open and close one handle, all foreign addresses"), mt("open2", 6, "two threads open and close two handles, one mapping is kept", VF_MAX=Q("1")),
            mt("open2idle", 6, "the same with an idle mapping in the cache", VF_MAX=Q("1"), VF_IDLE=1),
            mt("idle", 5, "two threads open and close one handle, the cache is full", VF_MAX=Q("1"), VF_IDLE=1),
            mt("reopen", 7, "two threads open and close a handle and then another, one mapping is kept", VF_MAX=Q("1")),
            mt("each", 8, "two threads with a handler each", VF_MAX=Q("1"), VF_IDLE=1)]

DIS = ["harness/disjoint.c", "src/pool/pool_disjoint.c", "src/utils/utils_common.c", "src/memory_provider.c", "src/memory_provider_get_last_failed.c", CN, BA, LOG, SYNC]
def dis(name, ops, reach=("end", "alloc"), parts=8, **kw):
    return U(name, DIS, reach, parts, VF_OPS=Q(ops), bounds="history %s" % ops, **kw)
@prop("D01", ["pointer map, metadata memory and locks: contract models", "alignments are powers of two"])
def D01(th):
    R = ("end", "alloc", "direct", "refused")
    return [dis("one", "aF", R, VF_SLABS="0,65536", VF_CAPS="1"),
            dis("aligned", "AF", R, VF_SLABS="256", VF_CAPS="1", VF_ALS="8,64,8192"),
            dis("aligned1", "AF", R, VF_SLABS="4096", VF_CAPS="0", VF_ALS="64,2097152", VF_PAGES="1,64"),
            dis("minb", "aA", R, VF_SLABS="4096", VF_CAPS="0", VF_ALS="64", VF_MINB="(1ull<<26)"),
            dis("mix", "AAFA", R[:3], VF_SLABS="256", VF_CAPS="1", VF_ALS="64", VF_MINB=64, VF_MAXSZ=192),
            dis("mix2", "AAA", R[:3], VF_SLABS="128", VF_CAPS="1", VF_ALS="128", VF_MINB=64, VF_MAXSZ=256, VF_PAGES="64"),
            dis("small", "aaFa", R[:3], VF_SLABS="192", VF_CAPS="1", VF_MINB=64, VF_MAXSZ=192),
            dis("dbg", "AaF", R[:3], dbg=True, VF_SLABS="192", VF_CAPS="1", VF_ALS="64", VF_MINB=64, VF_MAXSZ=192, VF_TRACE=3),
            dis("many", "s"*70+"Fs", ("end", "alloc", "from pool"), VF_SLABS="4096", VF_CAPS="1", VF_MINB=64, VF_MINP="4096", VF_MAXP="4096", VF_NB=72)]
@prop("D02", ["pointer map, metadata memory and locks: contract models"])
def D02(th):
    R = ("end", "alloc", "kept")
    return [dis("limit", "aaFFK", R, VF_LIM=1, VF_MINB=64, VF_SLABS="128", VF_CAPS="1", VF_MAXSZ=256),
            dis("limit2", "aaaDK", R, VF_LIM=1, VF_MINB=64, VF_SLABS="64", VF_CAPS="2", VF_MAXSZ=128),
            dis("recreate", "aDCaDK", R, VF_LIM=1, VF_MINB=64, VF_SLABS="128", VF_CAPS="1", VF_MAXSZ=192)]
@prop("D03", ["pointer map, metadata memory and locks: contract models"])
def D03(th):
    return [dis("create", "aF", ("end", "alloc", "not created"), VF_OOM=1, VF_SLABS="64", VF_CAPS="1", VF_MAXSZ=128),
            dis("create_lock", "aF", ("end", "alloc", "not created"), VF_OOM=2, VF_MINB="(1ull<<29)", VF_SLABS="64", VF_CAPS="1", VF_MAXSZ=128),
            dis("oom", "aaFa", ("end", "alloc", "refused"), VF_OOM=1, VF_MINB=64, VF_SLABS="64", VF_CAPS="1", VF_MAXSZ=128),
            dis("up", "AaFa", ("end", "alloc", "refused"), VF_UPFAIL=1, VF_MINB=64, VF_ALS="64", VF_SLABS="256", VF_CAPS="1", VF_MAXSZ=128)]
@prop("D04", ["pointer map, metadata memory and locks: contract models; map operations are atomic", "two threads, every atomic, lock, map and provider operation is a scheduling point"])
def D04(th):
    M = ["harness/disjoint_mt.c"] + DIS[1:]
    k = dict(threads=True, preempt=3 if th else 2, parts=8)
    return [U("same", M, VF_MODE=1, VF_CAP=1, **k), U("limits", M, VF_MODE=2, VF_CAP=1, **k),
            U("limits0", M, VF_MODE=5, VF_CAP=2, **k),
            U("direct", M, VF_MODE=3, VF_CAP=0, **k), U("aligned", M, VF_MODE=4, VF_CAP=1, **k)]

SYSC = ["%s=vf_%s" % (s, s) for s in "open stat mmap munmap madvise ftruncate posix_fallocate close shm_open shm_unlink getpid syscall".split()]
OSP = ["harness/os.c", "src/provider/provider_os_memory.c", "src/utils/utils_posix_common.c", "src/utils/utils_linux_common.c",
       "src/utils/utils_common.c", "src/ctl/ctl.c", CN, BA, LOG, SYNC]
def osp(name, ops, reach=("end", "alloc"), parts=8, **kw):
    return U(name, OSP, reach, parts, defs=SYSC, inc=["vf/models"], VF_OPS=Q(ops),
             bounds="history %s: A alloc, F free, S split, M merge, H export+import, C close import, P purge, R reset of the peak; the kernel grants up to 2^32 bytes at any address" % ops, **kw)
NM = "UMF_NUMA_MODE_"
@prop("O01", ["kernel mappings, hwloc, pointer map, metadata memory and locks: contract models"])
def O01(th):
    R = ("end", "alloc", "refused")
    return [osp("hist", "AAF", R + ("free",), VF_ALS="0,8192"), osp("hist2", "AFA", R + ("free",), VF_ALS="8192"), osp("align", "AF", R, VF_ALS="0,64,12288,(2ull<<20),(1ull<<31),7"),
            osp("shared", "AFA", R, VF_PROTS=2, VF_VIS=1, VF_ALS="0,8192"), osp("refuse", "AAF", R, VF_ALS="8192", VF_KFAIL=1), osp("purge", "AP", R, VF_ALS="8192", VF_KFAIL=1, VF_PROTS=2), osp("dbg", "AF", R, dbg=True)]
@prop("O02", ["kernel mappings, hwloc, pointer map, metadata memory and locks: contract models"])
def O02(th):
    R = ("end", "alloc", "bound")
    k = dict(VF_ALS="0", VF_MAXSZ="(1ull<<34)")
    def m(name, mode, nodes, ops="AA", **kw):
        return osp(name, ops, R, **{**k, "VF_NUMA": NM + mode, "VF_NODES": nodes, **kw})
    return [m("bind", "BIND", 2), m("pref", "PREFERRED", 2), m("pref0", "PREFERRED", 0), m("local", "LOCAL", 0), m("inter", "INTERLEAVE", 3),
            m("parts", "INTERLEAVE", 3, VF_PARTS="4096,8192,5000", VF_MAXSZ="(4*4096)"), m("parts1", "INTERLEAVE", 1, VF_PARTS="8192"),
            m("split", "SPLIT", 3, "A", VF_NPAGES=24), m("split1", "SPLIT", 1, "A", VF_NPAGES=6), m("weights", "SPLIT", 3, "A", VF_WEIGHTS=3, VF_NPAGES=16), m("weights4", "SPLIT", 4, "A", VF_WEIGHTS=4, VF_WMAX=2, VF_NPAGES=12),
            m("fail", "SPLIT", 3, "A", VF_HWFAIL=1, VF_NPAGES=5), m("oom", "SPLIT", 3, "A", VF_OOM=1, VF_NPAGES=5), m("fail2", "INTERLEAVE", 2, "A", VF_PARTS="8192", VF_HWFAIL=1, VF_MAXSZ="(5*4096)"), m("fail3", "BIND", 2, "AA", VF_HWFAIL=1)]
@prop("O03", ["kernel mappings and files, hwloc, pointer map, metadata memory and locks: contract models"])
def O03(th):
    R = ("end", "alloc", "opened")
    return [osp("anon", "AAH", R, VF_VIS=1, VF_ALS="0,8192", VF_MAXSZ="(1ull<<33)"), osp("named", "AHC", R, VF_VIS=2, VF_ALS="0,8192"), osp("named2", "AHH", R, VF_VIS=2, VF_ALS="0"), osp("split", "ASH", R + ("split",), VF_VIS=1, VF_ALS="0"), osp("split8", "ASH", R + ("split",), VF_VIS=1, VF_ALS="8192", VF_MAXSZ="(1ull<<20)"),
            osp("merge", "ASMH", R + ("merge",), VF_VIS=1, VF_ALS="0"), osp("merge2", "AAMH", R + ("not merged",), VF_VIS=1, VF_ADJ=1, VF_ALS="0"),
            osp("reuse", "AFAH", R, VF_VIS=1, VF_ALS="0,8192"), osp("fail", "AHAH", R, VF_VIS=1, VF_ALS="0", VF_KFAIL=1), osp("create", "A", ("end", "not created"), VF_VIS=1, VF_ALS="0", VF_KFAIL=2),
            osp("create_named", "A", ("end", "not created"), VF_VIS=2, VF_ALS="0", VF_KFAIL=1), osp("oom", "ASMH", ("end", "not created"), VF_VIS=1, VF_ALS="0", VF_OOM=1), osp("lock", "A", ("end", "not created"), VF_VIS=2, VF_ALS="0", VF_LOCKFAIL="true"), osp("private", "AH", ("end", "alloc"), VF_ALS="0")]
@prop("O04", ["kernel mappings and files, hwloc, pointer map, metadata memory and locks: contract models"])
def O04(th):
    return [osp("stats", "AAFRA", ("end", "alloc"), VF_ALS="0"), osp("stats_split", "ASFRA", ("end", "alloc"), VF_ALS="0"), osp("stats_fail", "APAF", ("end", "alloc", "refused"), VF_ALS="0", VF_KFAIL=2)]

FILES = ["harness/files.c", "src/provider/provider_file_memory.c", "src/provider/provider_fixed_memory.c", "src/provider/provider_devdax_memory.c",
         "src/coarse/coarse.c", "src/ravl/ravl.c", "src/utils/utils_posix_common.c", "src/utils/utils_linux_common.c", "src/utils/utils_common.c", CN, BA, LOG, SYNC]
def fil(kind, name, ops, reach=("end", "alloc"), parts=8, **kw):
    return U(name, FILES, reach, parts, defs=SYSC, inc=["vf/models"], VF_KIND=kind, VF_OPS=Q(ops),
             bounds="history %s: A alloc, F free, S split, M merge, H export+import, C close import, P purge, D free all; the kernel grants up to 2^32 bytes at any address" % ops, **kw)
@prop("F01", ["kernel mappings and files, pointer map, metadata memory and locks: contract models"])
def F01(th):
    R = ("end", "alloc", "refused")
    return [fil(0, "one", "AF", R, VF_ALS="0,64,8192,(2ull<<20),12288"), fil(0, "al", "AAF", R, VF_ALS="8192"), fil(0, "hist", "AAH", R, VF_ALS="0"), fil(0, "al2m", "AAH", R, VF_ALS="(2ull<<20)"),
            fil(0, "reuse", "AFAH", R, VF_ALS="0"), fil(0, "reuse2", "AFAAH", R, VF_ALS="0", VF_MAXSZ="(5*4096)"), fil(0, "split", "ASH", R + ("split",), parts=1, VF_ALS="0"), fil(0, "merge", "ASMHC", R + ("merge",), VF_ALS="0"),
            fil(0, "adj", "AAADAH", R, VF_ALS="0", VF_ADJ=1, VF_MAXSZ="(4*4096)"), fil(0, "adjm", "AAAMMH", R + ("not merged",), VF_ALS="0", VF_ADJ=1, VF_MAXSZ="(4*4096)"),
            fil(0, "private", "AAHF", R, VF_ALS="0", VF_VIS=0), fil(0, "fsdax", "AAHC", R, VF_ALS="0", VF_DAX=1, VF_MAXSZ="(5ull<<20)"), fil(0, "fsdax1", "AHC", R, VF_ALS="0", VF_DAX=1),
            fil(0, "fail", "AAHP", R, VF_ALS="0", VF_KFAIL=1), fil(0, "create", "A", ("end", "not created"), VF_ALS="0", VF_KFAIL=2), fil(0, "lock", "A", ("end", "not created"), VF_ALS="0", VF_LOCKFAIL="true"),
            fil(0, "params", "AF", R + ("not created", "parameters"), VF_ALS="0", VF_PARAMS=1, VF_MAXSZ="(4*4096)"), fil(0, "oom", "AAF", ("end", "not created"), VF_ALS="0", VF_OOM=1), fil(0, "oom1", "A", ("end", "not created"), VF_ALS="8192", VF_OOM=1)]
@prop("V01", ["kernel mappings and files, pointer map, metadata memory and locks: contract models"])
def V01(th):
    R = ("end", "alloc", "refused")
    return [fil(2, "hist", "AAHFA", R, VF_ALS="0", VF_MAXSZ="(5ull<<20)"), fil(2, "one", "AHA", R, VF_ALS="0"), fil(2, "al", "AH", R, VF_ALS="64,(4ull<<20),12288"), fil(2, "al2", "AA", R, VF_ALS="(4ull<<20)", VF_MAXSZ="(5ull<<20)"), fil(2, "split", "ASH", R + ("split",), parts=1, VF_ALS="0", VF_MAXSZ="(1ull<<26)"), fil(2, "merge", "ASMHC", R + ("merge",), VF_ALS="0"),
            fil(2, "params", "AF", R + ("parameters",), VF_ALS="0", VF_PARAMS=1, VF_MAXSZ="(5ull<<20)"), fil(2, "fail", "AHP", ("end", "not created"), VF_ALS="0", VF_KFAIL=1), fil(2, "oom", "AAF", ("end", "not created"), VF_ALS="0", VF_OOM=1), fil(2, "lock", "A", ("end", "not created"), VF_ALS="0", VF_LOCKFAIL="true")]
@prop("X01", ["pointer map, metadata memory and locks: contract models"])
def X01(th):
    R = ("end", "alloc", "refused")
    return [fil(1, "hist", "AAF", R, VF_ALS="0"), fil(1, "hist2", "AAFA", R, VF_ALS="0", VF_MAXSZ=20000), fil(1, "al", "AAF", R, VF_ALS="8192,12288"), fil(1, "split", "ASFA", R + ("split",), VF_ALS="0"), fil(1, "merge", "ASMFA", R + ("merge",), VF_ALS="0"),
            fil(1, "params", "AF", R + ("parameters",), VF_ALS="0", VF_PARAMS=1), fil(1, "purge", "AP", R, VF_ALS="0", VF_KFAIL=1), fil(1, "oom", "AAF", ("end", "not created"), VF_ALS="8192", VF_OOM=1), fil(1, "lock", "A", ("end", "not created"), VF_ALS="0", VF_LOCKFAIL="true")]

RAVL = ["harness/ravl.c", "src/ravl/ravl.c", BA, LOG]
def rav(name, ops, reach=("end", "inserted"), parts=8, **kw):
    return U(name, RAVL, reach, parts, VF_OPS=Q(ops), bounds="history %s: I insert, R remove, Q query and walk, W walk, X clear; keys are any 64-bit numbers" % ops, **kw)
@prop("M03", ["metadata memory: fresh memory or failure (contract model)"])
def M03(th):
    return [rav("insert", "IIIIIQ", ("end", "inserted", "duplicate", "queried")), rav("remove", "IIIIRQ", ("end", "inserted", "removed", "queried")),
            rav("mix", "IIIRIQ", ("end", "inserted", "removed", "queried")), rav("ptr", "IIIRQ", ("end", "inserted", "removed", "queried"), VF_PTR=1),
            rav("clear", "IIXIQ"), rav("oom", "IIIRIQ", VF_OOM=1)] + ([rav("remove4", "IIIIRRQ", parts=24, timeout=800), rav("mix8", "IIIRIRIQ", parts=24, timeout=800), rav("insert7", "IIIIIIIQ", parts=24, timeout=800), rav("remove6", "IIIIIIRRRQ", parts=24, timeout=800)] if th else [])

CTL = ["harness/ctl.c", "src/ctl/ctl.c", BA, LOG]
def ctl(name, mode, ln, reach, parts=8, b="", **kw):
    return U(name, CTL, ("end",) + reach, parts, VF_MODE=mode, VF_LEN=ln, bounds=b, **kw)
FIO = dict(defs=["%s=vf_%s" % (s, s) for s in "fopen fseek ftell fgetc fclose".split()])
@prop("K01", ["metadata memory: fresh memory or failure (contract model)", "the C library's string functions: models, characters below 128"])
def K01(th):
    return [ctl("bytes", 0, 4 if th else 3, ("found", "nothing"), b="every query string of up to 3 (thorough: 4) bytes, all kinds of query"),
            ctl("tokens", 1, 4, ("found", "nothing", "indexed", "subtree"), b="every query of up to 4 of 10 tokens"),
            ctl("oom", 1, 3, ("found", "nothing", "oom"), b="every query of up to 3 of 10 tokens, one allocation fails", VF_OOM=1),
            ctl("config", 2, 4 if th else 3, ("nothing", "set", "set struct"), b="settings: integers of up to 3 (thorough: 4) arbitrary characters, structures of 288 combinations of fields"),
            ctl("settings", 3, 5 if th else 4, ("read", "two"), b="every string of up to 4 (thorough: 5) of 9 tokens"),
            ctl("file", 4, 4 if th else 3, ("read", "two", "unread", "grown"), b="every file of up to 3 (thorough: 4) of 13 tokens; opening, seeking and telling fail; the file grows", **FIO),
            ctl("fileoom", 4, 2, ("read", "unread"), b="the same, one allocation fails", VF_OOM=1, **FIO)]

PXY = ["harness/proxy.c", "harness/proxy_tu.c", "harness/posix_tu.c", "src/base_alloc/base_alloc_linear.c", "src/base_alloc/base_alloc_linux.c", "src/utils/utils_common.c", LOG, SYNC]
def pxy(name, ops, reach=("end", "created", "alloc"), parts=8, **kw):
    return U(name, PXY, reach, parts, inc=["vf/models"], VF_OPS=Q(ops),
             bounds="history %s: C creation of the pool, A malloc or aligned_alloc, Z calloc, F free, R realloc, U usable size, X free and realloc of NULL, D destruction" % ops, **kw)
@prop("P01", ["the pool, the system allocator and the OS: contract models", "the threshold is a decimal number"])
def P01(th):
    return [pxy("pool", "ACAF", VF_SIZES=7, VF_ALS="0,16,64,4096"), pxy("resize", "ACARF", VF_DIGITS=2, VF_ALS="0"), pxy("resize3", "ACARR", VF_DIGITS=2, VF_SIZES=1, VF_ALS="0"), pxy("leak", "ARRC", VF_SIZES=7), pxy("arrays", "ZCZF", ("end", "created", "calloc"), VF_DIGITS=3), pxy("threshold", "CAAF", VF_DIGITS=2, VF_SIZES=3),
            pxy("usable", "ACAUX", VF_DIGITS=2, VF_SIZES=3), pxy("nest", "CAARF", VF_NEST=1, VF_ALS="0"), pxy("fail", "CARAF", VF_FAIL=1, VF_DIGITS=1), pxy("unload", "CADFA"), pxy("destroy", "ACADAF", VF_PRELOAD=0, VF_ALS="0", VF_SIZES=3)]

LIBU = ["harness/lib.c", "src/memory_pool.c", "src/memory_provider.c", "src/memory_provider_get_last_failed.c", "src/provider/provider_tracking.c", "src/ipc_cache.c", "src/ctl/ctl.c", "src/utils/utils_common.c", LOG, SYNC]
def lib(name, ops, reach=("end", "used"), parts=8, **kw):
    return U(name, LIBU + ["src/libumf.c", "src/pool/pool_proxy.c", "src/critnib/critnib.c", "src/base_alloc/base_alloc.c", "src/base_alloc/base_alloc_global.c", "src/base_alloc/base_alloc_linux.c"],
             reach, parts, inc=["vf/models"], VF_MODE=1, VF_OPS=Q(ops), bounds="history %s: I umfInit, T umfTearDown, U use, ? any of them" % ops, **kw)
@prop("G01", ["the OS and locks: contract models", "memspaces, topology and GPU state: stand-ins that count their destruction"])
def G01(th):
    return [lib("any", "I?????" if th else "I????"), lib("refused", "IU?UT", ("end", "used", "failed", "unused"), VF_FAIL=1), lib("refused2", "IUT", ("end", "used", "failed", "unused"), VF_FAIL=2), lib("lock", "IUT", ("end", "used", "failed"), VF_LOCKFAIL=1), lib("cycles", "IUT", parts=1, VF_CYCLES=104),
            system("topology", 4, ["src/topology.c", LOG, SYNC], reach=("end", "topology", "refused"), VF_STEPS=4 if th else 3, bounds="three (thorough: four) set-ups of the library, each using the topology or not, one failure of hwloc")]
@prop("K02", ["metadata memory: contract model"])
def K02(th):
    return [U("by_handle", LIBU + [CN, BAP, BA], ("end", "asked", "no ctl"), 8, inc=["vf/models"], VF_MODE=2, bounds="queries of three arbitrary characters of the object's own name space, any result of its handler")]

MSP = ["harness/memspace.c", "src/memspace.c", "src/memtarget.c", "src/mempolicy.c", "src/memtargets/memtarget_numa.c", "src/memspaces/memspace_numa.c", "src/memspaces/memspace_host_all.c",
       "src/memspaces/memspace_highest_capacity.c", "src/memspaces/memspace_highest_bandwidth.c", "src/memspaces/memspace_lowest_latency.c", BA, LOG, SYNC]
def msp(name, mode, reach, parts=8, b="", **kw):
    return U(name, MSP, ("end",) + reach, parts, VF_MODE=mode, bounds=b, **kw)
MSH = "history %s of memory space operations: N new, C from array, K clone, A add, R remove, I filter by ids, P by capacity, U by a function, M other type, D destroy; any ids and capacities, 3 nodes"
@prop("S01", ["hwloc, metadata memory and the OS provider's parameters: contract models"])
def S01(th):
    h = lambda n, ops, *reach, **kw: msp(n, 0, reach, b=MSH % ops, VF_OPS=Q(ops), **kw)
    return [h("edit", "CARR", "added", "removed"), h("new", "NARA", "added", "removed"), h("ids", "CAIKA", "added", "filtered"), h("capacity", "CPKA", "filtered"), h("user", "CAUKR", "filtered"), h("types", "NMCM"), h("oom", "CKARIU", "oom", "added", "removed", "filtered", VF_FAIL=1),
            msp("all", 1, ("space",), b="any machine of 3 nodes", VF_WHICH=0), msp("capacities", 1, ("space",), b="any machine of 3 nodes", VF_WHICH=1),
            msp("bandwidth", 1, ("space", "no space"), b="any machine of 2 nodes, one failed query", VF_WHICH=2, VF_NN=2, VF_FAIL=1), msp("latency", 1, ("space", "no space"), b="any machine of 2 nodes, one failed query", VF_WHICH=3, VF_NN=2, VF_FAIL=1),
            msp("space_oom", 1, ("space", "no space"), b="one failure of metadata memory", VF_WHICH=1, VF_NN=2, VF_OOM=1),
            msp("provider", 2, ("provider", "failed"), b="two arbitrary nodes or a predefined space, every policy, one failure", VF_NN=2, VF_FAIL=1)]

L0 = ["harness/levelzero.c", "src/provider/provider_level_zero.c", BA, LOG, SYNC]
def lz(name, ops, reach, parts=8, **kw):
    return U(name, L0, ("end",) + reach, parts, inc=["/usr/include/level_zero"], VF_OPS=Q(ops), bounds="history %s: A alloc, F free, P page size, E last error, X export, open, close; any size, alignment, type, policy and limit, up to 2 resident devices" % ops, **kw)
@prop("L01", ["the Level Zero driver: contract model"])
def L01(th):
    return [lz("config", "", ("refused",), VF_CONFIG=1, VF_RES=1), lz("oom", "A", ("refused",), VF_OOM=1, VF_FAIL=0), lz("hist", "AAFA", ("alloc",)), lz("fail", "APAE", ("alloc", "alloc failed", "refused"), VF_FAIL=1, VF_RES=2), lz("ipc", "AXF", ("alloc", "opened"), VF_FAIL=1, VF_RES=0)]

SCA = ["harness/scalable.c", "src/pool/pool_scalable.c", "src/ctl/ctl.c", BA, LOG, SYNC]
def sca(name, ops, reach=(), parts=8, b="", **kw):
    return U(name, SCA, ("end",) + reach, parts, VF_OPS=Q(ops), bounds="history %s: C create, M malloc, K calloc, R realloc, L aligned, F free, U usable size, Q control query, D destroy, T teardown; any sizes and alignments; regions wanted at any allocation %s" % (ops, b), **kw)
@prop("W01", ["TBB malloc, the provider and the library loader: contract models"])
def W01(th):
    return [sca("config", "CMFD", ("refused", "alloc"), VF_CONFIG=1, VF_PARAMS=1),
            sca("oom", "CQMFD", ("refused", "query"), VF_OOM=1, VF_PARAMS=1, VF_FAIL=1),
            sca("hist", "CMRLUFUMFD", ("alloc", "freed")),
            sca("fail", "CMRFLRFD", ("alloc", "freed", "alloc failed", "free failed", "refused"), VF_FAIL=1),
            sca("array", "CKFD", ("alloc", "alloc failed"), VF_SMALL=1, VF_FAIL=1),
            sca("overflow", "CKD", ("overflow",), b="(arrays: one of eight numbers by any number, in either order)"),
            sca("again", "CQMFDTCQMFDTT", ("query", "alloc"), VF_FAIL=1),
            sca("twofail", "CMRLFD", ("alloc", "freed", "alloc failed", "free failed", "refused"), VF_FAIL=2, VF_PARAMS=1),
            U("proxy", ["harness/scalable.c", "src/pool/pool_proxy.c", BA, LOG, SYNC], ("end", "alloc", "freed", "refused"), 4, VF_PROXY=1, VF_FAIL=1, VF_OOM=1, bounds="three operations of the proxy pool, any sizes and alignments, one failure")]

UTL = ["harness/log.c", "src/utils/utils_common.c"]
@prop("U01", ["streams, clock, environment and error texts: contract models", "printf to a buffer: a model of the conversions used"])
def U01(th):
    log = UTL + ["harness/log_tu.c"]
    hlp = UTL + ["src/utils/utils_posix_common.c", "src/utils/utils_linux_common.c", LOG, SYNC]
    return [U("options", UTL + [LOG], ("end", "found", "not found"), 8, VF_MODE=0, VF_LEN=7 if th else 6, bounds="three option names, with or without argument, all strings of up to 6 (thorough: 7) bytes"),
            U("logger", log, ("end", "message"), 8, VF_MODE=1, VF_PATH=20, bounds="every combination of options, well spelled or not, in 2 orders; messages of every level"),
            U("message", log, ("end", "whole", "cut"), 8, VF_MODE=2, VF_LENS=24, bounds="messages of 1, 101, 201 and 8182 - f .. 8203 - f bytes for function names of f = 1 or 200 bytes; error texts of 1, 20 or 1500 bytes"),
            U("helpers", hlp, ("end", "helpers"), 8, VF_MODE=3, bounds="all flags, errors, pointers and sizes below 2^46, alignments 1, 2, 4K, 64K, 2M and 2^39, paths of up to 5 and thresholds of up to 4 bytes"),
            system("locks", 1, ["src/utils/utils_posix_concurrency.c", LOG], " ".join("pthread_%s" % x for x in "mutex_init mutex_destroy mutex_lock mutex_unlock rwlock_init rwlock_destroy rwlock_rdlock rwlock_wrlock rwlock_unlock once".split()), bounds="every wrapper of a lock with any result; all 64-bit operands of atomics"),
            system("libraries", 2, ["src/utils/utils_load_library.c", LOG], "dlopen dlclose dlsym dlerror", bounds="all flags and results"),
            system("descriptors", 3, ["src/utils/utils_posix_common.c", "src/utils/utils_linux_common.c", "src/utils/utils_common.c", LOG, SYNC], "syscall close fstat", bounds="any process, descriptor and size, either call failing")]
