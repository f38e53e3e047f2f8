"""Case lists of every property. A case list depends on VERIF_SEED and the tier only."""
import itertools
import random

SET = ["nest", "lin", "cs", "cs2", "cs3", "cs4", "pnest", "pcs", "pcs2", "pcs3", "pcs4"]
STORE = ["store", "storecs", "storenf", "pstore", "pstorenf", "mix", "pmix"]  # p: items of the user in a map with a pool; mix: Set and StoreItem
UINT = ["entry", "entrycs", "entrycs3", "pentry"]
CUSTOM = ["citem", "citemcs2", "ditem", "ditemcs"]
EMB = ["emb", "embcs", "embcs3", "embcs4", "embmix"]
NONEMB = SET + STORE + UINT + CUSTOM
ALL = NONEMB + EMB
STR_SHAPES = ["rand", "num", "cluster", "twoclu", "len"]
INT_SHAPES = ["rand", "num", "revnum", "revtail", "bnd", "half", "dense", "ext"]
ORDERS = ["rand", "asc", "desc", "zig", "mid"]
MBS = [1, 2, 3, 4, 5, 8, 12, 16, 32]

# oracles of a sequential run
OPS, READS, RANGE, CHAIN, LEN, SEARCH, HANDLE, IDENT = 1, 2, 4, 8, 16, 32, 64, 128


# how many times the base counts the quick check runs (each takes about half a minute on 8 cores)
SCALE = {"C01": 5, "C02": 4, "C03": 5, "C04": 6, "C05": 6, "C06": 5, "C07": 4, "C08": 1, "C09": 4, "C10": 4, "C11": 1, "C12": 1.5,
         "C13": 3, "C14": 5, "C15": 3, "C16": 4, "C17": 4, "C18": 1.5, "C19": 8, "C20": 6, "C21": 5, "C22": 3, "C23": 2, "C26": 4,
         "C27": 5, "C28": 4, "C29": 10, "C30": 4, "C31": 3}


class Stage:
    def __init__(self, name, binary, cases, env=None, silent=False, shards=None):
        self.name, self.binary, self.cases = name, binary, cases
        self.env, self.silent, self.shards = env or {}, silent, shards


class Plan:
    def __init__(self, fn, level="exploration", rule=""):
        self.fn, self.level, self.rule = fn, level, rule

    def stages(self, tier, seed):
        g = Gen(seed, tier)
        g.scale = SCALE.get(self.pid, 1)
        return [s for s in self.fn(g) if s.cases]


class Gen:
    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self.r = random.Random("verif-%d" % seed)
        self.n = 0

    def t(self, quick, thorough):
        return thorough if self.tier == "thorough" else min(thorough, int(quick * self.scale))

    def sd(self):
        self.n += 1
        return self.seed * 100000 + self.n

    def shapes(self, cfg):
        return INT_SHAPES if cfg in UINT + CUSTOM else STR_SHAPES

    def seq(self, cfgs, o, count, kind="seq", nk=(40, 150), no=(150, 400), dl=25, purge=2, every=97, drain=1, mbs=MBS,
            shapes=None, orders=ORDERS, extra=""):
        """count sequential cases for each configuration, spread over shapes, bucket sizes and orders"""
        out = []
        for c in cfgs:
            sh = [s for s in (shapes or self.shapes(c)) if s in self.shapes(c)] or self.shapes(c)
            # an embedded map with buckets of one item makes up to 53 buckets per key once keys are deleted: too slow for many keys
            cells = list(itertools.product(sh, [m for m in mbs if m > 1 or c not in EMB or nk[1] <= 400], orders))
            self.r.shuffle(cells)
            if c == "rmap":
                purge = 0
            for i in range(count):
                s, m, od = cells[i % len(cells)]
                oo = o & ~HANDLE if c in EMB else o
                out.append("%s cfg=%s shape=%s mb=%d order=%s nk=%d no=%d del=%d purge=%d o=%d every=%d drain=%d seed=%d %s"
                           % (kind, c, s, m, od, self.r.randint(*nk), self.r.randint(*no), dl, purge, oo, every, drain,
                              self.sd(), extra))
        self.r.shuffle(out)
        return out

    def large(self, cfgs, o, n, nk=(70000, 130000), mbs=(8, 16, 32, 64), extra="", dl=10, drain=0):
        """maps with very many keys; contents as a whole are checked three times"""
        return self.seq(cfgs, o, n, nk=nk, no=(5000, 20000), dl=dl, every=0, drain=drain,
                        mbs=list(mbs), shapes=["rand", "num"], extra=extra)

    def conc(self, kind, cfgs, roles, rounds, seeds=1, o=31, extra=""):
        out = []
        for c in cfgs:
            for ro in roles:
                if c == "rmap":
                    oo = 17
                else:
                    oo = o
                if c in CUSTOM and set(ro) & set("UVDP"):
                    continue
                for _ in range(seeds):
                    out.append("%s cfg=%s roles=%s rounds=%d o=%d seed=%d %s" % (kind, c, ro, rounds, oo, self.sd(), extra))
        self.r.shuffle(out)
        return out

    def sched(self, cfgs, roles, rounds, seeds=1, o=31, extra="", name="scheduled"):
        return Stage(name, "sched", self.conc("sched", cfgs, roles, rounds, seeds, o, extra))

    def par(self, cfgs, roles, rounds, seeds=1, o=31, extra="", name="threads", binary="plain", shards=4, env=None):
        return Stage(name, binary, self.conc("par", cfgs, roles, rounds, seeds, o, extra), shards=shards, env=env)


PROPS = {}


def prop(pid, rule, level="exploration"):
    def d(fn):
        PROPS[pid] = Plan(fn, level, rule)
        PROPS[pid].pid = pid
        return fn
    return d


SEQRULE = ("a case is a generated history of operations on one map (configuration, key shape, order of first inserts, bucket "
           "size, share of deletions, seed) checked against a model after each operation; it counts as distinct when what "
           "was observed (fingerprint of iteration order and contents) or the case differs, and nontrivial when it made checks")
CONRULE = ("an execution is one concurrent history: scheduled ones run under a cooperative scheduler that switches between "
           "statements, others on threads; distinct are different interleavings (sequence of switches and sites) or, on threads, "
           "different histories (operations, results, call and return stamps)")


def gor(cases):
    return [c.replace("cfg=pcs4 ", "cfg=gcs4 ") for c in cases if "cfg=pcs4 " in c]


# ---------------------------------------------------------------- sequential behaviour

@prop("C01", SEQRULE)
def _(g):
    o = OPS | READS
    main = g.seq(NONEMB, o, g.t(45, 400))
    big = g.seq(SET + STORE + UINT, o, g.t(2, 12), nk=(1200, 2500), no=(1500, 3000), every=900)
    opt = g.seq(SET + STORE + UINT, o, g.t(5, 50), extra="opt=1")
    return [Stage("very many keys", "plain", g.large(NONEMB, o, g.t(0.2, 4)), shards=1000),
            Stage("sequential", "plain", main + opt + big), Stage("pool goroutine", "plain", gor(g.seq(["pcs4"], o, g.t(8, 60))))]


@prop("C02", SEQRULE)
def _(g):
    o = OPS | READS | RANGE | CHAIN | LEN | SEARCH
    main = g.seq(EMB, o, g.t(180, 2000))
    heavy = g.seq(EMB, o, g.t(60, 500), dl=45)
    onlyp = g.seq(EMB, o, g.t(30, 300), dl=35, purge=1)
    onlyd = g.seq(EMB, o, g.t(30, 300), dl=35, purge=0)
    big = g.seq(EMB, o, g.t(3, 40), nk=(800, 2000), no=(1500, 3000), every=900, mbs=MBS[1:])
    return [Stage("very many keys", "plain", g.large(EMB, o, g.t(0.5, 6)), shards=1000),
            Stage("sequential", "plain", main + heavy + onlyp + onlyd + big)]


@prop("C03", SEQRULE)
def _(g):
    o = OPS | RANGE
    main = g.seq(ALL, o, g.t(30, 300), every=25)
    big = g.seq(["nest", "pcs3", "store", "entry", "emb", "cs2"], o, g.t(2, 12), nk=(1500, 4000), no=(500, 1500), every=900)
    return [Stage("very many keys", "plain", g.large(["nest", "pcs3", "store", "entry", "citem", "emb", "embcs3"], o, g.t(0.2, 4)), shards=1000),
            Stage("sequential", "plain", main + big),
            g.sched(["nest", "cs2", "cs3", "pnest", "store", "entry"], ["WI", "XXI", "UI", "DI", "WDI", "SI"], g.t(40, 300), o=5),
            g.sched(EMB, ["WI", "XXI", "UI", "DI", "PI", "PPI", "WDI", "SI", "VVI", "WPI"], g.t(40, 300), o=5, name="scheduled, embedded"),
            g.par(["nest", "cs2", "pcs3", "store", "entry", "emb", "embcs3"], ["WWIU", "WDII", "XXIV"], g.t(40, 300), o=5,
                  extra="no=60 stable=60 new=60")]


@prop("C04", SEQRULE)
def _(g):
    o = CHAIN | SEARCH
    main = g.seq(ALL, o, g.t(35, 300), every=25)
    big = g.seq(["nest", "pcs3", "store", "entry", "emb", "cs2"], o, g.t(2, 12), mbs=MBS[1:], nk=(1500, 3000), no=(500, 1500), every=900)
    return [Stage("very many keys", "plain", g.large(["nest", "pcs3", "store", "entry", "ditem", "emb", "embcs3"], o, g.t(0.17, 4)), shards=1000),
            Stage("sequential", "plain", main + big),
            g.sched(["nest", "cs2", "cs3", "pnest", "store", "entry", "citem"], ["WN", "WWN", "UN", "XXN", "PN", "WDN"],
                    g.t(40, 300), o=8),
            g.sched(EMB, ["WW", "UU", "WDU", "PPX"], g.t(40, 300), o=8, name="scheduled, embedded"),
            g.par(["nest", "pcs3", "store", "entry"], ["WWNU", "DXXN"], g.t(40, 300), o=8, extra="no=60 stable=60 new=60")]


@prop("C05", SEQRULE)
def _(g):
    main = g.seq(ALL, LEN, g.t(40, 300), dl=35)
    large = g.large(["nest", "pcs3", "store", "entry", "emb"], LEN, g.t(0.17, 2), dl=35, drain=1)
    thou = g.large(ALL, LEN, g.t(0.17, 2), nk=(4000, 12000), dl=35, drain=1)
    return [Stage("sequential", "plain", main), Stage("very many keys", "plain", large, shards=1000), Stage("thousands of keys", "plain", thou),
            g.sched(["nest", "cs2", "pcs3", "store", "entry", "emb", "embcs3"], ["WL", "DL", "XXL", "UUL", "PPL", "WDL", "BBL", "VVX"],
                    g.t(50, 400), o=16),
            g.par(["nest", "pcs3", "store", "entry", "emb"], ["WWDL", "XXXL", "UVUV"], g.t(50, 400), o=16, extra="no=80 new=80 doom=40 shared=40")]


@prop("C06", SEQRULE)
def _(g):
    o = OPS | READS | RANGE | LEN
    dels = [c for c in ALL if c not in CUSTOM]
    main = g.seq(dels, o, g.t(30, 250), dl=50) + g.seq(dels, o, g.t(10, 100), dl=50, purge=1) + \
        g.seq(dels, o, g.t(10, 100), dl=50, purge=0, nk=(5, 20), no=(300, 600))
    often = g.seq(dels, o, g.t(2, 12), dl=50, nk=(1, 4), no=(4000, 8000), every=1999)
    large = g.large(dels, o, g.t(0.5, 3), nk=(6000, 12000), dl=40, drain=1)
    return [Stage("sequential", "plain", main), Stage("the same key very often", "plain", often), Stage("thousands of keys", "plain", large),
            g.sched(["nest", "cs2", "cs3", "pnest", "store", "storenf", "entry", "emb", "embcs3"],
                    ["DD", "PP", "DPR", "VV", "WDU", "UVG"], g.t(40, 300)),
            g.par(["nest", "pcs3", "store", "entry", "emb"], ["DPUV", "DDWW"], g.t(40, 300), extra="no=60 doom=60 new=40")]


# ---------------------------------------------------------------- concurrency

CONC = ["nest", "cs", "cs2", "cs3", "cs4", "pnest", "pcs3", "store", "storenf", "pstore", "pmix", "entry"]


@prop("C07", CONRULE)
def _(g):
    roles = ["UU", "VV", "UUR", "SSG", "HHG", "WDU", "UVG", "DDU", "XXU", "UUUU", "SU"]
    return [g.sched(CONC, roles, g.t(80, 600)),
            g.sched(["nest", "cs3", "pcs3", "store"], ["UU", "VV", "SU", "UUU"], g.t(150, 1000), extra="hot=1 stable=4 no=8", name="one hot key"),
            g.par(["nest", "cs2", "pcs3", "store", "entry"], ["UUUU", "UVSG", "SSGG", "XXUV"], g.t(60, 400), extra="no=60"),
            g.par(["nest", "pcs4", "store"], ["UUVVSSGG"], g.t(20, 150), extra="no=100 hot=6 stable=200", name="threads, larger")]


@prop("C08", CONRULE)
def _(g):
    roles = ["UU", "VV", "UUR", "SSG", "WDU", "UVG", "DDU", "XXU", "UUUU", "DPR", "PXU", "WWG", "WR"]
    return [g.sched(EMB, roles, g.t(120, 900)),
            g.sched(EMB, ["UU", "VV", "SU", "UUU", "VVX"], g.t(150, 1000), extra="hot=1 stable=4 no=8", name="one hot key"),
            g.sched(EMB, ["VVG", "VVS"], g.t(1500, 6000), seeds=g.t(3, 6), extra="hot=6 stable=2 no=20 mb=8 shape=cluster", name="slots used again"),
            g.sched(EMB, ["VVG", "VVV", "VGG"], g.t(800, 3000), extra="hot=5 stable=3 no=15", name="few hot keys"),
            g.par(EMB, ["UUUU", "UVSG", "XXUV", "WDGR"], g.t(60, 400), extra="no=60"),
            g.par(EMB, ["UUVVSSGG"], g.t(15, 150), extra="no=100 hot=6 stable=200", name="threads, larger")]


@prop("C09", CONRULE)
def _(g):
    roles = ["WW", "XX", "WX", "BB", "BBB", "XXX", "WWWW", "WXR", "XXD", "XXDD", "WXP", "SSD"]
    return [g.sched(CONC + ["citem", "ditem"], roles, g.t(60, 500)),
            g.sched(EMB, roles, g.t(60, 500), name="scheduled, embedded"),
            g.par(CONC + EMB, ["WWWW", "XXXX", "BBBB", "XXDD"], g.t(15, 120), extra="new=400 shared=150 stable=50 mb=0"),
            g.par(CONC + EMB, ["WWWWWWWW", "XXXXXXXX", "BBBBBBBB", "WWWXXRRA"], g.t(1, 40), shards=4,
                  extra="new=6000 shared=4000 stable=300 no=300", name="threads, thousands of keys"),
            Stage("pool goroutine", "plain", gor(g.conc("par", ["pcs4"], ["WWWW", "XXXX", "WDUX"], g.t(40, 200), extra="new=100")), shards=2)]


@prop("C10", CONRULE)
def _(g):
    roles = ["WR", "XXR", "DR", "PR", "UR", "WA", "WDRA", "BBA", "SR"]
    return [g.sched(CONC + ["citem", "ditemcs"], roles, g.t(60, 500)),
            g.sched(EMB, roles, g.t(60, 500), name="scheduled, embedded"),
            g.sched(["nest", "cs2", "cs3", "store", "entry"], ["WI", "XXI", "DI", "UN", "WN"], g.t(60, 400), name="scheduled, iteration"),
            g.sched(EMB, ["WI", "PI", "VI", "WPXI"], g.t(60, 400), name="scheduled, iteration, embedded"),
            g.par(["nest", "cs2", "pcs3", "store", "entry", "emb", "embcs3"], ["WWRR", "DXRA", "UVRR"], g.t(40, 250),
                  extra="new=150 no=150 stable=150 doom=60")]


# ---------------------------------------------------------------- memory, races

GCC = "nest cs2 cs3 pnest pcs3 pcs4 store storenf entry entrycs3 citem ditem emb embcs3".split()


@prop("C11", "a case is a history with garbage collections under a sanitizing runtime (pointer checks, collector that checks pointers, freed memory overwritten or unmapped); every value read is compared")
def _(g):
    def gv(n, extra=""):
        return ["gcval cfg=%s mb=%d nk=%d no=%d gc=%d shape=%s seed=%d %s" % (c, g.r.choice([1, 2, 4, 8, 16]), g.r.choice([60, 150, 300]),
                g.r.choice([200, 500]), g.r.choice([1, 3, 7]), g.r.choice(g.shapes(c)), g.sd(), extra)
                for c in GCC + ["rmap"] for _ in range(n)]
    o = OPS | READS | RANGE | CHAIN
    free = {"GODEBUG": "clobberfree=1", "GOGC": "5"}
    # the memory of freed objects is overwritten, taken by others and watched
    stm = (g.seq(NONEMB + EMB, o | LEN, g.t(2, 40), kind="gcstmt", nk=(20, 40), no=(40, 80), extra="gcp=300", mbs=[2, 3, 4, 8, 16])
           + g.seq(["rmap"], OPS | LEN, g.t(3, 40), kind="gcstmt", nk=(20, 40), no=(40, 80), extra="gcp=300")
           + g.seq(SET, o | LEN, g.t(1, 30), kind="gcstmt", nk=(20, 40), no=(40, 80), extra="gcp=300 opt=1", mbs=[2, 3, 4, 8, 16])
           + g.seq(EMB, o | LEN, g.t(4, 60), kind="gcstmt", nk=(20, 50), no=(20, 50), extra="gcp=60", mbs=[4, 8, 16])
           + g.conc("sched", CONC, ["WR", "WXU", "XDR", "WI", "SS"], g.t(2, 30), extra="gcp=400")
           + g.conc("sched", ["rmap"], ["WR", "WXU", "XDR", "SS"], g.t(4, 30), extra="gcp=400")
           + g.conc("sched", EMB, ["WR", "WXU", "XPR", "WPI", "SSV"], g.t(3, 50), extra="gcp=400"))
    return [Stage("freed memory overwritten", "plain", gv(g.t(5, 40)) + g.seq(GCC, o, g.t(5, 40), extra="gc=7")
                  + g.seq(SET, o, g.t(6, 50), extra="gc=7 opt=1"), env=free),
            Stage("freed memory overwritten, thousands of keys", "plain", g.large(["nest", "cs", "cs3", "pnest", "pcs3", "pcs4", "store", "storenf", "pstore", "entry", "citem", "ditem", "emb", "embcs3"], o, g.t(1, 4), nk=(9000, 12000), extra="gc=997"), env=free),
            Stage("objects never reuse memory", "plain", gv(g.t(1, 8)), env={"GODEBUG": "efence=1,clobberfree=1", "GOGC": "20"}),
            Stage("pointers checked", "race", gv(g.t(1, 10)) + g.seq(GCC, o, g.t(4, 30), nk=(30, 80), no=(80, 200)), env={"GOGC": "20"}),
            Stage("address sanitizer", "asan", gv(g.t(1, 10)) + g.seq(GCC, o, g.t(3, 30), extra="gc=11") + g.seq(SET, o, g.t(2, 20), extra="gc=11 opt=1"), env={"ASAN_OPTIONS": "detect_leaks=0"}),
            g.par(["nest", "pcs3", "store", "entry", "emb"], ["WWRU", "XXDI"], g.t(25, 150), o=15,
                  extra="gcbg=1 no=60 new=60", name="threads and collections", env=free),
            g.par(["nest", "pcs3", "store", "emb"], ["WWRU"], g.t(6, 60), o=15, extra="gcbg=1 no=40 new=40", name="threads, pointers checked", binary="race"),
            Stage("collections between statements", "sched", stm, env={"GODEBUG": "clobberfree=1"}),
            Stage("maps on threads, memory reused at once", "plain",
                  ["isopar cfgs=%s nk=600 no=600 seed=%d rounds=1 every=0 o=%d del=5" % (",".join(g.r.choice(grp) for _ in range(6)), g.sd(), OPS)
                   for grp in (POOLED, EMB, ["rmap", "store", "storecs"], NONEMB) for _ in range(g.t(12, 300))], shards=4, env={"GODEBUG": "clobberfree=1", "GOGC": "8"})]


@prop("C12", CONRULE + "; each runs with the race detector, which reports unordered accesses even if nothing went wrong")
def _(g):
    cf = ["nest", "cs", "cs2", "cs3", "cs4", "pnest", "pcs3", "pcs4", "store", "storenf", "entry", "citem"]
    r1 = ["WWRU", "XXDI", "UVSG", "HHGN", "BBL", "WDAL", "SSRI"]
    return [g.par(cf, r1, g.t(10, 80), extra="no=40 new=40", name="race detector", binary="race"),
            g.par(EMB, ["WWRU", "XXDR", "UVSG", "PPSA", "BBL", "WPVI"], g.t(12, 100), extra="no=40 new=40", name="race detector, embedded", binary="race"),
            g.par(["rmap"], ["WRU", "UUG", "XXD", "BBL"], g.t(15, 100), extra="no=40", name="race detector, rmap", binary="race"),
            Stage("race detector, other", "race",
                  ["isopar cfgs=%s nk=60 no=120 rounds=%d seed=%d" % (",".join(g.r.sample(cf + EMB, 3)), g.t(3, 20), g.sd()) for _ in range(g.t(8, 60))]
                  + ["isopar cfgs=%s nk=40 no=40 born=3 rounds=%d seed=%d" % (",".join(g.r.choice(cf + EMB + ["rmap"]) for _ in range(4)), g.t(2, 10), g.sd()) for _ in range(g.t(8, 60))]
                  + ["atomint seed=%d" % g.sd()], shards=4),
            Stage("race detector, pool goroutine", "race", gor(g.conc("par", ["pcs4"], r1, g.t(8, 60), extra="no=40 new=40"))
                  # goroutines of several pools at the same time
                  + ["isopar cfgs=gcs4,gcs4,gcs4 nk=%d no=100 rounds=%d seed=%d every=0" % (g.r.choice([60, 200]), g.t(2, 10), g.sd()) for _ in range(g.t(4, 30))], shards=3)]


# ---------------------------------------------------------------- rmap

@prop("C13", SEQRULE)
def _(g):
    return [Stage("sequential", "plain", g.seq(["rmap"], OPS | READS | LEN, g.t(400, 4000), shapes=STR_SHAPES)
                  + g.seq(["rmap"], OPS | READS | LEN, g.t(100, 1000), dl=50, nk=(3, 20), shapes=STR_SHAPES)
                  + g.seq(["rmap"], OPS | READS | LEN, g.t(60, 600), shapes=STR_SHAPES, extra="any=1")
                  + g.seq(["rmap"], OPS | LEN, g.t(16, 100), shapes=STR_SHAPES, nk=(1000, 3000), no=(2000, 5000))),
            Stage("thousands of keys", "plain", g.seq(["rmap"], OPS | LEN, g.t(1, 20), shapes=["rand", "num", "len"], nk=(6000, 9000), no=(6000, 9000), every=0))]


@prop("C14", CONRULE)
def _(g):
    roles = ["UU", "UUU", "WR", "XX", "DDR", "WDU", "SSG", "BB", "BBL", "UUG", "XXU", "WA", "DL", "WL"]
    return [g.sched(["rmap"], roles, g.t(150, 1000), seeds=g.t(3, 6)),
            g.sched(["rmap"], ["UU", "SU", "UUU", "XXX"], g.t(200, 1000), seeds=3, extra="hot=1 stable=2 no=8", name="one hot key"),
            g.par(["rmap"], ["UUUU", "WWRU", "XXDG", "BBBL", "SSGG"], g.t(100, 600), seeds=2, extra="no=80 new=80")]


# ---------------------------------------------------------------- functions

@prop("C15", "a case hashes generated keys of all lengths and integer types and compares every way to hash them")
def _(g):
    return [Stage("hash", "plain", ["hash seed=%d no=%d ascii=%d" % (g.sd(), g.t(3000, 20000), i % 2) for i in range(g.t(16, 64))]),
            Stage("hash, pointers checked", "race", ["hash seed=%d no=1500" % g.sd() for _ in range(g.t(4, 16))])]


def optcases(g):
    ops = ["max:2", "max:0", "max:-7", "max:8", "max:32", "mode:0", "mode:1", "mode:2", "mode:3", "mode:4", "mode:5", "pool:0", "pool:1", "item"]
    bases = ["", "max:4", "max:16,mode:5", "pool:1,max:8", "mode:1,pool:1", "item,max:4", "max:4,mode:2", "pool:0,mode:4"]
    out, n = [], 0
    for b in bases:
        for o in ops:
            out.append("opts new=%s then=%s seed=%d twice=%d" % (b, o, g.sd(), n % 2))
            n += 1
        for x, y in itertools.combinations(ops, 2):
            if x.split(":")[0] != y.split(":")[0]:
                out.append("opts new=%s then=%s,%s seed=%d twice=%d" % (b, x, y, g.sd(), n % 2))
                n += 1
        for o in ["emb:0", "emb:1"]:
            if "pool:1" not in b:
                out.append("opts new=%s then=%s seed=%d twice=%d apply=0" % (b, o, g.sd(), n % 2))
    for m, lo, hi in ((1, 200, 2000), (2, 130, 900), (4, 90, 400), (8, 40, 180), (16, 20, 90), (32, 12, 45), (64, 8, 30), (400, 1, 20)):
        for e in ("", ",pool:1", ",mode:2", ",mode:4", ",item", ",emb:1"):
            out.append("opts new=max:%d%s then= seed=%d expect=%d-%d %s" % (m, e, g.sd(), lo, hi, "apply=0" if "emb" in e else ""))
    return out


@prop("C16", "a case makes maps with options given in different ways and compares what a user can see; or changes options during a history checked against a model")
def _(g):
    o = OPS | READS | RANGE | LEN
    return [Stage("options", "plain", optcases(g)),
            Stage("switched on the way", "plain", g.seq(SET + STORE + UINT + CUSTOM, o, g.t(10, 100), extra="opt=1")),
            Stage("bucket sizes out of range", "plain", g.seq(NONEMB, o, g.t(1, 8), mbs=[0, -1, -1000], extra="")
                  + g.seq(EMB, o, g.t(4, 40), mbs=[0, -1, -1000], extra=""))]


@prop("C17", "a case runs histories on several maps of different configurations, in turn or on threads, each checked against its own model")
def _(g):
    pool = NONEMB + EMB + ["rmap"]

    def mk(kind, n, extra):
        return ["%s cfgs=%s nk=%d no=%d seed=%d %s" % (kind, ",".join(g.r.choice(pool) for _ in range(g.r.randint(2, 4))), g.r.choice([30, 60, 120]),
                g.r.choice([60, 150]), g.sd(), extra) for _ in range(n)]
    return [Stage("in turn", "plain", mk("iso", g.t(300, 3000), "") + mk("iso", g.t(60, 600), "opt=1")),
            Stage("threads", "plain", mk("isopar", g.t(60, 500), "rounds=5") + mk("isopar", g.t(30, 300), "rounds=3 born=3"), shards=4),
            Stage("pool goroutines", "plain", ["isopar cfgs=gcs4,gcs4,gcs4,gcs4 nk=200 no=200 rounds=2 seed=%d every=0" % g.sd() for _ in range(g.t(10, 80))], shards=4),
            Stage("made by the threads", "race", mk("isopar", g.t(12, 120), "rounds=2 born=3"), shards=4),
            Stage("race detector", "race", ["isopar cfgs=%s nk=200 no=200 seed=%d rounds=2 every=0" % (",".join(g.r.choice(grp) for _ in range(4)), g.sd())
                                            for grp in (["pnest", "pcs3", "pcs", "pcs4", "pmix"], EMB, NONEMB) for _ in range(g.t(2, 20))], shards=4),
            Stage("race detector, pool goroutines", "race", ["isopar cfgs=gcs4,gcs4,gcs4,gcs4 nk=200 no=200 rounds=2 seed=%d every=0" % g.sd() for _ in range(g.t(4, 30))], shards=2),
            Stage("scheduled", "sched", mk("isosched", g.t(40, 300), "rounds=4") + mk("isosched", g.t(20, 200), "rounds=2 born=1")
                  + ["isosched cfgs=%s nk=%d no=%d seed=%d rounds=4" % (",".join(g.r.choice(grp) for _ in range(g.r.randint(2, 3))), g.r.choice([20, 40]), g.r.choice([40, 100]), g.sd())
                     for grp in (["pnest", "pcs3", "pcs", "pcs4", "pmix"], EMB, ["rmap", "rmap", "storecs"], ["nest", "cs2", "cs3"], UINT) for _ in range(g.t(12, 80))]),
            # state of the package is new in every process
            Stage("first use", "sched", ["isosched cfgs=%s nk=%d no=%d seed=%d rounds=1" % (",".join(g.r.choice(grp) for _ in range(g.r.randint(2, 4))), g.r.choice([4, 20]), g.r.choice([8, 40]), g.sd())
                                         for grp in (["pnest", "pcs3", "pcs", "pcs4", "pmix"], EMB, ["rmap", "rmap", "storecs"], NONEMB) for _ in range(g.t(40, 200))], shards=1000),
            Stage("threads, more keys", "plain", ["isopar cfgs=%s nk=1500 no=1500 seed=%d rounds=1 every=0 o=%d del=5" % (",".join(g.r.choice(grp) for _ in range(6)), g.sd(), OPS)
                                         for grp in (["pnest", "pcs3", "pcs", "pcs4", "pmix"], EMB[:2], ["rmap", "store", "storecs"], NONEMB) for _ in range(g.t(6, 60))], shards=24)]


@prop("C18", SEQRULE)
def _(g):
    o = OPS | READS | RANGE | IDENT
    return [Stage("sequential", "plain", g.seq(CUSTOM, o, g.t(160, 1200)) + g.seq(STORE + UINT, o, g.t(80, 600))
                  + g.seq(CUSTOM + STORE + UINT, o | CHAIN, g.t(15, 100), extra="gc=13")
                  + g.seq(STORE + ["pstore", "pstorenf", "mix", "pmix"], o & ~IDENT, g.t(30, 300), extra="raw=1")
                  + g.seq(["embmix"], o & ~IDENT, g.t(30, 300), extra="raw=1")
                  + g.seq(CUSTOM + STORE + UINT, o, g.t(1, 10), nk=(1000, 2000))),
            Stage("thousands of keys", "plain", g.large(STORE + UINT, o, 1, nk=(5000, 12000)) + g.seq(CUSTOM, o, 1, shapes=["rand", "num"], nk=(3000, 6000), no=(1000, 3000), every=0)),
            g.sched(["store", "storenf", "entry", "citem", "citemcs2", "ditem"], ["SSG", "WR", "HHG", "WI", "XXR"], g.t(30, 250))]


@prop("C19", SEQRULE)
def _(g):
    o = OPS | READS | RANGE | CHAIN | LEN
    return [Stage("sequential", "plain", g.seq(CUSTOM, o, g.t(150, 1200), extra="coll=60") + g.seq(CUSTOM, o, g.t(100, 800), extra="coll=95")
                  + g.seq(CUSTOM, o, g.t(5, 40), extra="coll=80", nk=(500, 900))
                  + g.seq(CUSTOM, o, g.t(1, 8), extra="coll=100", nk=(500, 1000), every=400)),
            g.sched(CUSTOM, ["SSG", "WW", "XX", "WR", "XXR", "WI", "WA", "BB"], g.t(40, 300), extra="coll=70"),
            g.par(CUSTOM, ["WWSR", "XXRA"], g.t(30, 200), extra="coll=70 new=60 no=60")]


@prop("C20", SEQRULE)
def _(g):
    o = OPS | READS | RANGE | CHAIN | LEN | SEARCH
    adv = ["revnum", "revtail", "bnd", "half", "dense", "ext"]
    return [Stage("sequential", "plain", g.seq(UINT + CUSTOM, o, g.t(120, 1000), shapes=adv)
                  + g.seq(SET + STORE + EMB, o, g.t(16, 120), shapes=["cluster", "twoclu"])
                  + g.seq(UINT, o, g.t(4, 30), shapes=adv, nk=(300, 900), no=(200, 600), mbs=[1, 2, 4, 8])),
            g.sched(["entry", "entrycs3"], ["WR", "XX", "UU", "WDU", "WI"], g.t(40, 300), extra="shape=half"),
            g.sched(["entry", "entrycs"], ["WR", "XX", "UU", "WWR"], g.t(40, 300), extra="shape=bnd", name="scheduled, around buckets"),
            g.sched(["entry"], ["WR", "XX", "BB"], g.t(40, 300), extra="shape=ext stable=6 new=8", name="scheduled, extremes")]


@prop("C21", SEQRULE)
def _(g):
    o = OPS | READS | RANGE
    return [Stage("thousands of keys", "plain", g.large(ALL, o, g.t(0.2, 2), nk=(4000, 12000), extra="any=1")),
            Stage("sequential", "plain", g.seq(ALL, o, g.t(45, 400), extra="any=1")
                  + g.seq([c for c in NONEMB], o | HANDLE, g.t(10, 100), extra="any=1")
                  + g.seq(["rmap"], OPS | READS | LEN, g.t(45, 400), shapes=STR_SHAPES, extra="any=1"))]


@prop("C22", "a case applies load, store and compare-and-swap to all pairs of special and random integers and counts with many goroutines")
def _(g):
    return [Stage("values and threads", "plain", ["atomint seed=%d no=%d" % (g.sd(), g.t(20000, 100000)) for _ in range(g.t(6, 24))], shards=2),
            Stage("32-bit build", "x86", ["atomint seed=%d no=%d" % (g.sd(), g.t(10000, 50000)) for _ in range(g.t(4, 12))], shards=1),
            Stage("race detector", "race", ["atomint seed=%d no=3000" % g.sd() for _ in range(g.t(3, 12))], shards=1)]


POOLED = ["pnest", "pcs", "pcs2", "pcs3", "pcs4", "pmix"] + EMB


@prop("C23", "a case checks a range of lengths, or fills and empties pools of items so that they grow and are split, against a model")
def _(g):
    o = OPS | READS | RANGE | LEN
    return [Stage("capacity", "plain", ["poolcap from=%d no=5000" % (i * 5000) for i in range(g.t(8, 40))]
                  + ["poolcap from=-1 no=3000 seed=%d" % g.sd() for _ in range(g.t(4, 30))]),
            Stage("growing pools", "plain", g.seq(POOLED, o, g.t(24, 200), shapes=["cluster", "twoclu"], nk=(100, 400))
                  + g.seq(POOLED, o, g.t(24, 200), mbs=[32, 64, 200], nk=(300, 800))
                  + g.seq(POOLED, o, g.t(2, 16), nk=(2000, 5000), no=(500, 1500), every=900))]


@prop("C24", "a case counts statements executed by lookups and updates in a map of n keys and of 16 n keys")
def _(g):
    out = []
    cf = SET + STORE + UINT + ["citem", "citemcs2", "ditem"] + ["emb", "embcs3"]
    for c in cf:
        shs = ["rand", "num", "half", "bnd", "ext", "revnum"] if c in UINT + CUSTOM else ["rand", "num"]
        for mb in (4, 8, 32):
            for sh in g.r.sample(shs, min(len(shs), g.t(3, 6))):
                out.append("cost cfg=%s mb=%d nk=%d grow=16 order=%s shape=%s max=300 seed=%d"
                           % (c, mb, g.t(300, 1000), g.r.choice(["rand", "asc"]), sh, g.sd()))
    more = ["cost cfg=%s mb=%d nk=2500 grow=16 order=%s shape=rand max=300 seed=%d" % (c, g.r.choice([16, 32]), g.r.choice(["rand", "asc"]), g.sd())
            for c in cf for _ in range(g.t(1, 4))]
    return [Stage("statements counted", "sched", out), Stage("statements counted, many keys", "sched", more)]


@prop("C25", SEQRULE)
def _(g):
    o = OPS | HANDLE | IDENT
    return [Stage("thousands of keys", "plain", g.large(["nest", "cs3", "pnest", "pcs3", "pcs4", "store", "pstore", "entry"], o, g.t(1, 6), nk=(6000, 15000))),
            Stage("sequential", "plain", g.seq(NONEMB, o, g.t(50, 400)) + g.seq(NONEMB, o, g.t(10, 80), extra="gc=11")
                  + g.seq(SET + STORE + UINT, o | READS | RANGE | LEN, g.t(20, 160), extra="hdel=1", dl=35)
                  + g.seq(["nest", "pnest", "pcs3", "pcs4", "store", "entry"], o, g.t(3, 30), nk=(800, 2000), no=(800, 1500), every=500)),
            g.sched(["nest", "cs2", "cs3", "pnest", "pcs3", "store", "entry", "citem"], ["HHG", "HWR", "HHXX", "HUU", "HDR"], g.t(40, 300)),
            g.par(["pnest", "pcs3", "nest", "store"], ["HHWW", "HXXR"], g.t(40, 300), extra="new=200 no=80")]


@prop("C26", CONRULE + "; the scheduler gives up after a bounded number of statements and reports operations that wait for each other")
def _(g):
    roles = ["WWRU", "XXDI", "UVSG", "BBL", "DPX", "UUUU"]
    emb = ["WWRU", "XXDR", "UVSG", "BBL", "DPX", "PPUU"]
    return [g.sched(CONC + ["citem"], roles, g.t(40, 300), o=1),
            g.sched(EMB, emb, g.t(80, 600), o=1, name="scheduled, embedded"),
            g.sched(["rmap"], ["WWRU", "XXDR", "UUUU", "BBL"], g.t(80, 600), name="scheduled, rmap"),
            g.par(CONC + EMB, emb, g.t(15, 120), o=1, extra="no=60 new=100"),
            Stage("pool goroutine", "plain", gor(g.conc("par", ["pcs4"], roles, g.t(20, 150), o=1, extra="no=60 new=60")), shards=3),
            Stage("sequential", "plain", g.seq(ALL, OPS, g.t(6, 50), nk=(200, 600)))]


@prop("C27", "a case runs a history with diagnostics (statistics, dumps, log writer) switched on and off, checked against a model")
def _(g):
    def mk(n, extra):
        return ["diag cfg=%s mb=%d nk=%d no=%d shape=%s seed=%d del=25 purge=2 o=%d %s"
                % (c, g.r.choice(MBS), g.r.choice([30, 80, 150]), 250, g.r.choice(g.shapes(c)), g.sd(), OPS | READS | RANGE | LEN, extra)
                for c in ALL for _ in range(n)]

    def iso(kind, n, extra):
        return ["%s cfgs=%s nk=%d no=%d seed=%d %s" % (kind, ",".join(g.r.choice(NONEMB + EMB) for _ in range(4)), g.r.choice([30, 60]), g.r.choice([60, 150]), g.sd(), extra)
                for _ in range(n)]
    STATS = {"VH_STATS": "1"}
    return [Stage("diagnostics", "plain", mk(g.t(6, 50), "stats=1") + mk(g.t(6, 50), "stats=1 toggle=1") + mk(g.t(4, 30), "stats=0")),
            Stage("thousands of keys", "plain", ["diag cfg=%s mb=%d nk=%d no=12 shape=%s seed=%d del=25 purge=2 o=%d stats=%d fill=1 every=0"
                                                 % (c, g.r.choice([8, 16, 32]), g.r.choice([8000, 20000]), g.r.choice(["rand", "num"] if "rand" in g.shapes(c) else ["rand"]), g.sd(),
                                                    OPS | READS | RANGE | LEN, n & 1) for c in ALL for n in range(g.t(0.4, 3))]),
            Stage("nothing printed", "plain", g.seq(ALL, OPS | READS, g.t(10, 80)) + g.conc("par", ["nest", "pcs3", "emb", "store"], ["WWDU", "XXVR"], g.t(20, 100)),
                  silent=True),
            Stage("statistics, threads", "plain", g.conc("par", NONEMB + EMB, ["WWRU", "XXDI", "UVSG", "BBL"], g.t(3, 20), extra="no=60 new=60")
                  + iso("isopar", g.t(12, 100), "rounds=3") + iso("isopar", g.t(12, 100), "rounds=3 born=3"), env=STATS, shards=16),
            Stage("statistics, race detector", "race", g.conc("par", ["nest", "pcs3", "emb", "store", "cs4", "entry", "mix"], ["WWRU", "UVSG"], g.t(1, 10), extra="no=40 new=40")
                  + iso("isopar", g.t(4, 30), "rounds=1") + iso("isopar", g.t(4, 30), "rounds=1 born=2"), env=STATS, shards=8)]


@prop("C28", "a case iterates with a callback that looks up, updates, deletes or inserts keys or iterates again, checked against a model")
def _(g):
    out = []
    for c in NONEMB + EMB:
        acts = ["get,upd,updother,setv,nest", "get,upd,panic,nest", "get,updother,stop"]
        if c in EMB:
            acts += ["get,upd,del,delother", "del,delother", "ins,get,panic", "ins,del,delother,upd,nest,stop"]
        elif c not in CUSTOM:
            acts += ["get,upd,updother,setv", "del,delother", "ins", "nest,get", "get,upd,updother,setv,del,delother,ins,nest", "ins,delother,upd",
                     "ins,del,panic", "get,upd,updother,setv,del,delother,ins,nest,stop"]
        for a in acts:
            for _ in range(g.t(10, 80)):
                out.append("cb cfg=%s range=%d mb=%d nk=%d shape=%s act=%s rounds=5 purge=%d o=%d seed=%d"
                           % (c, g.r.randint(0, 1), g.r.choice(MBS), g.r.choice([20, 60, 150]), g.r.choice(g.shapes(c)), a, 2, OPS | READS | RANGE | LEN, g.sd()))
    g.r.shuffle(out)
    return [Stage("callbacks", "plain", out)]


@prop("C29", "a case stores, overwrites and deletes a fixed set of keys again and again and counts entries")
def _(g):
    out = []
    for c in ALL:
        for _ in range(g.t(10, 80) * (4 if c in EMB else 1)):
            out.append("grow cfg=%s mb=%d nk=%d rounds=%d purge=2 o=%d shape=%s order=%s seed=%d"
                       % (c, g.r.choice([4, 5, 8, 16, 32]), g.r.choice([20, 60, 120]), g.r.choice([6, 15]), OPS | LEN, g.r.choice(["rand", "num"]), g.r.choice(ORDERS), g.sd()))
    g.r.shuffle(out)
    big = ["grow cfg=%s mb=%d nk=%d rounds=4 purge=2 o=%d shape=rand order=%s seed=%d" % (c, g.r.choice([8, 16, 32]), g.r.choice([2000, 5000]), OPS | LEN, g.r.choice(ORDERS), g.sd())
           for c in ALL for _ in range(g.t(0.1, 2))]
    return [Stage("entries counted", "plain", out), Stage("entries counted, thousands of keys", "plain", big),
            g.sched(["nest", "cs3", "store", "emb"], ["SS", "SSS"], g.t(40, 300), o=24)]


@prop("C30", "a case runs a history with operations that cannot work (keys of types not supported, nil items, methods of the user's items that panic) and callbacks that panic, checked against a model")
def _(g):
    o = OPS | READS | RANGE | LEN | CHAIN
    cb = ["cb cfg=%s mb=%d nk=%d shape=%s act=%s rounds=5 purge=2 o=%d seed=%d" % (c, g.r.choice(MBS), g.r.choice([20, 60]), g.r.choice(g.shapes(c)), a, OPS | READS | RANGE | LEN, g.sd())
          for c in NONEMB + EMB for a in ["get,upd,panic"] + ([] if c in CUSTOM else ["ins,del,panic"]) for _ in range(g.t(8, 60))]
    return [Stage("sequential", "plain", g.seq(NONEMB + EMB, o, g.t(30, 250), extra="bad=1") + cb),
            g.sched(CONC + ["ditem"], ["ZR", "ZW", "ZZX", "ZUU", "ZWA"], g.t(40, 300)),
            g.sched(EMB, ["ZR", "ZW", "ZZX", "ZUV", "ZPX"], g.t(40, 300), name="scheduled, embedded"),
            g.par(["nest", "pcs3", "store", "emb", "embcs3"], ["ZWUR", "ZXXZ"], g.t(30, 200), extra="no=60 new=60"),
            Stage("pool goroutine", "plain", gor(g.conc("par", ["pcs4"], ["ZWU", "ZXX"], g.t(20, 150), extra="new=40")), shards=2)]


@prop("C31", "a case runs operations on a map whose values are watched by finalizers, or measures the heap over many maps; afterwards what no key holds must be collected")
def _(g):
    cf = list(dict.fromkeys(NONEMB + EMB + ["pstore", "mix", "pmix", "pentry", "rmap"]))

    def gone(n, extra):
        return ["gone cfg=%s mb=%d shape=%s nk=%d no=%d rounds=%d seed=%d %s" % (c, g.r.choice(MBS), g.r.choice(g.shapes(c)), g.r.choice([20, 60, 150]),
                g.r.choice([300, 1000]), 4, g.sd(), extra) for c in cf for _ in range(n)]
    heap = ["heap cfg=%s mb=%d shape=%s nk=%d maps=%d seed=%d" % (c, g.r.choice([m for m in MBS if m >= 4] if c in EMB else MBS), g.r.choice(g.shapes(c)),
            g.r.choice([100, 300]), g.t(20, 60), g.sd()) for c in cf for _ in range(g.t(1, 8))]
    return [Stage("values", "plain", gone(g.t(6, 40), "")),
            Stage("values, threads", "plain", gone(g.t(3, 30), "threads=4"), shards=8),
            Stage("values, thousands of keys", "plain", ["gone cfg=%s mb=%d shape=rand nk=6000 no=6000 rounds=2 seed=%d" % (c, g.r.choice([8, 16, 32]), g.sd())
                                                        for c in cf for _ in range(g.t(0.34, 3))]),
            Stage("heap", "plain", heap)]
