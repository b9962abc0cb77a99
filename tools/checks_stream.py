"""Checks that replay behaviours of Stream.tla through the public interface."""
import copy, json, os, random, re, shutil
import concurrent.futures as cf
import store, vf, streams as S
from vf import THOROUGH, SEED

RULE = ("random behaviours of Stream.tla (TLC -simulate) give settings and calls; a case counts as "
        "distinct and non-trivial by (settings, calls) with at least one complete frame")


def design(check, config, maxb, invs, faults=False, props=(), pixels=True):
    """the design model this property rests on, exhaustively in a small scope"""
    cfg = vf.constants(PIXELS=pixels, MCConfigs="<-" + config, MaxBytes=maxb, WithFaults=faults) + \
        "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS " + " ".join(invs) + "\n" + \
        ("PROPERTIES " + " ".join(props) + "\n" if props else "")
    return vf.model_check("StreamMC", cfg, check.stats, f"{config}/{maxb}", workers=4)


class Batch:
    """scenarios + replays + cases of one check"""
    """bulk: objects so big that only digests and single pixels go to TLC"""
    def __init__(self, check, name="b", bulk=False):
        self.c, self.name, self.bulk = check, name, bulk
        self.work = os.path.join(vf.scratch(), name)
        self.observed = {}
        self.scs, self.cases, self.meta = [], [], {}
        self.seen = set()

    def add(self, id_, sc, **kw):
        if self.bulk:
            kw["timeout"] = 60
        d = S.scenario(sc, id_, **kw)
        self.scs.append(d)
        self.meta[id_] = (sc, d)

    def run(self, exe, env=None):
        self.evs = S.replay(exe, self.scs, self.work, env=env)
        # a hang may be the machine's: look again, alone
        confirmed = 0
        for id_, e in self.evs.items():
            if S.ended(e) == "hang" and confirmed < 2:
                d = dict(self.meta[id_][1])
                d["timeout"] = 30
                again = S.replay(exe, [d], self.work + "-again", jobs=1, env=env)
                if S.ended(again[id_]) == "hang":
                    confirmed += 1
                else:
                    self.evs[id_] = again[id_]
                    shutil.rmtree(os.path.join(self.work, id_), ignore_errors=True)
                    shutil.move(os.path.join(self.work + "-again", id_), os.path.join(self.work, id_))

    def case(self, id_, want, ref=None, **kw):
        sc, d = self.meta[id_]
        evs = self.evs[id_]
        how = S.ended(evs)
        if how in ("error", "none"):
            raise vf.MachineryError(f"driver error in {id_}: {evs}")
        obs = self.obs(id_)
        c = dict(id=id_, cfg=S.trace_cfg(sc), ops=S.calls(sc, evs), obs=obs,
                 ref=ref if ref is not None else {"<none>": "<none>"}, want=want)
        c.update(kw)
        self.cases.append(c)
        key = json.dumps([sc["cfg"], sc["ops"], d.get("threads"), sc.get("custom")], sort_keys=True)
        if sc.get("tags", {}).get("nf", 1) > 0:
            self.seen.add(key)
        return how

    def obs(self, id_):
        if id_ not in self.observed:
            sc, d = self.meta[id_]
            st = S.load(self.work, id_, sc, s3=not sc["cfg"]["fs"])
            st.probe = random.Random(SEED) if self.bulk else None
            o = self.observed[id_] = st.observe()
            if self.bulk:
                self.c.stats["bytes_in_big_objects"] = self.c.stats.get("bytes_in_big_objects", 0) + \
                    sum(map(len, st.files.values()))
                shutil.rmtree(os.path.join(self.work, id_), ignore_errors=True)
            return o
        return self.observed[id_]

    def judge(self, what):
        res = S.judge(self.cases, self.c.stats, pixels=not self.bulk,
                      extra=vf.constants(PIXELS=False) if self.bulk else "")
        for c in self.cases:
            how = S.ended(self.evs[c["id"]])
            failed = res[c["id"]]
            if how != "ok":
                failed = failed + [f"process: {how}"]
            if failed:
                self.c.violation(f"{what}: {', '.join(failed)}; settings {json.dumps(c['cfg'])[:300]}",
                                 dict(scenario=self.meta[c["id"]][1], failed=failed, ops=c["ops"],
                                      events=self.evs[c["id"]][-3:]))
        st = self.c.stats
        st["evaluations"] = st.get("evaluations", 0) + len(self.cases)
        st["distinct_nontrivial"] = st.get("distinct_nontrivial", 0) + len(self.seen)
        st["rule"] = RULE
        for id_ in list(self.meta)[:2]:
            sc, d = self.meta[id_]
            self.c.sample(dict(id=id_, settings=d["streams"][0], ops=sc["ops"], result=res.get(id_)))


def customs(scs, seed):
    r = random.Random(seed)
    for sc in scs:
        sc["custom"] = r.choice(S.CUSTOMS)
        if r.random() < 0.3:
            for d, n in zip(sc["cfg"]["dims"], r.sample(S.NAMES, len(sc["cfg"]["dims"]))):
                d["n"] = n
    return scs


class Big(list):
    """a group of scenarios with big objects"""


def prepare(check, designs, gens, big=()):
    """builds the driver, checks the design models and generates scenarios, all at once.
    gens: list of (n, profile); big: the same for big objects"""
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(S.driver)
        fd = [ex.submit(design, check, *d) for d in designs]
        fg = [ex.submit(S.generate, n, SEED * 1000 + k, check.stats, **p) for k, (n, p) in enumerate(gens)]
        fl = [ex.submit(bulk, check, n, SEED * 1000 + 500 + k, **p) for k, (n, p) in enumerate(big)]
        exe = fb.result()
        for f in fd:
            f.result()
        scs = [f.result() for f in fg]
        large = Big(x for f in fl for x in f.result())
    # small groups are judged together
    small = [x for g in scs if len(g) <= 20 for x in g]
    return exe, [g for g in scs if len(g) > 20] + ([small] if small else []) + ([large] if large else [])


# objects of more than 5 MiB (the smallest part of a multipart upload) and chunks of more than one
BULK = dict(GDims={3}, GMaxSize=1500, GMaxChunk=1400, GFramePx=2000000, GMaxPixels=9000000,
            GMaxFrames=24, GMinFrames=2, GMaxKeys=80)
PYBULK = dict(GDims={3}, GMultiscale={True}, GMaxChunk=700, GMaxRatio=3, GFramePx=2000000, GMaxPixels=9000000,
              GMaxFrames=12, GMinFrames=2, GMaxKeys=80)


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


def bulk(check, n, seed, **profile):
    """n scenarios with big objects, none too big for this machine"""
    p = (PYBULK if profile.pop("py", False) else BULK) | profile
    out = []
    for sc in S.generate(8 * n + 8, seed, check.stats, **p):
        c, d = sc["cfg"], sc["cfg"]["dims"]
        chunk = prod(x["c"] for x in d) * c["bpp"]
        layers = -(-sc["tags"]["nf"] // d[0]["c"])
        plane = prod(-(-x["s"] // x["c"]) for x in d[1:])
        shard = chunk if c["v"] == 2 else chunk * min(layers, d[0]["h"]) * \
            prod(min(x["h"], -(-x["s"] // x["c"])) for x in d[1:])
        stored = chunk * plane * layers
        if shard > 5 << 20 and stored < 48 << 20:
            out.append(sc)
    return out[:n]


def scale(n):
    return n * 8 if THOROUGH else n


ROUNDS = 1


def batches(check, groups, size):
    """the groups in batches: (id prefix, scenarios, batch)"""
    for g, scs in enumerate(groups):
        large = isinstance(scs, Big)
        n = 30 if large else size
        for lo in range(0, len(scs), n):
            yield g, lo, scs[lo:lo + n], Batch(check, f"g{g}-{lo}", bulk=large)


def simple(pid, aspects, designs, gens, what, custom=False, big=(), then=None):
    """aspects of the big objects: with 'points' for 'pixels'"""
    check = vf.Check(pid)
    if THOROUGH:
        gens = [(n * 8, p) for n, p in gens]
        big = [(n * 8, p) for n, p in big]
    exe, groups = prepare(check, designs, gens, big)
    if custom:
        for g, scs in enumerate(groups):
            customs(scs, SEED + g)
    for g, lo, scs, b in batches(check, groups, 400):
        for k, sc in enumerate(scs):
            b.add(f"g{g}c{lo + k}", sc)
        b.run(exe)
        for id_ in b.meta:
            b.case(id_, [dict(pixels="points", pyramid="pyramidpoints").get(a, a) for a in aspects] if b.bulk
                   else aspects)
        b.judge(what)
    if then:
        then(check, exe)
    return check.finish()


WIDE = dict(GDims={3, 4}, GMaxSize=26, GMaxFrames=12, GMaxPixels=900)
LONG = dict(GDims={3}, GMaxSize=3, GMaxFrames=48, GMaxPixels=300)
# sizes and numbers beyond what a byte, a page or one digit holds
BIG = dict(GDims={3, 4}, GMaxSize=180, GMaxChunk=130, GFramePx=20000, GMaxPixels=40000, GMaxFrames=6, GMinFrames=1)
MANY = dict(GDims={3}, GMaxSize=3, GMaxFrames=400, GMinFrames=200, GMaxPixels=2000, GMaxKeys=900)
DIMS = dict(GDims={6, 7, 8}, GMaxSize=4, GMaxFrames=100, GMinFrames=1, GMaxPixels=1500, GMaxInner=2, GMaxKeys=300)
INNER = dict(GDims={4}, GMaxSize=4, GMaxFrames=100, GMinFrames=1, GMaxPixels=1500, GMaxInner=14, GMaxKeys=300,
             GMaxShard=9)
# hundreds of chunks in a layer
FLAT = dict(GDims={3}, GMaxSize=70, GMaxChunk=4, GFramePx=5000, GMaxPixels=12000, GMaxFrames=3, GMinFrames=1,
            GMaxKeys=2500)
PYBIG = dict(GMultiscale={True}, GMaxChunk=40, GMaxRatio=3, GFramePx=8000, GMaxPixels=40000, GMaxFrames=8,
             GMinFrames=2, GDims={3, 4})
PYDEEP = dict(GMultiscale={True}, GMaxChunk=3, GMaxRatio=34, GFramePx=1400, GMaxPixels=60000, GMaxFrames=70,
              GMinFrames=1, GDims={3}, GMaxKeys=1200)
PYMANY = dict(GMultiscale={True}, GMaxChunk=3, GMaxRatio=5, GFramePx=400, GMaxPixels=9000, GMaxFrames=90,
              GMinFrames=24, GDims={3}, GMaxKeys=600)


def more(fs={True, False}, py=True, k=1, **kw):
    """the profiles above, a few of each"""
    ps = [BIG, MANY, DIMS, INNER, FLAT] + ([PYBIG, PYDEEP, PYMANY] if py else [])
    return [(k * n, p | dict(GFs=fs) | kw) for n, p in zip([8, 8, 10, 10, 6, 6, 4, 6], ps)]


def c01():
    return simple("C01", ["pixels"],
                  [("CfgSmall", 5, ["TypeOK", "NoLoss"]), ("CfgDeep", 6, ["NoLoss", "PlacesAgree"])],
                  [(260, dict(GFs={True, False}, GMinFrames=1)),
                   (60, dict(GMultiscale={True}, GMaxSize=9, GMinFrames=1)),
                   (50, WIDE), (40, LONG)] + more(),
                  "decoded pixels differ from the appended ones", big=[(10, {})], then=both(huge, tall("points", "shape")))


def c03():
    return simple("C03", ["keys"],
                  [("CfgSmall", 5, ["KeysExact"]), ("CfgPyramid", 5, ["KeysExact"])],
                  [(220, dict(GFs={True, False})), (120, dict(GMultiscale={True}, GMaxSize=13)),
                   (60, WIDE), (40, LONG)] + more(),
                  "keys of the store differ from the grid's", then=tall("keys"))


def c04():
    return simple("C04", ["docs"],
                  [("CfgSmall", 5, ["Truth"]), ("CfgPyramid", 5, ["Truth"])],
                  [(260, dict(GFs={True, False})), (140, dict(GMultiscale={True}, GMaxSize=13)),
                   (40, LONG)] + more(),
                  "metadata does not describe the data", custom=True, then=both(tall("shape"), long_docs))


def c08():
    return simple("C08", ["pyramid"],
                  [("CfgPyramid", 5, ["NoLoss", "Conservation", "PlacesAgree"])],
                  [(150, dict(GMultiscale={True}, GMaxSize=13, GMaxPixels=1600, GMinFrames=2)),
                   (80, dict(GMultiscale={True}, GMaxSize=13, GMaxPixels=1600, GDims={3}, GMinFrames=4)),
                   (50, dict(GMultiscale={True}, GDims={3, 4}, GMaxFrames=48, GMinFrames=16,
                             GMaxPixels=1600, GCuts="bytes", GPartial=True)),
                   (14, PYBIG), (6, PYDEEP), (14, PYMANY)],
                  "a level is not the local mean of the level below", big=[(6, dict(py=True))])


def frames_of(sc):
    c = sc["cfg"]
    return c["dims"][-1]["s"] * c["dims"][-2]["s"] * c["bpp"]


def c02():
    """the same bytes, cut differently"""
    check = vf.Check("C02")
    n = scale(1)
    exe, groups = prepare(check, [("CfgTiny", 4, ["TypeOK", "Conservation", "LayerBookkeeping"], True,
                                   ("Sticky",)),
                                  ("CfgPyramid", 4, ["Conservation", "NoLoss"])],
                          [(150 * n, dict(GCuts="bytes", GPartial=True, GFs={True, False})),
                           (90 * n, dict(GCuts="bytes", GPartial=True, GMultiscale={True}, GMaxSize=9)),
                           (40 * n, dict(GCuts="bytes", GPartial=True, GDims={3}, GMaxSize=3,
                                         GMaxFrames=40, GMaxPixels=300))] +
                          more(k=n, GCuts="bytes", GPartial=True),
                          [(8 * n, dict(GCuts="bytes", GPartial=True))])
    for g, lo, scs, b in batches(check, groups, 300):
        for k, sc in enumerate(scs):
            one = dict(sc)
            whole = sum(o.get("n", 0) for o in sc["ops"])
            whole -= whole % frames_of(sc)  # the incomplete frame leaves no trace
            one["ops"] = [{"op": "create"}] + ([{"op": "append", "n": whole}] if whole else []) + \
                         [{"op": "destroy"}]
            b.add(f"g{g}c{lo + k}", sc)
            b.add(f"g{g}c{lo + k}-one", one)
            # one frame at a time as well: the two must agree with each other too
        b.run(exe)
        for id_ in list(b.meta):
            if not id_.endswith("-one"):
                b.case(id_, ["status", "same"], ref=b.obs(id_ + "-one"))
            else:
                b.case(id_, ["status"])
        b.judge("a division of the byte stream shows in the store or in a status")
    return check.finish()


def c05():
    """shard indices; the chunks themselves are those the same stream stores
    without shards"""
    check = vf.Check("C05")
    n = scale(1)
    prof = dict(GVersions={3}, GMinFrames=1)
    exe, groups = prepare(check, [("CfgSmall", 5, ["ShardSlots"]), ("CfgDeep", 6, ["ShardSlots"])],
                          [(200 * n, prof | dict(GFs={True, False})),
                           (50 * n, prof | dict(GMultiscale={True}, GMaxSize=9)),
                           (40 * n, WIDE | dict(GVersions={3})),
                           (40 * n, LONG | dict(GVersions={3}))] + more(k=n, GVersions={3}), [(8 * n, dict(GVersions={3}))])
    for g, lo, scs, b in batches(check, groups, 300):
        for k, sc in enumerate(scs):
            v2 = copy.deepcopy(sc)
            v2["cfg"]["v"] = 2
            v2["cfg"]["fs"] = True
            b.add(f"g{g}c{lo + k}", sc)
            b.add(f"g{g}c{lo + k}-v2", v2)
        b.run(exe)
        for id_ in list(b.meta):
            if not id_.endswith("-v2"):
                b.case(id_, ["shards"], ref=b.obs(id_ + "-v2"))
        b.judge("a shard index does not locate the chunks of its shard")
    tall("slots")(check, exe)
    return check.finish()


def c06():
    """every stop point"""
    check = vf.Check("C06")
    n = scale(1)
    exe, groups = prepare(check, [("CfgSmall", 5, ["NoLoss", "KeysExact", "Truth"]),
                                  ("CfgPyramid", 5, ["NoLoss", "Truth"])],
                          [(34 * n, dict(GFs={True, False}, GMaxPixels=400, GMinFrames=2, GMaxSize=4)),
                           (16 * n, dict(GFs={True, False}, GMaxPixels=500, GMinFrames=2, GMaxSize=5,
                                         GMultiscale={True})),
                           (16 * n, dict(GVersions={3}, GDims={3}, GMaxSize=3, GMinFrames=3))])
    for g, scs in enumerate(groups):
        for lo in range(0, len(scs), 40):
            b = Batch(check, f"g{g}-{lo}")
            for k, sc in enumerate(scs[lo:lo + 40]):
                fb = frames_of(sc)
                d = sc["cfg"]["dims"]
                fpl = d[0]["c"]
                for x in d[1:-2]:
                    fpl *= x["s"]
                top = fpl * d[0]["h"]
                pts = sorted({p for p in list(range(0, 7)) + [fpl - 1, fpl, fpl + 1, 2 * fpl, 2 * fpl + 1,
                              top - 1, top, top + 1, top + fpl] if 0 <= p <= 26 and p * fb <= 4000 * sc["cfg"]["bpp"]})
                for p in pts:
                    s2 = dict(sc)
                    s2["tags"] = {"nf": p}
                    s2["ops"] = [{"op": "create"}] + [{"op": "append", "n": fb}] * min(p, 3) + \
                        ([{"op": "append", "n": fb * (p - 3)}] if p > 3 else []) + [{"op": "destroy"}]
                    b.add(f"g{g}c{lo + k}n{p}", s2)
            b.run(exe)
            for id_ in b.meta:
                b.case(id_, ["status", "complete"])
            b.judge("something is missing from a store that was ended here")
    tall("points", "keys", "shape", "slots")(check, exe)
    return check.finish()


def c14():
    """S3 against the file system"""
    check = vf.Check("C14")
    n = scale(1)
    exe, groups = prepare(check, [("CfgSmall", 5, ["NoLoss", "KeysExact"])],
                          [(140 * n, dict(GFs={False}, GCuts="bytes", GPartial=True)),
                           (60 * n, dict(GFs={False}, GMultiscale={True}, GMaxSize=9))] +
                          more(k=n, fs={False}, GCuts="bytes", GPartial=True),
                          [(14 * n, dict(GFs={False})), (4 * n, dict(GFs={False}, py=True))])
    for g, scs in enumerate(groups):
        customs(scs, SEED + g)
    for g, lo, scs, b in batches(check, groups, 300):
        for k, sc in enumerate(scs):
            f = copy.deepcopy(sc)
            f["cfg"]["fs"] = True
            # (one path may be written in several ways)
            b.add(f"g{g}c{lo + k}", sc, s3pre={"other/key": "abc", "s.zar": "x", "t.zarr/.zattrs": "{}"},
                  over=dict(store=("s.zarr", "s.zarr", "s.zarr/", " s.zarr// ")[(lo + k) % 4]))
            b.add(f"g{g}c{lo + k}-fs", f)
        b.run(exe)
        for id_ in list(b.meta):
            if id_.endswith("-fs"):
                continue
            # nothing outside the prefix
            root = os.path.join(b.work, id_, "s3", "bucket")
            outside = {}
            for dp, ds, fs in os.walk(root):
                for x in fs:
                    p = os.path.relpath(os.path.join(dp, x), root)
                    if not p.startswith("s.zarr/"):
                        outside[p] = open(os.path.join(dp, x)).read()
            if outside != {"other/key": "abc", "s.zar": "x", "t.zarr/.zattrs": "{}"}:
                check.violation("objects outside the store's prefix: " + str(sorted(outside)),
                                dict(scenario=b.meta[id_][1]))
            b.case(id_, ["status", "same"], ref=b.obs(id_ + "-fs"))
        b.judge("the S3 store differs from the file-system store")
    return check.finish()


def c23():
    """compressed against raw"""
    check = vf.Check("C23")
    n = scale(1)
    exe, groups = prepare(check, [("CfgSmall", 5, ["NoLoss"])],
                          [(150 * n, dict(GComp={1}, GMinFrames=1)),
                           (50 * n, dict(GComp={1}, GMultiscale={True}, GMaxSize=9, GMinFrames=1)),
                           (40 * n, dict(GComp={1}, GMaxSize=30, GMaxPixels=3000, GDims={3}, GMinFrames=1)),
                           (30 * n, BIG | dict(GComp={1})), (10 * n, PYBIG | dict(GComp={1}))],
                          [(8 * n, dict(GComp={1}))])
    # every codec, level and shuffle at least once
    combos = [(c, l, s) for c in (1, 2) for l in range(10) for s in range(3)]
    for i, sc in enumerate(groups[0][:len(combos)]):
        c, l, s = combos[i]
        sc["cfg"]["comp"].update(codec=c, level=l, shuffle=s)
    # settings that name no compressor
    for i, sc in enumerate(groups[0][len(combos):len(combos) + 30]):
        sc["cfg"]["comp"].update(compressor=0)
        sc["nocomp_settings"] = True
    for g, lo, scs, b in batches(check, groups, 300):
        for k, sc in enumerate(scs):
            raw = copy.deepcopy(sc)
            raw.pop("nocomp_settings", None)
            raw["cfg"]["comp"]["compressor"] = 0
            b.add(f"g{g}c{lo + k}", sc)
            b.add(f"g{g}c{lo + k}-raw", raw)
        b.run(exe)
        for id_ in list(b.meta):
            if not id_.endswith("-raw"):
                b.case(id_, ["compression"], ref=b.obs(id_ + "-raw"))
        b.judge("compression changes more than the encoding")
    return check.finish()


def huge(check, exe):
    """frames of more pixels than 32 bits count, on the file system"""
    import numpy as np, struct
    base = dict(fs=True, ms=False, dtype="uint8", bpp=1, unit=0,
                val=dict(add=0, mul=1, step=7, off=3, m=251))
    dim = lambda n, ty, s, c, h: dict(n=n, ty=ty, s=s, c=c, h=h)
    cases = []
    with open("/proc/meminfo") as fh:
        room = min(int(re.search(r"MemAvailable:\s+(\d+)", fh.read())[1]) >> 20,
                   shutil.disk_usage(vf.BUILD).free >> 30)
    if room < 14:
        check.stats["huge"] = f"left out: {room} GiB of memory or disk"
        return
    for v in (2, 3) if THOROUGH else (3,):
        cfg = base | dict(v=v, dims=[dim("t", "time", 0, 1, 1), dim("y", "space", 65537, 32769, 2),
                                     dim("x", "space", 65600, 32800, 2)])
        nb = 65537 * 65600
        piece = 1 << 26
        ops = [dict(op="create")] + [dict(op="append", n=min(piece, nb - k)) for k in range(0, nb, piece)] + \
            [dict(op="destroy")]
        work = os.path.join(vf.BUILD, "scratch", f"huge{os.getpid()}")
        shutil.rmtree(work, ignore_errors=True)
        sc = dict(cfg=cfg, ops=ops)
        try:
            evs = S.replay(exe, [S.scenario(sc, "h", timeout=300, gigabytes=24)], work, jobs=1)["h"]
            if S.ended(evs) != "ok" and evs[-1].get("sig") == 9:  # out of memory after all
                check.stats["huge"] = "left out: killed"
                continue
            if S.ended(evs) != "ok" or any(e.get("st", 0) for e in evs):
                check.violation(f"a stream of huge frames failed: {evs[-3:]}", dict(scenario=sc))
                continue
            root = os.path.join(work, "h", "s.zarr")
            keys = [os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs]
            shape = json.load(open(os.path.join(root, "0/.zarray" if v == 2 else "meta/root/0.array.json")))["shape"]
            r, points = random.Random(SEED), []
            ext = [d["c"] for d in cfg["dims"]]
            px = prod(ext)

            def look(cc, path, off, n):
                a = np.memmap(path, dtype="u1", mode="r")
                whole = n == px and off + n <= len(a)
                edge = [[0, y, x] for y in (0, 32766, 32767, 32768) for x in (0, 1, 32799)]
                for ic in edge + [[0, r.randrange(ext[1]), r.randrange(ext[2])] for _ in range(200)]:
                    k = off + ic[1] * ext[2] + ic[2]
                    points.append(dict(cc=cc, ic=ic, whole=whole, v=int(a[k]) if k < len(a) else -1))
            for slot, (y, x) in enumerate([(0, 0), (0, 1), (1, 0), (1, 1)]):
                if v == 2:
                    p = os.path.join(root, f"0/0/{y}/{x}")
                    if os.path.exists(p):
                        look([0, y, x], p, 0, os.path.getsize(p))
                else:
                    p = os.path.join(root, "data/root/0/c0/0/0")
                    if os.path.exists(p) and os.path.getsize(p) >= 64:
                        with open(p, "rb") as fh:
                            fh.seek(-64, 2)
                            tab = struct.unpack("<8Q", fh.read())
                        look([0, y, x], p, tab[2 * slot], tab[2 * slot + 1])
            cases.append(dict(id=f"huge{v}", cfg=cfg, nf=1, keys=keys, shape=shape, points=points, shards=[]))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    res = S.judge(cases, check.stats, module="HugeTrace", init="Init", next_="Next", view=None, pixels=False)
    for c in cases:
        if res[c["id"]]:
            check.violation(f"huge frames: {', '.join(res[c['id']])}", dict(cfg=c["cfg"]))


def tall(*aspects):
    """shards of more frames than 32 bits count: few frames, and a few layers of chunks; and chunks and
    frames with more rows, columns, tiles and planes than 8 or 16 bits count"""
    dim = lambda n, ty, s, c, h: dict(n=n, ty=ty, s=s, c=c, h=h)
    plans = [  # frames, sizes as (size, chunk, shard)
        (5, [(0, 65536, 65536), (1, 1, 1), (1, 1, 1)]),
        (131072 * 2 + 5, [(0, 131072, 32769), (1, 1, 1), (1, 1, 1)]),
        (65536 * 2 + 1, [(0, 65536, 65537), (3, 2, 2), (2, 1, 1)]),
        (9, [(0, 1 << 20, 4096), (2, 1, 1), (1, 1, 1), (2, 2, 1)]),
        (3, [(4, 1 << 16, 1 << 16), (2, 2, 1), (2, 2, 1)]),
        (300, [(0, 1, 1 << 20), (1, 1, 1), (2, 1, 1)]),
        (40000, [(0, 20000, 3), (2, 2, 1), (1, 1, 1)]),
    ]
    wide = [
        (2, [(0, 1, 1), (5, 3, 1), (140001, 70001, 2)]),
        (2, [(0, 1, 1), (140001, 70001, 1), (3, 2, 2)]),
        (1, [(0, 1, 1), (3, 2, 1), (600, 2, 30)]),
        (2, [(0, 2, 2), (520, 2, 10), (2, 1, 1)]),
        (300, [(0, 1, 1), (300, 1, 10), (2, 2, 1), (2, 1, 1)]),
        (140, [(0, 1, 1), (70, 70, 1), (20, 20, 1), (50, 50, 1)]),
        (600, [(2, 1, 1), (300, 300, 1), (2, 2, 1), (2, 1, 1)]),
        (280, [(0, 1, 1), (1, 1, 1), (280, 1, 280), (1, 1, 1), (2, 1, 1)]),
        (700, [(0, 1, 2), (1, 1, 1), (2, 2, 1)]),
        (2, [(0, 1, 1), (2, 1, 1), (260, 1, 1), (2, 2, 1)]),
    ]
    if THOROUGH:
        plans += [(1 << 21, [(0, 1 << 20, 4097), (1, 1, 1), (1, 1, 1)]),
                  (70000, [(0, 65537, 65535), (1, 1, 1), (3, 2, 2)]),
                  (66000, [(0, 256, 1 << 16), (1, 1, 1), (1, 1, 1)]),
                  (30, [(0, 4096, 4096), (256, 1, 1), (1, 1, 1), (1, 1, 1)])]

    def judge(check, exe):
        scs, cases = [], []
        for k, (v, nf, ds) in enumerate([(3, *p) for p in plans] + [(v, *p) for p in wide for v in (2, 3)]):
            ty = ["time"] + ["channel"] * (len(ds) - 3) + ["space"] * 2
            cfg = dict(fs=True, ms=False, dtype="uint8", bpp=1, unit=0, v=v,
                       val=dict(add=0, mul=1, step=7, off=3, m=251),
                       dims=[dim(f"d{i}", t, *x) for i, (t, x) in enumerate(zip(ty, ds))])
            ops = [dict(op="create"), dict(op="append", n=nf * frames_of(dict(cfg=cfg))), dict(op="destroy")]
            scs.append((f"tall{k}", nf, dict(cfg=cfg, ops=ops)))
        work = os.path.join(vf.scratch(), "tall")
        evs = S.replay(exe, [S.scenario(sc, id_, timeout=60) for id_, _, sc in scs], work)
        for id_, nf, sc in scs:
            cfg, ev = sc["cfg"], evs[id_]
            if S.ended(ev) != "ok" or any(e.get("st", 0) for e in ev):
                check.violation(f"a stream of large extents failed: {ev[-3:]}", dict(scenario=sc))
                continue
            root = os.path.join(work, id_, "s.zarr")
            st = store.Store.load(root, cfg)
            c, h = [d["c"] for d in cfg["dims"]], [d["h"] for d in cfg["dims"]]
            r, points, shards = random.Random(SEED), [], []
            last = [(nf - 1) % c[0]] + [0] * (len(c) - 1)
            many = len(st.files) > 60

            def look(cc, px, some):
                for ic in [[0] * len(c), [x - 1 for x in c], last] + [[r.randrange(x) for x in c] for _ in range(some)]:
                    at = int(store.np.ravel_multi_index(ic, c))
                    points.append(dict(cc=cc, ic=ic, whole=len(px) == prod(c), v=px[at] if at < len(px) else -1))
            for key in st.files:
                if st.chunk_key(key):
                    look(list(st.chunk_key(key)[1]), st.files[key], 2 if many else 40)
                if not st.shard_key(key):
                    continue
                b = st.files[key]
                n = prod(h)
                tab = store.np.frombuffer(b[len(b) - 16 * n:], "<u8").reshape(-1, 2) if len(b) >= 16 * n else []
                there = [int(i) for i in store.np.flatnonzero(tab[:, 0] != (1 << 64) - 1)] if len(tab) else []
                shards.append(dict(key=key, slots=there[:2000]))
                for i in there[:2000]:
                    cc = [x * y + int(z) for x, y, z in
                          zip(st.shard_key(key)[1], h, store.np.unravel_index(i, h))]
                    o, l = int(tab[i][0]), int(tab[i][1])
                    px = b[o:o + l] if o + l <= len(b) - 16 * n else b""
                    look(cc, px, 1 if len(there) > 99 else 2 if many else 12)
            doc = st.meta.get(0, {}).get("shape", [])
            cases.append(dict(id=id_, cfg=cfg, nf=nf, keys=sorted(st.files), shape=doc, points=points, shards=shards))
            shutil.rmtree(os.path.join(work, id_), ignore_errors=True)
        res = S.judge(cases, check.stats, module="HugeTrace", init="Init", next_="Next", view=None, pixels=False)
        for c in cases:
            failed = [a for a in res[c["id"]] if a in (*aspects, "malformed")]
            if failed:
                check.violation(f"large extents: {', '.join(failed)}", dict(cfg=c["cfg"], nf=c["nf"]))
        check.stats["tall"] = len(cases)
    return judge


def long_docs(check, exe):
    """documents of several parts of an upload"""
    b = Batch(check, "long")
    scs = S.generate(40, SEED * 1000 + 900, check.stats, GMinFrames=1, GFs={True, False})
    for v in (2, 3):
        for fs in (True, False):
            of = [s for s in scs if (s["cfg"]["v"], s["cfg"]["fs"]) == (v, fs)]
            for what, sc in zip(("custom", "name", "both"), copy.deepcopy(of)):
                if what != "name":
                    sc["custom"] = json.dumps({"a": "y" * (11 << 20), "b": [1]})
                if what != "custom":
                    sc["cfg"]["dims"][0]["n"] = "n" * (6 << 20)
                b.add(f"v{v}fs{fs}{what}", sc, timeout=60)
    b.run(exe)
    for id_ in b.meta:
        b.case(id_, ["status", "docs"])
    for c in b.cases:  # axes has what there is to say about names
        c["cfg"]["dims"] = [dict(d, n=d["n"][:20]) for d in c["cfg"]["dims"]]
    for id_ in b.meta:
        shutil.rmtree(os.path.join(b.work, id_), ignore_errors=True)
        b.meta[id_][1]["streams"] = [dict(s, custom="long", dims=[]) for s in b.meta[id_][1]["streams"]]
    b.seen = {len(k) for k in b.seen}
    b.judge("long documents do not describe the data")


def both(*fs):
    def f(check, exe):
        for g in fs:
            g(check, exe)
    return f
