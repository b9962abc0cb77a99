"""Checks of the parts that have interfaces of their own: layout arithmetic
(C17), gather writes (C18), file sinks (C19), the logger (C25)."""
import itertools, json, os, random
import vf, streams as S
from vf import SEED, THOROUGH

LAYOUT_LIB = {"zarr.dimension.cpp", "zarr.common.cpp", "logger.cpp"}


def limbs(n):
    out = []
    while n:
        out.append(n & 32767)
        n >>= 15
    return out


def ceil(a, b):
    return -(-a // b)


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def ravel(idx, ext):
    n = 0
    for i, x in enumerate(idx):
        n = n * ext[i] + x
    return n


def unravel(n, ext):
    out = []
    for e in reversed(ext[1:]):
        out.append(n % e)
        n //= e
    return [n] + out[::-1]


BPP = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8]


def small_layouts(rnd, count):
    """every layout of three dimensions in a small scope, samples of longer ones"""
    out = []
    shapes = [(1, 1), (2, 1), (2, 3), (3, 2), (4, 3), (5, 2), (4, 4)]
    for a, b, c in itertools.product(shapes, repeat=3):
        out.append([(x[0], x[1], rnd.randint(1, 3)) for x in (a, b, c)])
    while len(out) < count:
        n = rnd.choice([3, 4, 4, 5, 5, 6])
        mx = {3: 12, 4: 7, 5: 5, 6: 4}[n]
        d = [(rnd.randint(1, mx), rnd.randint(1, mx), rnd.randint(1, 4)) for _ in range(n)]
        if prod(x[0] for x in d[1:-2]) * d[0][1] < 400 and \
                prod(ceil(x[0], x[1]) for x in d[1:]) * d[0][2] < 500:
            out.append(d)
    for d in out:
        if rnd.random() < 0.2:
            d[0] = (0,) + d[0][1:]
    return out


EDGE = [1, 2, 3, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24,
        (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 1]


def big_size(rnd, lim):
    lim = max(1, min(lim, (1 << 32) - 1))
    if rnd.random() < 0.35:
        c = [e for e in EDGE if e <= lim]
        return rnd.choice(c)
    return max(1, min(lim, int(2 ** rnd.uniform(0, lim.bit_length()))))


def big_layouts(rnd, count):
    """layouts whose products need more than 32 bits, everything the interface returns
    still fitting its type"""
    U32, U64 = (1 << 32) - 1, (1 << 64) - 1
    out = []
    while len(out) < count:
        n = rnd.choice([3, 4, 4, 5, 5, 6, 7])
        dtype = rnd.randrange(10)
        s = [big_size(rnd, U32) for _ in range(n)]
        # chunk counts multiply up to 32 bits, chunk sizes up to 64
        c, room, cpx = [0] * n, U32, U64 // BPP[dtype]
        for i in rnd.sample(range(n), n):
            lo = ceil(s[i], room) if i else 1
            ci = big_size(rnd, min(cpx, U32))
            ci = max(ci, lo)
            c[i] = min(ci, U32)
            cpx //= c[i]
            if i:
                room //= ceil(s[i], c[i])
            if cpx == 0:
                break
        if 0 in c or room == 0 or prod(c) * BPP[dtype] > U64:
            continue
        grid = [1] + [ceil(a, b) for a, b in zip(s[1:], c[1:])]
        if prod(grid) > U32 or prod(s[1:n - 2]) > U64 or s[-1] * s[-2] * BPP[dtype] > U64:
            continue
        # a layer of chunks has at most 2^64 frames
        if any(max(c[i], s[i] if i else 1) * prod(s[i + 1:n - 2]) > U64 for i in range(n - 2)):
            continue
        h, room = [0] * n, U32
        for i in rnd.sample(range(n), n):
            h[i] = big_size(rnd, room if rnd.random() < 0.5 else min(room, max(1, grid[i])))
            room //= h[i]
        if rnd.random() < 0.1:
            s[0] = 0
        out.append((dtype, s, c, h, grid))
    return out


def big_frames(rnd, s, c, k):
    n, U64 = len(s), (1 << 64) - 1
    per = prod(s[1:n - 2])
    out = []
    for _ in range(k):
        top = U64 // per
        top = min(top, ((1 << 32) - 1) * c[0])
        g0 = rnd.choice([0, c[0] - 1, c[0], top, int(2 ** rnd.uniform(0, top.bit_length())) - 1,
                         rnd.randrange(top + 1)])
        g = [max(0, min(g0, top))]
        for i in range(1, n - 2):
            e = [0, s[i] - 1, c[i] - 1, c[i], (s[i] // c[i]) * c[i], rnd.randrange(s[i])]
            g.append(max(0, min(rnd.choice(e), s[i] - 1)))
        f = ravel(g, s[:n - 2])
        if f <= U64 and g[0] // c[0] < 1 << 32:
            out.append((f, g))
    return out


def big_chunks(rnd, grid, h, k):
    out = []
    room = ((1 << 32) - 1) // prod(grid[1:])
    for _ in range(k):
        cc = [rnd.randrange(min(h[0] if rnd.random() < 0.8 else 2 * h[0], room) or 1)]
        for i in range(1, len(grid)):
            cc.append(min(grid[i] - 1, max(0, rnd.choice(
                [0, grid[i] - 1, h[i] - 1, h[i], rnd.randrange(grid[i])]))))
        k_ = ravel(cc, grid)
        if k_ < 1 << 32:
            out.append((k_, cc))
    return out


def c17():
    check = vf.Check("C17")
    rnd = random.Random(SEED)
    for nd, mx in ((3, (3, 3, 2)), (4, (2, 2, 2))) + (((3, (5, 4, 2)), (4, (3, 2, 2))) if THOROUGH else ()):
        vf.model_check("Layout", vf.constants(MaxSize=mx[0], MaxChunk=mx[1], MaxShard=mx[2], NDims=nd) +
                       "INIT LMInit\nNEXT LMNext\nCHECK_DEADLOCK FALSE\nINVARIANTS PixelBijection ShardBijection\n",
                       check.stats, f"bijection/{nd}d/{mx}", env={"CASES": "none.json"}, files={"none.json": "[]"})
    exe = vf.build("geometry_driver", ["geometry_driver.cpp"], only=LAYOUT_LIB)
    scs, info = [], {}
    for i, d in enumerate(small_layouts(rnd, 700 if not THOROUGH else 6000)):
        dtype = rnd.randrange(10)
        dims = [dict(n=f"d{k}", ty="space", s=x[0], c=x[1], h=x[2]) for k, x in enumerate(d)]
        per = prod(x[0] for x in d[1:-2])
        fr = list(range(2 * d[0][1] * per + 1))
        if len(fr) > 150:
            fr = sorted(rnd.sample(fr, 150))
        nch = 2 * d[0][2] * prod(ceil(x[0], x[1]) for x in d[1:])
        ch = list(range(nch))
        if len(ch) > 150:
            ch = sorted(rnd.sample(ch, 150))
        id_ = f"l{i}"
        if i % 10 == 9:
            for x in dims:
                x["h"] = 0
            ch = []
        info[id_] = dict(kind="small", bpp=BPP[dtype])
        scs.append(dict(id=id_, dims=dims, dtype=dtype, frames=fr, chunks=ch))
    for i, (dtype, s, c, h, grid) in enumerate(big_layouts(rnd, 900 if not THOROUGH else 9000)):
        id_ = f"b{i}"
        fr, ch = big_frames(rnd, s, c, 12), big_chunks(rnd, grid, h, 12)
        info[id_] = dict(kind="big", bpp=BPP[dtype], s=s, c=c, h=h, grid=grid, fr=fr, ch=ch)
        scs.append(dict(id=id_, dims=[dict(n=f"d{k}", s=s[k], c=c[k], h=h[k]) for k in range(len(s))],
                        dtype=dtype, frames=[f for f, _ in fr], chunks=[k for k, _ in ch]))
    evs = S.replay(exe, scs, os.path.join(vf.scratch(), "geo"))
    cases, nontriv = [], 0
    for sc in scs:
        e, x = evs[sc["id"]], info[sc["id"]]
        if S.ended(e) != "ok":
            check.violation(f"layout arithmetic: process {e[-1]} for {sc['dims']}", dict(scenario=sc, events=e))
            continue
        counts = next(v for v in e if v["ev"] == "counts")
        maps = next(v for v in e if v["ev"] == "maps")
        if x["kind"] == "small":
            cases.append(dict(id=sc["id"], kind="small", bpp=x["bpp"], dims=sc["dims"], counts=counts,
                              frames=maps["frames"], chunks=maps["chunks"]))
            continue
        big = {k: ([limbs(y) for y in v] if isinstance(v, list) else v if k in ("ev", "nd", "bpp") else limbs(v))
               for k, v in counts.items()}
        L = lambda v: [limbs(y) for y in v]
        s, c, h, grid = x["s"], x["c"], x["h"], x["grid"]
        fr = [dict(f=limbs(f), g=L(g), q=L([a // b for a, b in zip(g, c)]), r=L([a % b for a, b in zip(g, c)]),
                   lat=L(m["lat"]), tgo=limbs(m["tgo"]), cio=limbs(m["cio"]))
              for (f, g), m in zip(x["fr"], maps["frames"])]
        ch = [dict(k=limbs(k), cc=L(cc), u=L([a // b for a, b in zip(cc, h)]), v=L([a % b for a, b in zip(cc, h)]),
                   shard=limbs(m["shard"]), slot=limbs(m["slot"]))
              for (k, cc), m in zip(x["ch"], maps["chunks"])]
        cases.append(dict(id=sc["id"], kind="big", bpp=x["bpp"], s=L(s), c=L(c), h=L(h), grid=L(grid),
                          sgrid=L([ceil(a, b) for a, b in zip(grid, h)]), counts=big, frames=fr, chunks=ch))
        nontriv += 1
    res = S.judge(cases, check.stats, module="Layout", init="SInit", next_="SNext", view=None, pixels=False,
                  extra=vf.constants(MaxSize=1, MaxChunk=1, MaxShard=1, NDims=3))
    by = {s["id"]: s for s in scs}
    for id_, failed in res.items():
        if failed:
            check.violation(f"layout arithmetic: {', '.join(failed)} differ from Geometry for {by[id_]['dims']}"
                            f" dtype {by[id_]['dtype']}", dict(scenario=by[id_], events=evs[id_], failed=failed))
    check.stats.update(evaluations=sum(len(c["frames"]) + len(c["chunks"]) for c in cases),
                       distinct_nontrivial=nontriv + sum(1 for c in cases if c["kind"] == "small"),
                       rule="layouts: all of three dimensions from a small set of sizes, random ones of up to seven "
                            "dimensions, and random ones with sizes up to 2^32-1 whose products exceed 32 bits; "
                            "every (frame) and (chunk) answer is an evaluation")
    check.sample(scs[0]["dims"])
    check.sample(dict(dims=scs[-1]["dims"], counts=evs[scs[-1]["id"]][0]))
    return check.finish()


# ------------------------------------------------------------------ files

FILE_LIB = {"file.sink.cpp", "sink.cpp", "vectorized.file.writer.cpp", "logger.cpp"}
AT = [0, 1, 4095, 4096, 4097, 8191, 8192, (1 << 31) - 3, (1 << 31), (1 << 32) - 2, (1 << 32), (1 << 32) + 4096,
      (1 << 33) + 5, 1 << 40]
LEN = [0, 1, 2, 7, 100, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 65536]
MUST = 1 << 43


def file_cases(check, exe, scs, what):
    evs = S.replay(exe, scs, os.path.join(vf.scratch(), "files"))
    cases = []
    by = {}
    for sc in scs:
        e = evs[sc["id"]]
        by[sc["id"]] = sc
        if S.ended(e) == "error":
            raise vf.MachineryError(f"driver error {e}")
        if S.ended(e) != "ok":
            check.violation(f"{what}: process {e[-1]}", dict(scenario=sc, events=e[-5:]))
            continue
        out, dead, bad = [], False, None
        for v in e:
            if v["ev"] == "null" and not v["ok"]:
                bad = "finalizing no sink fails"
            if v["ev"] != "file":
                continue
            if v["op"] == "clobbered":
                bad = "a buffer was written to"
            elif v["op"] == "open":
                dead = not v["ok"]
                out.append(dict(op="open", ok=v["ok"], fault=v["fault"], bad=sc.get("bad", False)))
            elif v["op"] == "write":
                out.append(dict(op="write", at=limbs(v["at"]), len=limbs(v["len"]), w=v["w"], ok=v["ok"],
                                fault=v["hits"] or v["over"],
                                must=v["nbuf"] <= 1024 and v["at"] + v["len"] <= MUST and v["len"] < 1 << 31))
            elif v["op"] == "final":
                out.append(dict(op="final", ok=v["ok"], fault=v["fault"] or "io" in sc or "limit" in sc))
            elif not dead:
                if v["size"] < 0:
                    bad = "no file"
                    break
                out.append(dict(op="look", size=limbs(v["size"]),
                                pieces=[{"lo": limbs(p["lo"]), "hi": limbs(p["hi"]), "is": p["is"]}
                                        for p in v["pieces"]]))
        if bad:
            check.violation(f"{what}: {bad}", dict(scenario=sc, events=e))
            continue
        cases.append(dict(id=sc["id"], pre=limbs(sc.get("pre", 0)), events=out))
    res = S.judge(cases, check.stats, module="ByteFile", init="TInit", next_="TNext", view=None, pixels=False,
                  extra=vf.constants(Limit=1, Writers={1}, MaxWrites=1), reject="no behaviour of ByteFile")
    for c in cases:
        if res[c["id"]]:
            sc = by[c["id"]]
            check.violation(f"{what}: {', '.join(res[c['id']])}: {json.dumps(sc)[:400]}",
                            dict(scenario=sc, events=evs[c["id"]]))
    check.stats["evaluations"] = check.stats.get("evaluations", 0) + sum(len(c["events"]) for c in cases)
    check.stats["distinct_nontrivial"] = check.stats.get("distinct_nontrivial", 0) + len(cases)
    check.sample(scs[0])
    check.sample(dict(scenario=scs[-1], events=evs[scs[-1]["id"]][-2:]))


def file_model(check):
    for k, (lim, w, n) in enumerate([(3, {1, 2}, 2), (3, {1}, 3)] + ([(3, {1, 2}, 3), (4, {1}, 3)] if THOROUGH else [])):
        vf.model_check("ByteFile", vf.constants(Limit=lim, Writers=w, MaxWrites=n) +
                       "INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nINVARIANTS LogTells\n", check.stats,
                       f"log against memory {lim}/{w}/{n}", env={"CASES": "none.json"}, files={"none.json": "[]"})


def bufs(rnd):
    r = rnd.random()
    if r < 0.05:
        return []
    if r < 0.1:
        return [0] * rnd.randint(1, 4)
    if r < 0.2:
        return [rnd.choice([0, 1, 2, 3]) for _ in range(rnd.choice([255, 256, 1000, 1023, 1024]))]
    if r < 0.24:
        return [rnd.choice([1, 2]) for _ in range(rnd.choice([1025, 2048, 3000]))]
    return [rnd.choice(LEN + [0]) if rnd.random() < 0.5 else rnd.randint(0, 300) for _ in range(rnd.randint(1, 9))]


def c18():
    check = vf.Check("C18")
    rnd = random.Random(SEED)
    file_model(check)
    exe = vf.build("file_driver", ["file_driver.cpp", "io_shim.cpp"], only=FILE_LIB)
    n = 1 if not THOROUGH else 10
    scs = []
    for i in range(220 * n):   # sequences by one writer, over what is there
        pre = rnd.choice([0, 0, 1, 100, 5000, 9000])
        ops, last = [], None
        for w in range(1, rnd.randint(2, 7)):
            at = rnd.choice(AT) + rnd.choice([0, 0, 1, rnd.randint(0, 9000)]) if rnd.random() < 0.6 or last is None \
                else max(0, last + rnd.choice([0, 0, 1, -1, -3, 100]))
            lens = bufs(rnd)
            if rnd.random() < 0.03:
                at = rnd.choice([(1 << 63) - 2, 1 << 63, (1 << 64) - 4096, (1 << 62)])
                lens = [5, 10]
            else:
                last = at + sum(lens)
            ops.append(dict(op="write", at=at, lens=lens, w=w))
        scs.append(dict(id=f"g{i}", kind="gather", pre=pre, ops=ops, peek=len(ops) < 4))
    for i in range(120 * n):   # a write that cannot be carried out
        pre = rnd.choice([0, 50, 5000])
        ops = [dict(op="write", at=rnd.randint(0, 6000), lens=bufs(rnd), w=w) for w in range(1, rnd.randint(2, 5))]
        sc = dict(id=f"e{i}", kind="gather", pre=pre, ops=ops)
        r = rnd.random()
        if r < 0.4:
            sc["limit"] = rnd.choice([1, 3000, 4096, 6000, 9000])
        elif r < 0.75:
            sc["io"] = dict(kind="short", at=rnd.randint(2, 4), len=rnd.choice([1, 1, -1]))
        else:
            sc["io"] = dict(kind="fail", at=rnd.randint(2, 4), err=rnd.choice([28, 5, 4, 11]), len=rnd.choice([1, -1]))
        scs.append(sc)
    for i in range(100 * n):   # several writers, disjoint ranges
        k = rnd.randint(2, 6)
        shared = rnd.random() < 0.5
        size, gap = rnd.choice([64, 5000, 20000]), rnd.choice([0, 0, 17])
        base = rnd.choice([0, 3, (1 << 32) - 8192])
        ops, w = [], 0
        for r in range(rnd.randint(2, 8)):
            for t in range(k):
                w += 1
                a = [rnd.randint(0, size) for _ in range(rnd.randint(0, 5))]
                cut = sorted(a)
                lens = [y - x for x, y in zip([0] + cut, cut + [size])]
                ops.append(dict(op="write", t=t, writer=0 if shared else t, at=base + (r * k + t) * (size + gap),
                                lens=lens, w=w))
        scs.append(dict(id=f"t{i}", kind="gather", pre=rnd.choice([0, 300]), threads=k, shared=shared, ops=ops))
    if THOROUGH:   # more than one system call takes
        scs.append(dict(id="huge", kind="gather", pre=0, timeout=120, peek=False,
                        ops=[dict(op="write", at=0, lens=[1 << 26], huge=33, w=1)]))
        scs.pop()
    file_cases(check, exe, scs, "gather write")
    check.stats["rule"] = ("random lists of buffers at random offsets up to 2^40 (and beyond what a file can have), "
                           "over existing files, with refused and short writes, and by 2-6 threads to disjoint "
                           "ranges; every byte of the file is looked at after each step")
    return check.finish()


def c19():
    check = vf.Check("C19")
    rnd = random.Random(SEED)
    file_model(check)
    exe = vf.build("file_driver", ["file_driver.cpp", "io_shim.cpp"], only=FILE_LIB)
    n = 1 if not THOROUGH else 10
    scs = []

    def some(k):
        ops, last, w = [], 0, 0
        for _ in range(rnd.randint(0, k)):
            at = rnd.choice([0, last, last, last, max(0, last - rnd.randint(1, 50)), last + rnd.randint(1, 9000),
                             rnd.randint(0, 20000), rnd.choice(AT)])
            ln = rnd.choice(LEN) if rnd.random() < 0.6 else rnd.randint(0, 300)
            w += 1
            last = at + ln
            ops.append(dict(op="write", at=at, len=ln))
        return ops

    def life(k):
        ops, w = [], 0
        for _ in range(rnd.choice([1, 1, 1, 2, 3])):
            ops += [dict(op="open")] + some(k) + [dict(op="final")]
        for o in ops:
            if o["op"] == "write":
                w += 1
                o["w"] = w
        return ops
    for i in range(420 * n):
        scs.append(dict(id=f"s{i}", kind="sink", pre=rnd.choice([0, 1, 700, 9000]), ops=life(rnd.choice([2, 5, 12])),
                        peek=rnd.random() < 0.7))
    for i in range(160 * n):
        sc = dict(id=f"f{i}", kind="sink", pre=rnd.choice([0, 700]), ops=life(6))
        r = rnd.random()
        if r < 0.35:
            sc["limit"] = rnd.choice([1, 3000, 4096, 8192, 9000])
        elif r < 0.6:
            sc["io"] = dict(kind="short", at=rnd.randint(1, 8), len=rnd.choice([1, -1]))
        else:
            sc["io"] = dict(kind="fail", at=rnd.randint(1, 8), err=rnd.choice([28, 5, 13, 24]), len=rnd.choice([1, 1, -1]))
        scs.append(sc)
    for i, path in enumerate(["no/such/dir/f", ".", "nodir/"]):
        scs.append(dict(id=f"n{i}", kind="sink", path=path, bad=True, ops=[dict(op="open"), dict(op="final")]))
    file_cases(check, exe, scs, "file sink")
    check.stats["rule"] = ("random lives of file sinks over earlier content: gaps, overlaps, empty writes, sizes "
                           "around the stream buffer and page sizes, offsets up to 2^40, refused and short system "
                           "calls; every byte of the file is looked at after each step")
    return check.finish()
