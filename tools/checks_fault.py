"""C09 (storage failures) and C16 (crashes): every storage operation of
generated behaviours in turn fails, or is the last thing the process does."""
import json, os, random
import vf, streams as S
from vf import SEED, THOROUGH
from checks_stream import prepare, scale, frames_of

DATA_REQS = {"PutObject", "CreateUpload", "UploadPart", "CompleteUpload"}


def slots(sc):
    """slots per shard and chunk bytes, per level, as the settings say"""
    d = sc["cfg"]["dims"]
    n = b = 1
    for x in d:
        n *= x["h"]
        b *= x["c"]
    return n, b * sc["cfg"]["bpp"]


def level_dims(sc):
    dims, out = [dict(d) for d in sc["cfg"]["dims"]], []
    for _ in range(sc["levels"]):
        out.append(dims)
        nxt = []
        for d in dims:
            e = dict(d)
            if d["ty"] != "channel":
                e["s"] = (d["s"] + d["s"] % 2) // 2
                e["c"] = d["c"] if d["s"] == 0 else min(d["c"], e["s"])
                e["h"] = 1 if d["s"] == 0 else min(-(-e["s"] // e["c"]), d["h"])
            nxt.append(e)
        dims = nxt
    return out


def c16():
    check = vf.Check("C16")
    rnd = random.Random(SEED)
    n = scale(1)
    exe, groups = prepare(
        check, [("CfgTiny", 4, ["CrashSafe", "FlushedVisible"], True, ("AppendOnly",)),
                ("CfgSmall", 4, ["CrashSafe", "FlushedVisible"], False, ("AppendOnly",))],
        [(30 * n, dict(GMaxPixels=160, GMinFrames=1, GMaxSize=4, GMaxFrames=16)),
         (12 * n, dict(GMaxPixels=240, GMinFrames=2, GMaxSize=6, GMultiscale={True}, GMaxFrames=16)),
         (14 * n, dict(GVersions={3}, GDims={3}, GMaxPixels=120, GMaxSize=3, GMinFrames=3, GMaxFrames=16))])
    scs = [s for g in groups for s in g]
    # 1. clean runs: how many operations, and what is on disk between calls
    work = os.path.join(vf.scratch(), "snap")
    base = [S.scenario(sc, f"s{i}", snap=True) for i, sc in enumerate(scs)]
    evs = S.replay(exe, base, work)
    cases, meta = [], {}
    plans = []
    for i, sc in enumerate(scs):
        id_ = f"s{i}"
        if S.ended(evs[id_]) != "ok":
            check.violation(f"process: {S.ended(evs[id_])}", dict(scenario=base[i]))
            continue
        lv = level_dims(sc)
        nsl, cby = {}, {}
        for l, d in enumerate(lv):
            a = b = 1
            for x in d:
                a *= x["h"]
                b *= x["c"]
            nsl[l], cby[l] = a, b * sc["cfg"]["bpp"]
        got = 0
        for k, op in enumerate(sc["ops"]):
            if op["op"] != "append":
                continue
            got += op["n"]
            st = S.load(work, id_, sc, sub=f"snap/{k}")
            c = dict(id=f"{id_}@{k}", kind="flushed", bytes=got, cfg=S.trace_cfg(sc),
                     obs=st.observe(nslots=nsl, pieces=True, chunk_bytes=cby))
            cases.append(c)
            meta[c["id"]] = dict(scenario=base[i], after_op=k)
            # an instant between two calls is an instant, too
            cases.append(dict(c, id=c["id"] + "c", kind="crash"))
            meta[c["id"] + "c"] = meta[c["id"]]
        total = max([e.get("io", 0) for e in evs[id_]])
        pts = list(range(1, total + 1))
        rnd.shuffle(pts)
        for k in pts[:16 if not THOROUGH else 60]:
            plans.append((i, k, "torn" if rnd.random() < 0.4 else "crash"))
    # 2. the process ends at operation k, or half-way through it
    rnd.shuffle(plans)
    plans = plans[:700 if not THOROUGH else 6000]
    crash = [S.scenario(scs[i], f"k{j}", io=dict(kind=kind, at=k)) for j, (i, k, kind) in enumerate(plans)]
    work = os.path.join(vf.scratch(), "crash")
    evs = S.replay(exe, crash, work)
    hit = 0
    for j, (i, k, kind) in enumerate(plans):
        how = S.ended(evs[f"k{j}"])
        if how not in ("crashpoint", "ok"):
            raise vf.MachineryError(f"unexpected end {how}")
        hit += how == "crashpoint"
        sc = scs[i]
        st = S.load(work, f"k{j}", sc)
        c = dict(id=f"k{j}", kind="crash", bytes=sum(o.get("n", 0) for o in sc["ops"]),
                 cfg=S.trace_cfg(sc), obs=st.observe())
        cases.append(c)
        meta[c["id"]] = dict(scenario=crash[j])
    res = S.judge(cases, check.stats, module="CrashTrace", init="CrashInit", next_="CrashNext", view=None)
    for id_, failed in res.items():
        if failed:
            check.violation(f"store on disk: {', '.join(failed)} ({id_})", meta[id_])
    with_meta = sum(1 for c in cases if c["kind"] == "crash" and "<none>" not in c["obs"]["ext"])
    check.stats.update(evaluations=len(cases), distinct_nontrivial=with_meta,
                       rule="crash at (or half-way through) every sampled storage operation of generated "
                            "behaviours, and snapshots after every append; non-trivial: array metadata was "
                            "on disk", crash_points_hit=hit)
    check.sample(meta[cases[0]["id"]])
    check.sample(meta[cases[-1]["id"]])
    return check.finish()


def call_events(sc, evs, s3):
    """events for Calls.tla"""
    out, data, look = [], 0, 0
    for e in evs:
        if e["ev"] == "s3fault":
            data += e["op"] in DATA_REQS
            look += e["op"] not in DATA_REQS
        elif e["ev"] in ("create", "append", "destroy"):
            hit = data > 0 if s3 else e.get("makes", False)
            other = look > 0 if s3 else e.get("hits", 0) > 0
            out.append(dict(op=e["ev"], hit=hit, other=other,
                            ok=e.get("ok", True) if e["ev"] == "create" else e.get("st", 0) == 0))
            data = look = 0
    return out


def c09():
    check = vf.Check("C09", level="model_checking")
    rnd = random.Random(SEED)
    n = scale(1)
    exe, groups = prepare(
        check, [("CfgTiny", 5, ["TypeOK", "CrashSafe"], True, ("Sticky",))],
        [(14 * n, dict(GMaxPixels=120, GMinFrames=2, GMaxSize=3, GMaxFrames=14, GComp={0, 1})),
         (6 * n, dict(GMaxPixels=160, GMinFrames=2, GMaxSize=5, GMultiscale={True}, GMaxFrames=12)),
         (8 * n, dict(GFs={False}, GMaxPixels=120, GMinFrames=2, GMaxSize=3, GMaxFrames=14)),
         (4 * n, dict(GFs={False}, GMultiscale={True}, GMaxPixels=160, GMinFrames=2, GMaxSize=5))])
    vf.model_check("Calls", "SPECIFICATION CallsSpec\nPROPERTIES StickyCalls\nCHECK_DEADLOCK FALSE\n"
                   .replace("SPECIFICATION CallsSpec", "INIT MInit\nNEXT MNext"), check.stats, "calls",
                   workers=1, env={"CASES": "none.json"}, files={"none.json": "[]"})
    scs = [s for g in groups for s in g]
    for sc in scs:
        # some appends after the failing one
        fb = frames_of(sc)
        sc["ops"] = sc["ops"][:-1] + [{"op": "append", "n": fb}, {"op": "append", "n": 1},
                                      {"op": "append", "n": 2 * fb}, {"op": "destroy"}]
    work = os.path.join(vf.scratch(), "base")
    pre = {"s.zarr/old": "x", "s.zarr/sub/older": "y"}
    base = [S.scenario(sc, f"s{i}", iolog=True, s3log=True, pre=pre if sc["cfg"]["fs"] and i % 3 == 0 else {})
            for i, sc in enumerate(scs)]
    evs = S.replay(exe, base, work)
    plans = []
    for i, sc in enumerate(scs):
        if S.ended(evs[f"s{i}"]) != "ok":
            check.violation(f"process: {S.ended(evs[f's{i}'])}", dict(scenario=base[i]))
            continue
        if sc["cfg"]["fs"]:
            total = max(e.get("io", 0) for e in evs[f"s{i}"])
            for k in range(1, total + 1):
                for err, ln in ((28, 1), (5, -1), (13, 1), (24, 2)):
                    plans.append((i, dict(io=dict(kind="fail", at=k, err=err, len=ln))))
        else:
            log = [e for e in evs[f"s{i}"] if e["ev"] == "s3log"][0]["reqs"]
            for k in range(1, len(log) + 1):
                for throw in (False, True):
                    for ln in (1, -1):
                        plans.append((i, dict(s3fail=[dict(at=k, len=ln, throw=throw)])))
    rnd.shuffle(plans)
    plans = plans[:1400 if not THOROUGH else 14000]
    scns = []
    for j, (i, kw) in enumerate(plans):
        d = dict(base[i], id=f"f{j}", **kw)
        d["threads"] = rnd.choice([0, 1, 2])
        scns.append(d)
    work = os.path.join(vf.scratch(), "fault")
    ev2 = S.replay(exe, scns, work)
    cases = []
    hits = 0
    hangs = 0
    for j, (i, kw) in enumerate(plans):
        sc, e = scs[i], ev2[f"f{j}"]
        how = S.ended(e)
        if how == "hang" and hangs < 2:
            again = S.replay(exe, [dict(scns[j], timeout=30)], work + "-again", jobs=1)
            e, how = again[f"f{j}"], S.ended(again[f"f{j}"])
            hangs += how == "hang"
        if how == "error":
            raise vf.MachineryError(f"driver error {e}")
        c = dict(id=f"f{j}", events=call_events(sc, e, not sc["cfg"]["fs"]), lived=how == "ok")
        hits += any(x["hit"] for x in c["events"])
        cases.append(c)
    res = S.judge(cases, check.stats, module="Calls", init="TInit", next_="TNext", view=None, pixels=False,
                  reject="no behaviour of Calls has these statuses")
    for j, c in enumerate(cases):
        if res[c["id"]]:
            check.violation(f"{res[c['id']][0]}; lived={c['lived']} ({S.ended(ev2[c['id']])}); "
                            f"fault {plans[j][1]}: {c['events']}"[:600],
                            dict(scenario=scns[j], events=ev2[c["id"]]))
    check.stats.update(evaluations=len(cases), distinct_nontrivial=hits,
                       rule="each storage operation or S3 request of generated behaviours fails in turn (once or "
                            "from then on, several errors, refusals and exceptions); non-trivial: the fault hit")
    check.sample(scns[0])
    check.sample(cases[0])
    return check.finish()
