"""C27: memory for a buffer, or a thread, is refused."""
import json, os, random
import concurrent.futures as cf
import vf, streams as S
from vf import SEED, THOROUGH
from checks_stream import frames_of, prod, bulk

MODEL = ('CONSTANTS\n Workers=%d\n Chunks=%d\n PerLayer=%d\n Frames=%d\n Refusals=%d\n Omit="%s"\nSPECIFICATION Spec\n'
         'INVARIANTS Alive Released Whole\nPROPERTIES Implements Returns\nCHECK_DEADLOCK FALSE\n')
OMIT = ["threads kept", "threads not joined", "not sticky", "buffers cannot fail", "job throws", "no countdown",
        "swallowed", "kept after failure"]
MIN = 4096


def models(check):
    sizes = [(1, 1, 1, 2, 2), (2, 2, 2, 3, 2), (2, 3, 2, 5, 3)] + ([(4, 5, 3, 8, 4)] if THOROUGH else [])
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(vf.model_check, "ScarceImpl", MODEL % (*z, "none"), check.stats,
                        f"workers, chunks, frames of a layer, frames, refusals {z}", workers=1) for z in sizes]
        fs.append(ex.submit(vf.model_check, "Scarce", "SPECIFICATION SSpec\nINVARIANT HoldsNothing\nPROPERTY StickyBroken\n"
                            "CHECK_DEADLOCK FALSE\n", check.stats, "calls", workers=1))
        bad = {o: ex.submit(vf.tlc, "ScarceImpl", MODEL % (2, 2, 2, 3, 2, o), workers=1) for o in OMIT}
        for f in fs:
            f.result()
        for o, f in bad.items():
            if f.result().ok:
                raise vf.MachineryError(f"ScarceImpl accepts forgetting: {o}")
    check.stats["models_with_a_detail_left_out_rejected"] = len(bad)


def chunk_bytes(sc):
    return prod(d["c"] for d in sc["cfg"]["dims"]) * sc["cfg"]["bpp"]


def c27():
    check = vf.Check("C27")
    rnd = random.Random(SEED)
    n = 6 if THOROUGH else 1
    prof = dict(GDims={3, 4, 5}, GMaxSize=110, GMaxChunk=90, GFramePx=14000, GMaxPixels=60000, GMaxFrames=9, GMinFrames=1,
                GMaxKeys=60, GMaxOps=12)
    pyr = prof | dict(GMultiscale={True}, GMaxChunk=60, GMaxRatio=4, GFramePx=40000, GMaxPixels=120000, GDims={3, 4})
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(vf.build, "scarce_driver", ["scarce_driver.cpp", "scarce_shim.cpp", "heap_shim.cpp", "io_shim.cpp",
                                                   "fake_minio/fakes3.cpp"])
        fm = ex.submit(models, check)
        fg = [ex.submit(S.generate, k * n, SEED * 67 + i, check.stats, **p) for i, (k, p) in enumerate(
            [(120, prof | dict(GFs={True})), (70, prof | dict(GFs={False})),
             (70, pyr | dict(GFs={True})), (30, pyr | dict(GFs={False}))])]
        # parts of multipart uploads
        fl = ex.submit(bulk, check, 3 * n, SEED * 67 + 9, GFs={False}, GMaxFrames=8)
        exe = fb.result()
        fm.result()
        scs = []
        for f, k in zip(fg, (16, 8, 10, 5)):
            scs += [s for s in f.result() if MIN <= chunk_bytes(s) <= 1 << 19][:k * n]
        scs += fl.result()
    for sc in scs:      # the stream goes on for a while after what fails
        fb = frames_of(sc)
        sc["ops"] = [dict(op="dims", n=rnd.choice([130, 1000]))] + sc["ops"][:-1] + [dict(op="append", n=fb), dict(op="append", n=1), dict(op="destroy")]
    work = os.path.join(vf.scratch(), "c27")
    meta, obs = {}, {}

    def job(id_, i, **kw):
        j = dict(id=id_, settings=S.settings(scs[i]), ops=scs[i]["ops"], timeout=60, **kw)
        meta[id_] = (i, j)
        return j

    def look(id_):
        sc = scs[meta[id_][0]]
        st = S.load(work, id_, sc, s3=not sc["cfg"]["fs"])
        st.probe = random.Random(SEED)
        return st.observe()

    def streams(evs):
        return [e for e in evs if e["ev"] == "stream"]

    def trace_case(id_, want, ref):
        i, j = meta[id_]
        evs = streams(evs_all[id_])[-1]["events"]
        ops = [dict(op=e["op"], n=o.get("n", 0), ran=True, ok=e["ok"], st=0 if e["ok"] else 1, out=o.get("n", 0))
               for e, o in zip(evs, scs[i]["ops"]) if e["op"] != "dims"]
        return dict(id=id_, cfg=S.trace_cfg(scs[i]), ops=ops, obs=look(id_), ref=ref, want=want)

    # nothing refused: how much is asked for
    base = [job(f"b{i}", i, threads=1 + i % 3) for i in range(len(scs))]
    evs_all = S.replay(exe, base, work, timeout=800)
    plans, refs, first = [], {}, []
    for i, sc in enumerate(scs):
        how = S.ended(evs_all[f"b{i}"])
        if how != "ok":
            if how in ("error", "none"):
                raise vf.MachineryError(f"driver: {base[i]}: {evs_all[f'b{i}']}")
            check.violation(f"process: {how}, nothing refused", dict(case=base[i]))
            continue
        c = trace_case(f"b{i}", ["status", "points", "pyramidpoints", "keys", "docs"], {"<none>": "<none>"})
        refs[i] = c["obs"]
        first.append(c)
        evs = streams(evs_all[f"b{i}"])[0]["events"]
        allocs, starts = sum(e["allocs"] for e in evs), sum(e["starts"] for e in evs)
        at, step = [], 1 if allocs <= 40 else allocs / 40
        while allocs and len(at) * step < allocs:
            at.append(1 + int(len(at) * step))
        for k in at:
            for ln in (1, rnd.choice([-1, -1, 2, 5])):
                plans.append((i, dict(mem=dict(at=k, len=ln, min=MIN))))
        for k in range(1, starts + 1):
            plans.append((i, dict(thr=dict(at=k, len=rnd.choice([1, -1])))))
        plans.append((i, dict(thr=dict(at=1, len=1), mem=dict(at=1, len=-1, min=MIN))))
    res = S.judge(first, check.stats, pixels=False, extra=vf.constants(PIXELS=False))
    for c in first:
        if res[c["id"]]:
            check.violation(f"nothing refused: {', '.join(res[c['id']])}", dict(case=meta[c["id"]][1]))
    rnd.shuffle(plans)
    plans = plans[:1500 if not THOROUGH else 12000]
    jobs = [job(f"r{k}", i, threads=rnd.choice([1, 1, 2, 3]), cycles=rnd.choice([1, 1, 4]), **kw)
            for k, (i, kw) in enumerate(plans)]
    # threads: of several
    for k, (i, kw) in enumerate(plans):
        if "thr" in kw:
            jobs[k]["threads"] = rnd.choice([2, 3, 4])
            jobs[k]["thr"] = dict(at=rnd.randint(1, jobs[k]["threads"]), len=kw["thr"]["len"])
    evs_all.update(S.replay(exe, jobs, work, timeout=800))
    hangs = 0
    for j in jobs:
        if S.ended(evs_all[j["id"]]) == "hang" and hangs < 2:
            again = S.replay(exe, [dict(j, timeout=100)], work + "-again", jobs=1)
            hangs += S.ended(again[j["id"]]) == "hang"
            if S.ended(again[j["id"]]) != "hang":
                evs_all.update(again)
    # stores that have to be whole
    look_at, whole = [], {}
    for j in jobs:
        if S.ended(evs_all[j["id"]]) != "ok":
            continue
        last = streams(evs_all[j["id"]])[-1]["events"]
        if all(e["ok"] for e in last) and last[-1]["refused"] == 0:
            look_at.append(trace_case(j["id"], ["status", "same"], refs[meta[j["id"]][0]]))
    for id_, failed in S.judge(look_at, check.stats, pixels=False, extra=vf.constants(PIXELS=False)).items():
        whole[id_] = "no" if failed else "yes"
    cases, refused, failed_calls = [], 0, 0
    for j in jobs:
        evs = evs_all[j["id"]]
        how = S.ended(evs)
        if how in ("error", "none"):
            raise vf.MachineryError(f"driver: {j}: {evs}")
        ss = streams(evs)
        out = []
        for k, s in enumerate(ss):
            # (what is set up once stays)
            base_ = ss[min(1, len(ss) - 1)]
            held = 0
            if len(ss) > 1 and k >= 1:
                held = max(s[x] - base_[x] for x in ("fds", "threads"))
                if k == len(ss) - 1 and all(ss[a]["blocks"] < ss[a + 1]["blocks"] for a in range(1, len(ss) - 1)):
                    held = max(held, 1)
            else:
                held = max(s["threads"] - 1, 0)
            out.append(dict(events=[dict(op=e["op"], refused=e["refused"], ok=e["ok"], same=e.get("same", False)) for e in s["events"]], held=held,
                            whole=whole.get(j["id"], "") if k == len(ss) - 1 else ""))
        refused += sum(e["refused"] > 0 for s in ss for e in s["events"])
        failed_calls += sum(not e["ok"] for s in ss for e in s["events"])
        cases.append(dict(id=j["id"], streams=out, lived=how == "ok"))
    res = S.judge(cases, check.stats, module="ScarceTrace", init="TInit", next_="TNext", view=None, pixels=False,
                  reject="no behaviour of Scarce has these calls")
    for j, c in zip(jobs, cases):
        if res[c["id"]]:
            how = S.ended(evs_all[j["id"]])
            what = f"process: {how}" if how != "ok" else "calls, store or what is held"
            check.violation(f"{what}: {json.dumps({k: j[k] for k in ('mem', 'thr') if k in j})} {json.dumps(j['settings'])[:200]}",
                            dict(case=j, recorded=c))
    check.stats.update(evaluations=len(cases), distinct_nontrivial=sum(any(e["refused"] for s in c["streams"] for e in s["events"]) for c in cases),
                       calls_something_was_refused_to=refused, failed_calls=failed_calls, stores_that_had_to_be_whole=len(look_at),
                       allocations_of_at_least=MIN,
                       rule="generated settings with chunks of at least 4 KiB; each allocation of at least that (or one and the next "
                            "few, or all from there on) and each start of a thread refused in turn; non-trivial: something was refused")
    check.assumptions.append("memory is refused to operator new only, in amounts of 4 KiB or more; what the S3 client and blosc get for themselves is not refused")
    if jobs:
        check.sample(jobs[0])
        check.sample(cases[-1])
    return check.finish()
