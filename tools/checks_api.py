"""Checks of the C interface: settings (C07), call orders (C20), replacing and
containment (C21), resources (C24)."""
import concurrent.futures as cf
import json, os, random
import vf, streams as S
from vf import SEED, THOROUGH


# ------------------------------------------------------------------- C07

SET_CFG = "CONSTANTS\n GDepth = %d\n Emit = %s\n Early = %s\nINIT Init\nNEXT Next\nINVARIANTS Exact NoEffect Anchors\nCHECK_DEADLOCK FALSE\n%s"


def emitted(r):
    out, seen = [], set()
    for l in r.out.splitlines():
        if l.startswith('"CASE'):
            t = json.loads(l)[4:]
            if t not in seen:
                seen.add(t)
                out.append(json.loads(t))
    return out


def settings_cases(check):
    """all settings with up to two changes, and random ones with up to four"""
    d = 2
    n = 120000 if THOROUGH else 5000
    with cf.ThreadPoolExecutor(3) as ex:
        fa = ex.submit(vf.tlc, "SettingsGen", SET_CFG % (d, "TRUE", "FALSE", "VIEW View\n"), workers=4)
        fb = ex.submit(vf.tlc, "SettingsGen", SET_CFG % (4, "TRUE", "FALSE", ""), workers=1,
                       args=["-simulate", f"num={n}", "-depth", "12", "-seed", str(SEED)])
        fc = ex.submit(vf.tlc, "SettingsGen", SET_CFG % (1, "FALSE", "TRUE", "VIEW View\n"), workers=2)
        a, b, c = fa.result(), fb.result(), fc.result()
    if c.ok:
        raise vf.MachineryError("SettingsGen accepts clearing the store path first")
    check.stats["models_with_a_detail_left_out_rejected"] = 1
    for r in (a, b):
        if not r.ok:
            raise vf.MachineryError("SettingsGen:\n" + r.out[-3000:])
        check.stats["states"] += r.distinct
        check.stats["transitions"] += r.generated
    out = emitted(a)
    check.stats["settings_with_few_changes"] = len(out)
    seen = {json.dumps(s, sort_keys=True) for s in out}
    return out + [s for s in emitted(b) if json.dumps(s, sort_keys=True) not in seen]


def c07():
    check = vf.Check("C07")
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(vf.build, "settings_driver", ["settings_driver.cpp", "fake_minio/fakes3.cpp"])
        cases_ = settings_cases(check)
        exe = fb.result()
    jobs = [dict(id=f"s{i}", s=s, timeout=20) for i, s in enumerate(cases_)]
    evs = S.replay(exe, jobs, os.path.join(vf.scratch(), "c07"), timeout=800)
    cases, meta = [], {}
    for j in jobs:
        e = evs[j["id"]]
        how = S.ended(e)
        if how in ("error", "none"):
            raise vf.MachineryError(f"driver: {j}: {e}")
        by = {x["ev"]: x for x in e}
        created = by.get("created", dict(ok=False, same=True))
        changed = "after" in by
        cases.append(dict(id=j["id"], s=j["s"], ok=created["ok"], how=how,
                          before={"x": "x"}, after={"x": "changed" if changed else "x"}))
        meta[j["id"]] = (j, dict(created=created, how=how, before=by.get("before"), after=by.get("after")))
    res = S.judge(cases, check.stats, module="SettingsTrace", init="TInit", next_="TNext", view=None, pixels=False)
    valid = 0
    for c in cases:
        valid += c["ok"]
        if res[c["id"]]:
            j, m = meta[c["id"]]
            check.violation(f"{', '.join(res[c['id']])}: {json.dumps(j['s'])}", dict(case=j, seen=m))
    check.stats["accepted"] = valid
    check.stats["evaluations"] = check.stats["distinct_nontrivial"] = len(cases)
    check.stats["rule"] = ("settings that differ from a valid one in a few places (every one or two changes, random "
                           "combinations of up to four); each is created in a scratch directory with old content at the "
                           "store path; distinct settings count")
    check.sample(jobs[0])
    check.sample(jobs[-1])
    return check.finish()


# ------------------------------------------------------------------- C20

API_CFG = "CONSTANTS\n Depth = %d\n Emit = %s\nINIT GInit\nNEXT GSpecNext\nINVARIANTS RefusedUnchanged Sane\nCHECK_DEADLOCK FALSE\n"


def build_san(name, sources, **kw):
    """with AddressSanitizer (reports end the process)"""
    return vf.build(name, sources, flavor="asan", **kw)


def c20():
    check = vf.Check("C20")
    n = 900 if THOROUGH else 240
    profile = dict(GMinFrames=2, GMaxPixels=300, GMaxFrames=12, GCuts="frames", GMaxSize=5)
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(vf.build, "api_driver", ["api_driver.cpp", "heap_shim.cpp", "fake_minio/fakes3.cpp"])
        fs = ex.submit(build_san, "api_driver_san", ["api_driver.cpp", "fake_minio/fakes3.cpp"], defines=["-DNO_HEAP"])
        fm = ex.submit(vf.model_check, "ApiGen", API_CFG % (5, "FALSE"), check.stats, "every order of calls", workers=2)
        fg = ex.submit(vf.tlc, "ApiGen", API_CFG % (60, "TRUE"), workers=1,
                       args=["-simulate", f"num={n}", "-depth", "200", "-seed", str(SEED)])
        fc = {d: ex.submit(S.generate, n // 3 + 20, SEED * 77 + d, check.stats, **profile, GDims={d},
                           GFs={True, False} if d == 4 else {True}, GMultiscale={True, False} if d == 3 else {False})
              for d in (3, 4, 5)}
        exe, san = fb.result(), fs.result()
        fm.result()
        g = fg.result()
        cfgs = {d: f.result() for d, f in fc.items()}
    if not g.ok:
        raise vf.MachineryError("ApiGen:\n" + g.out[-3000:])
    check.stats["transitions"] += g.generated
    orders = emitted(g)
    work = os.path.join(vf.scratch(), "c20")
    jobs, meta = {"": [], "-san": []}, {}
    for k, o in enumerate(orders):
        sc = cfgs[o["ndims"]][k // 3 % len(cfgs[o["ndims"]])]
        frame = sc["cfg"]["dims"][-1]["s"] * sc["cfg"]["dims"][-2]["s"] * sc["cfg"]["bpp"]
        for fl in ("", "-san"):
            if fl and k % 2:
                continue
            ops = [op for op in o["ops"] if not (fl and op["op"] == "newdims" and op["n"] == -1)]
            id_ = f"o{k}{fl}"
            j = dict(id=id_, settings=S.settings(sc), frame=frame, ops=ops, timeout=30)
            jobs[fl].append(j)
            meta[id_] = (sc, j)
    evs = S.replay(exe, jobs[""], work, timeout=800)
    evs.update(S.replay(san, jobs["-san"], work + "-san", timeout=800,
                        env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1", "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1"}))
    cases, stores = [], []
    for id_, (sc, j) in meta.items():
        how = S.ended(evs[id_])
        if how in ("error", "none"):
            raise vf.MachineryError(f"driver: {j}: {evs[id_]}")
        events = [e["e"] for e in evs[id_] if e["ev"] == "call"]
        cases.append(dict(id=id_, how=how, ndims=len(sc["cfg"]["dims"]), events=events))
        # the last stream there was, and what it must have stored
        last = [i for i, e in enumerate(events) if e["op"] == "create" and e["r"].get("ok")]
        if how == "ok" and last:
            calls = [dict(op="create", n=0, ran=True, ok=True, st=-1, out=-1)]
            for e in events[last[-1] + 1:]:
                if e["op"] == "append" and e["r"].get("st") == 0 and e["given"]:
                    calls.append(dict(op="append", n=e["n"], ran=True, ok=True, st=0, out=e["r"]["out"]))
                if e["op"] == "destroy" and e["given"]:
                    break
            calls.append(dict(op="destroy", n=0, ran=True, ok=True, st=0, out=-1))
            obs = S.load(work + ("-san" if id_.endswith("-san") else ""), id_, sc, s3=not sc["cfg"]["fs"]).observe()
            stores.append(dict(id=id_, cfg=S.trace_cfg(sc), ops=calls, obs=obs, ref={"<none>": "<none>"},
                               want=["status", "keys", "docs", "pixels"]))
    res = S.judge(cases, check.stats, module="ApiTrace", init="TInit", next_="TNext", view=None, pixels=False,
                  reject="calls not behaving as documented")
    res2 = S.judge(stores, check.stats)
    for c in cases:
        failed = res[c["id"]] + res2.get(c["id"], [])
        if c["how"] != "ok":
            failed = failed + [f"process: {c['how']}"]
        if failed:
            sc, j = meta[c["id"]]
            check.violation(f"{', '.join(failed)}: {json.dumps(j)[:300]}", dict(case=j, calls=c["events"], failed=failed))
    check.stats["evaluations"] = len(cases)
    check.stats["distinct_nontrivial"] = len(orders)
    check.stats["calls"] = sum(len(c["events"]) for c in cases)
    check.stats["stores_compared"] = len(stores)
    check.stats["rule"] = ("random orders of 30 or so calls of the C interface with present and missing arguments, from the "
                           "specification; half of them again with AddressSanitizer; distinct orders count")
    check.sample(jobs[""][0])
    return check.finish()


# ------------------------------------------------------------------- C21

REP_CFG = "CONSTANTS\n Emit = %s\n MaxInside = %d\n Variant = \"%s\"\nINIT Init\nNEXT Next\nINVARIANTS Contained AllNew NeverHalf\nCHECK_DEADLOCK FALSE\n"


def replace_cases(check):
    with cf.ThreadPoolExecutor(5) as ex:
        fm = ex.submit(vf.model_check, "Replace", REP_CFG % ("TRUE", 1, "none"), check.stats, "taking over a path", workers=4)

        bad = {v: ex.submit(vf.tlc, "Replace", REP_CFG % ("FALSE", 1, v), workers=2)
               for v in ("follow", "inplace", "keep", "sweep", "late")}
        r = fm.result()
        for v, f in bad.items():
            if f.result().ok:
                raise vf.MachineryError(f"Replace accepts the variant {v}")
        check.stats["models_with_a_detail_left_out_rejected"] = len(bad)
        out = emitted(r)
    return out


def j_(p):
    return "/".join(p)


def c21():
    check = vf.Check("C21")
    rnd = random.Random(SEED)
    n = 8 if THOROUGH else 1
    prof = dict(GMaxPixels=160, GMaxSize=4, GMaxFrames=8, GMinFrames=0, GMultiscale={True, False})
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(vf.build, "replace_driver", ["replace_driver.cpp", "io_shim.cpp", "fake_minio/fakes3.cpp"])
        fn = ex.submit(S.generate, 60 * n, SEED * 31, check.stats, **prof, GFs={True})
        f3 = ex.submit(S.generate, 20 * n, SEED * 32, check.stats, **prof, GFs={False})
        fo = ex.submit(S.generate, 40 * n, SEED * 33, check.stats, **(prof | dict(GMaxPixels=400, GMinFrames=2, GMaxSize=6)), GFs={True})
        places = replace_cases(check)
        exe, new, news3, olds = fb.result(), fn.result(), f3.result(), fo.result()

    def job(id_, pl, sc, **kw):
        d = dict(id=id_, settings=S.settings(sc), ops=sc["ops"], store=j_(pl["place"]["store"]), given=pl["place"]["given"],
                 relative=pl["place"]["relative"], moves=pl["moves"], timeout=25,
                 around=[dict(p=j_(a["p"]), t={"dir": "dir", "file": "file", "link": "link"}[a["node"]["t"]],
                              to=j_(a["node"]["to"]) if a["node"]["t"] == "link" else f"content {a['node']['i']}")
                         for a in sorted(pl["around"], key=lambda a: a["p"])],
                 inside=[dict(p=j_(e["p"]), t=e["t"], to=e["to"]) for e in pl["inside"]])
        at = pl["at"]
        if at["t"] == "old":
            o = rnd.choice(olds)
            d["old"] = dict(settings=S.settings(o), ops=o["ops"])
        elif at["t"] != "none":
            d["at"] = at
        d.update(kw)
        return d, sc, pl
    rnd.shuffle(places)
    jobs = []
    for k, pl in enumerate(places * n):
        jobs.append(job(f"p{k}", pl, rnd.choice(new)))
    # more than one thing inside
    both = [p for p in places if p["inside"]]
    for k in range(150 * n):
        pl = dict(rnd.choice(both))
        es = list(pl["inside"])
        for p in rnd.sample(both, rnd.randint(1, 4)):
            e = p["inside"][0]
            if all(not (x["p"][:len(e["p"])] == e["p"] or e["p"][:len(x["p"])] == x["p"]) for x in es):
                es.append(e)
        pl["inside"] = es
        jobs.append(job(f"m{k}", pl, rnd.choice(new)))
    for k in range(50 * n):
        jobs.append(job(f"s{k}", rnd.choice(places), rnd.choice(news3)))
    work = os.path.join(vf.scratch(), "c21")
    evs = S.replay(exe, [j for j, _, _ in jobs], work, timeout=800)
    # the same with one operation failing
    faults = []
    for j, sc, pl in rnd.sample(jobs, min(len(jobs), 260 * n)):
        a = [e for e in evs[j["id"]] if e["ev"] == "after"]
        if a and a[0]["count"]:
            for _ in range(2):
                io = dict(at=rnd.randint(1, a[0]["count"]), err=rnd.choice([28, 5, 13]), len=rnd.choice([1, 1, 2, -1]))
                faults.append((dict(j, id=f"f{len(faults)}", io=io), sc, pl))
    evs.update(S.replay(exe, [j for j, _, _ in faults], work, timeout=800))
    cases, stores, meta = [], [], {}
    for j, sc, pl in jobs + faults:
        e = evs[j["id"]]
        how = S.ended(e)
        by = {x["ev"]: x for x in e}
        meta[j["id"]] = (j, how, e)
        if how in ("error", "none"):
            raise vf.MachineryError(f"driver: {j}: {e}")
        if "after" not in by:
            if how == "ok" or "before" not in by:
                raise vf.MachineryError(f"driver: {j}: {e}")
            continue
        created = by.get("create", {}).get("ok", False)
        fault = "io" in j
        onfs = sc["cfg"]["fs"]
        locked = any(x["t"] == "locked" for x in j["inside"])
        dangling = j.get("at", {}).get("to") == "nowhere"
        complete = created and not fault
        ref = by["ref"]["tree"]
        cases.append(dict(id=j["id"], store=j["store"], before=by["before"]["tree"], after=by["after"]["tree"],
                          s3before=by["before"]["s3"], s3after=by["after"]["s3"], touched=by["after"]["touched"],
                          reqs=by["after"]["reqs"], ref=list(ref) if onfs else [], created=created, onfs=onfs,
                          may=fault or (onfs and (locked or dangling)), complete=complete and onfs))
        if complete:
            root = os.path.join(work, j["id"], "s3", "bucket", "s.zarr") if not onfs else os.path.join(work, j["id"], "box", j["store"])
            obs = S.Store.load(root, sc["cfg"] | dict(comp=sc["cfg"].get("comp", {}).get("compressor", 0))).observe()
            calls = [dict(op=x["ev"], n=x.get("n", 0), ran=True, ok=x.get("ok", True), st=x.get("st", 0) if x["ev"] != "create" else -1,
                          out=x.get("out", -1)) for x in e if x["ev"] in ("create", "append", "destroy")]
            stores.append(dict(id=j["id"], cfg=S.trace_cfg(sc), ops=calls, obs=obs, ref={"<none>": "<none>"},
                               want=["status", "keys", "docs", "pixels"]))
    res = S.judge(cases, check.stats, module="ReplaceTrace", init="Init", next_="Next", view=None, pixels=False)
    res2 = S.judge(stores, check.stats)
    for id_, (j, how, e) in meta.items():
        failed = res.get(id_, []) + res2.get(id_, [])
        if how != "ok":
            failed = failed + [f"process: {how}"]
        if failed:
            check.violation(f"{', '.join(failed)}: at={j.get('at', 'old' if 'old' in j else None)} inside={j['inside']} given={j['given']}{' moves' if j['moves'] else ''} io={j.get('io')}",
                            dict(case=j, failed=failed, seen=[x for x in e if x["ev"] in ("before", "after")]))
    check.stats["evaluations"] = len(cases)
    check.stats["distinct_nontrivial"] = len({json.dumps([j["store"], j["given"], j.get("at"), j["inside"], j.get("io"), j["settings"]], sort_keys=True)
                                              for j, _, _ in jobs + faults})
    check.stats["changes_seen"] = sum(len(c["touched"]) + len(c["reqs"]) for c in cases)
    check.stats["rule"] = ("every situation of Replace.tla (what is at the store path, one thing inside it, where it is) and random "
                           "combinations, each taken over by a random stream, then again with failing operations; every change "
                           "to the file system in between is recorded with its real path")
    check.sample(jobs[0][0])
    return check.finish()


# ------------------------------------------------------------------- C24

RES_CFG = ("CONSTANTS\n Levels = %d\n Chunk = %d\n Shard = %d\n Files = 2\n Workers = 2\n Streams = 2\n Omit = \"%s\"\nINIT Init\nNEXT Next\n"
           "INVARIANTS Bounded BoundedThreads Released\nCONSTRAINT Small\nCHECK_DEADLOCK FALSE\n")
RES_OMIT = ("join", "metadata", "levels", "failed finish", "pair", "close", "reopen")


def res_models(check):
    sizes = [(1, 1, 1), (2, 2, 3), (3, 2, 3)] + ([(4, 3, 3)] if THOROUGH else [])
    with cf.ThreadPoolExecutor(6) as ex:
        fs = [ex.submit(vf.model_check, "Resources", RES_CFG % (*z, "none"), check.stats, f"levels, chunk, shard {z}", workers=1) for z in sizes]
        bad = {o: ex.submit(vf.tlc, "Resources", RES_CFG % (3, 2, 3, o), workers=1) for o in RES_OMIT}
        [f.result() for f in fs]
        for o, f in bad.items():
            if f.result().ok:
                raise vf.MachineryError(f"Resources accepts forgetting: {o}")
    check.stats["models_with_a_detail_left_out_rejected"] = len(bad)


def period_frames(sc):
    """frames after which everything is as it was: a shard layer of the smallest level"""
    d = sc["cfg"]["dims"]
    n = d[0]["c"] * (d[0]["h"] if sc["cfg"]["v"] == 3 else 1)
    for x in d[1:-2]:
        n *= x["s"]
    return n * 2 ** (sc["levels"] - 1)


def c24():
    check = vf.Check("C24")
    rnd = random.Random(SEED)
    n = 6 if THOROUGH else 1
    prof = dict(GMaxPixels=160, GMaxSize=4, GMaxFrames=8, GMinFrames=1)
    pyr = dict(GMaxPixels=300, GMaxSize=8, GMaxFrames=8, GMinFrames=1, GMultiscale={True})
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(vf.build, "resource_driver", ["resource_driver.cpp", "heap_shim.cpp", "io_shim.cpp", "fake_minio/fakes3.cpp"])
        fm = ex.submit(res_models, check)
        fg = [ex.submit(S.generate, k * n, SEED * 41 + i, check.stats, **p) for i, (k, p) in enumerate(
            [(90, prof | dict(GFs={True})), (50, prof | dict(GFs={False})), (50, pyr | dict(GFs={True})),
             (30, pyr | dict(GFs={True}, GDims={3})), (24, pyr | dict(GFs={False}))])]
        exe = fb.result()
        fm.result()
        scs = [s for f in fg for s in f.result()]
    work = os.path.join(vf.scratch(), "c24")
    jobs, meta = [], {}

    def cut(total, fb):
        """a period's bytes in pieces, however they fall"""
        out = []
        while total:
            k = min(total, rnd.choice([fb, fb, 2 * fb, 3 * fb + 1, rnd.randint(1, 2 * fb), total]))
            out.append(k)
            total -= k
        return out

    def add(sc, kind, cycles, warm=2, base=2):
        id_ = f"{kind}{len(jobs)}"
        j = dict(id=id_, settings=S.settings(sc), cycles=cycles, threads=rnd.choice([1, 2, 3]), timeout=60)
        jobs.append(j)
        meta[id_] = (sc, j, warm, base)

    budget = 0
    for sc in scs:
        sc["cfg"]["dims"][0]["s"] = rnd.choice([0, 0, sc["cfg"]["dims"][0]["s"]])
        fb = sc["cfg"]["dims"][-1]["s"] * sc["cfg"]["dims"][-2]["s"] * sc["cfg"]["bpp"]
        P = period_frames(sc)
        if P > 96:
            continue
        reps = 14 if P * 14 <= 400 else 9
        short = [dict(periods=[cut(max(1, rnd.randint(1, P * fb)), fb)]) for _ in range(1)]
        # a long stream, then the same short one again and again, ended anywhere
        add(sc, "long", [dict(periods=[cut(P * fb, fb) for _ in range(reps)])] + short * 4)
    good = [(i, m[0]) for i, m in meta.items()]
    evs = S.replay(exe, jobs, work, timeout=800)
    # the same with failures: once per cycle, at the same place every time
    later = len(jobs)
    for lid, sc in good:
        fb = sc["cfg"]["dims"][-1]["s"] * sc["cfg"]["dims"][-2]["s"] * sc["cfg"]["bpp"]
        P = period_frames(sc)
        periods = [cut(min(P, 6) * fb, fb), [fb, 1, 2 * fb]]
        # (about as many operations as a stream of this size has)
        seen = [c for c in evs[lid] if c["ev"] == "cycle"]
        ops = max([c["io" if sc["cfg"]["fs"] else "reqs"] for c in seen[1:]] or [8])
        for _ in range(3):
            k = rnd.choice([rnd.randint(1, 12), rnd.randint(1, ops + 4), rnd.randint(1, 2 * ops + 4)])
            ln = rnd.choice([-1, -1, 1, 2])
            if sc["cfg"]["fs"]:
                f = dict(io=dict(at=k, err=rnd.choice([28, 5, 24, 13]), len=ln))
            else:
                f = dict(s3fail=dict(at=k, len=ln, throw=rnd.random() < 0.5))
            add(sc, "fault", [dict(periods=periods, **f)] * 6)
        # a creation that is refused
        over = rnd.choice([dict(nobucket=True), dict(noname=True), dict(over=dict(v=7)), dict(over=dict(custom="{")),
                           dict(over=dict(dtype="none")), dict(over=dict(comp=dict(compressor=1, codec=1, level=77, shuffle=1)))] +
                          ([dict(over=dict(store="no/such/dir/s.zarr"))] if sc["cfg"]["fs"] else [dict(s3fail=dict(at=1))]))
        add(sc, "refused", [dict(periods=periods, **over)] * 6)
    evs.update(S.replay(exe, jobs[later:], work, timeout=800))
    cases = []
    failed_calls = refused = 0
    for id_, (sc, j, warm, base) in meta.items():
        how = S.ended(evs[id_])
        if how in ("error", "none"):
            raise vf.MachineryError(f"driver: {j}: {evs[id_]}")
        cyc = [{k: v for k, v in e.items() if k != "ev"} for e in evs[id_] if e["ev"] == "cycle"]
        if how != "ok":
            check.violation(f"process: {how}: {json.dumps(j)[:300]}", dict(case=j, cycles=cyc))
            continue
        for c in cyc:       # (TLC's numbers are 32 bits)
            for x in c["samples"]:
                for k in ("bytes", "peak"):
                    x[k] = min(x[k], 10 ** 9)
        failed_calls += sum(c["failed"] > 0 for c in cyc)
        refused += sum(not c["created"] for c in cyc)
        cases.append(dict(id=id_, cycles=cyc, warm=warm, base=base))
    res = S.judge(cases, check.stats, module="ResourcesTrace", init="Init", next_="Next", view=None, pixels=False)
    for c in cases:
        if res[c["id"]]:
            sc, j, *_ = meta[c["id"]]
            check.violation(f"{', '.join(res[c['id']])}: {json.dumps(j)[:250]}", dict(case=j, failed=res[c["id"]], cycles=c["cycles"]))
    check.stats["evaluations"] = len(cases)
    check.stats["distinct_nontrivial"] = len(cases)
    check.stats["streams"] = sum(len(c["cycles"]) for c in cases)
    check.stats["streams_with_failed_appends"] = failed_calls
    check.stats["refused_creations"] = refused
    check.stats["rule"] = ("generated settings; a long stream measured after every period of its layout, then the same stream again "
                           "and again, ended anywhere, with a failure at the same operation every time, and refused creations")
    check.sample(jobs[0])
    check.sample(jobs[-1])
    return check.finish()
