"""The check of the Python binding (C26)."""
import concurrent.futures as cf
import json, os, subprocess, sys
import vf, streams as S
from vf import SEED, THOROUGH
from checks_api import emitted

CFG = ("CONSTANTS\n Mode = \"%s\"\n Depth = %d\n Emit = %s\n MaxExtent = %d\n MaxAxes = %d\n MaxElements = %d\n MaxSteps = %d\n"
       "INIT Init\nNEXT SpecNext\nINVARIANTS Exact InBlock ContiguousIsRaw\nCHECK_DEADLOCK FALSE\n")


def programs(exe, cases, work):
    """runs programs, in a new process after one that ends it; id -> (how it ended, steps)"""
    os.makedirs(work, exist_ok=True)
    out, left, n = {}, list(cases), 0
    while left:
        n += 1
        c, o = os.path.join(work, f"cases{n}.json"), os.path.join(work, f"out{n}")
        with open(c, "w") as fh:
            json.dump(left, fh)
        try:
            p = subprocess.run([sys.executable, os.path.join(vf.HARNESS, "binding_driver.py"), exe, c, o], cwd=work,
                               capture_output=True, text=True, timeout=300,
                               env=dict(os.environ, MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1"))
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = "hang", ""
        steps = {}
        done = set()
        for l in open(o) if os.path.exists(o) else ():
            try:
                e = json.loads(l)
            except ValueError:
                break
            if e.get("end"):
                done.add(e["case"])
            else:
                steps.setdefault(e["case"], []).append(e)
        if not steps and rc:
            raise vf.MachineryError("binding driver: " + err[-3000:])
        for c_ in left:
            if c_["id"] in done:
                out[c_["id"]] = ("ok", steps.get(c_["id"], []))
        left = [c_ for c_ in left if c_["id"] not in done]
        if left:
            if rc and isinstance(rc, int) and rc > 0 and "Traceback" in err and "binding_driver.py" in err:
                raise vf.MachineryError("binding driver: " + err[-3000:])
            out[left[0]["id"]] = ("hang" if rc == "hang" else f"ended with {rc}", steps.get(left[0]["id"], []))
            left = left[1:]
    return out


def c26():
    check = vf.Check("C26")
    n = 1200 if THOROUGH else 200
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(vf.build_module, "acquire_zarr", ["python/acquire-zarr-py.cpp"], ["binding_stub.cpp"],
                       extra=[f"-I{vf.HARNESS}/pybind_standin"])
        small = (2, "FALSE", 3, 2 if not THOROUGH else 3, 8 if not THOROUGH else 12, 3)
        fm = ex.submit(vf.model_check, "BindingGen", CFG % ("exact", *small) + "VIEW View\n", check.stats,
                       "every small view, appended", workers=2)
        bad = {m: ex.submit(vf.tlc, "BindingGen", CFG % (m, *small) + "VIEW View\n", workers=2) for m in ("raw", "dense")}
        gen = [ex.submit(vf.tlc, "BindingGen", CFG % ("exact", 40, "TRUE", x, a, e, 6), workers=1,
                         args=["-simulate", f"num={n}", "-depth", "3000", "-seed", str(SEED * 7 + x)])
               for x, a, e in ((4, 4, 64), (9, 3, 120))]
        exe = fb.result()
        fm.result()
        for m, f in bad.items():
            if f.result().violated != "Exact":
                raise vf.MachineryError(f"BindingGen accepts the variant {m}:\n" + f.result().out[-2000:])
        check.stats["models_with_a_detail_left_out_rejected"] = len(bad)
        progs = []
        for f in gen:
            r = f.result()
            if not r.ok:
                raise vf.MachineryError("BindingGen:\n" + r.out[-3000:])
            check.stats["transitions"] += r.generated
            progs += emitted(r)
    jobs = [dict(id=f"p{i}", ops=p["ops"]) for i, p in enumerate(progs)]
    parts = [jobs[i::vf.CPUS] for i in range(vf.CPUS)]
    seen = {}
    with cf.ThreadPoolExecutor(vf.CPUS) as ex:
        for r in ex.map(lambda p: programs(exe, p[1], os.path.join(vf.scratch(), f"c26-{p[0]}")), enumerate(parts)):
            seen.update(r)
    vf.log("programs run")
    cases, by = [], {}
    for j in jobs:
        how, steps = seen[j["id"]]
        for e in steps:
            e.pop("case", None), e.pop("err", None)
        cases.append(dict(id=j["id"], how=how, steps=steps))
        by[j["id"]] = j
    res = S.judge(cases, check.stats, module="BindingTrace", init="TInit", next_="TNext", view=None, pixels=False,
                  reject="a step the specification does not know")
    appends = [o for j in jobs for o in j["ops"] if o["op"] == "append"]
    for c in cases:
        if res[c["id"]]:
            check.violation(f"{', '.join(sorted(res[c['id']]))}: {json.dumps(by[c['id']])[:300]}",
                            dict(case=by[c["id"]], seen=c, failed=res[c["id"]]))
    check.stats["evaluations"] = check.stats["distinct_nontrivial"] = len(jobs)
    check.stats["arrays_appended"] = len(appends)
    check.stats["layouts"] = len({json.dumps([o["v"], o["dtype"]]) for o in appends})
    check.stats["rule"] = ("random programs of 40 steps over the binding, from the specification: streams, settings, views of "
                           "arrays made in up to six steps, the log level; distinct programs count")
    check.assumptions.append("pybind11 is not available here: the binding is compiled against a stand-in of ours with the same "
                             "interface over CPython's; the C interface under it records and answers as told")
    check.sample(jobs[0]["ops"][:6])
    return check.finish()
