"""Checks of what must hold under every schedule: the job pool (C10), parallel
creation (C11), the connection pool (C12), schedules of whole streams (C15) and
of several at once (C22), S3 objects (C13)."""
import concurrent.futures as cf
import json, os, random
import vf, streams as S
from vf import SEED, THOROUGH


def explore(exe, scs, name, timeout=800):
    work = os.path.join(vf.scratch(), name)
    return S.replay(exe, [dict(s, timeout=700) for s in scs], work, timeout=timeout)


def traces(check, scs, evs):
    """yields (scenario, trace event) of all explored scenarios"""
    st = check.stats
    for sc in scs:
        e = evs[sc["id"]]
        if S.ended(e) != "ok":
            raise vf.MachineryError(f"driver: {sc['id']}: {e[-2:]}")
        for v in e:
            if v["ev"] == "explored":
                st["executions"] = st.get("executions", 0) + v["runs"]
                st["schedule_points"] = st.get("schedule_points", 0) + v["points"]
            elif v["ev"] == "dfs":
                k = "systematic_complete" if v["complete"] else "systematic_cut_short"
                st[k] = st.get(k, 0) + 1
            elif v["ev"] == "trace":
                yield sc, v


def judge_traces(check, cases, meta, module, what, extra=""):
    res = S.judge(cases, check.stats, module=module, init="TInit", next_="TNext", view=None, pixels=False,
                  extra=extra, reject=f"no behaviour of {module}")
    for c in cases:
        if res[c["id"]]:
            sc, v = meta[c["id"]]
            check.violation(f"{what}: {', '.join(res[c['id']])}; status {v['status']}; "
                            f"events {json.dumps(v['events'])[-400:]}",
                            dict(scenario=dict(sc, explore=dict(plan=v["plan"])), trace=v))
    check.stats["distinct_nontrivial"] = check.stats.get("distinct_nontrivial", 0) + len(cases)
    check.stats["evaluations"] = check.stats.get("executions", 0)


# ------------------------------------------------------------------- C10

def pool_scenarios(rnd, count, explore_cfg):
    out = []
    fixed = [
        dict(n=1, main=[["push", 1], ["push", 2], ["stop"], ["drop"]], jobs={1: {}, 2: {}}),
        dict(n=2, main=[["push", 1], ["push", 2], ["stop"], ["push", 3], ["drop"]], jobs={1: {}, 2: {"ok": False}, 3: {}}),
        dict(n=2, main=[["push", 1], ["push", 2], ["push", 3], ["drop"]], jobs={1: {}, 2: {}, 3: {}}),
        dict(n=2, main=[["push", 1], ["wait", 1], ["push", 2], ["wait", 2], ["stop"], ["drop"]], jobs={1: {}, 2: {}}),
        dict(n=1, main=[["stop"], ["push", 1], ["drop"]], jobs={1: {}}),
        dict(n=3, main=[["drop"]], jobs={}),
        dict(n=0, main=[["push", 1], ["wait", 1], ["drop"]], jobs={1: {}}),
        dict(n=2, main=[["spawn", 1], ["push", 1], ["stop"], ["join", 1], ["drop"]], pushers={1: [2, 3]},
             jobs={1: {}, 2: {}, 3: {}}),
        dict(n=2, main=[["spawn", 1], ["spawn", 2], ["join", 1], ["join", 2], ["stop"], ["drop"]],
             pushers={1: [1, 2], 2: [3]}, jobs={1: {"ok": False}, 2: {}, 3: {"ok": False}}),
        dict(n=2, main=[["push", 1], ["wait", 2], ["stop"], ["drop"]], jobs={1: {"pushes": [2]}, 2: {}}),
        dict(n=2, main=[["push", 1], ["stop"], ["drop"]], jobs={1: {"pushes": [2, 3], "ok": False}, 2: {}, 3: {}}),
    ]
    for i in range(count):
        if i < len(fixed):
            sc = json.loads(json.dumps(fixed[i]))
        else:
            nj = rnd.randint(2, 5)
            jobs = {j: dict(ok=rnd.random() < 0.65, yields=rnd.choice([0, 0, 1, 2])) for j in range(1, nj + 1)}
            todo = list(jobs)
            pushers, main = {}, []
            own = []
            for p in range(1, rnd.choice([1, 1, 2, 3])):
                k = rnd.randint(1, 2)
                if len(todo) > k:
                    pushers[p] = todo[:k]
                    todo = todo[k:]
                    main.append(["spawn", p])
            if len(todo) > 1 and rnd.random() < 0.3:
                jobs[todo[0]]["pushes"] = [todo.pop()]
            waits = rnd.random() < 0.4
            for j in todo:
                main.append(["push", j])
                own.append(j)
                if waits and rnd.random() < 0.5:
                    main.append(["wait", rnd.choice(own)])
            if pushers and rnd.random() < 0.5:
                main.append(["join", 1])
            late = [nj + 1] if rnd.random() < 0.3 else []
            if rnd.random() < 0.7:
                main.append(["stop"])
                for j in late:
                    jobs[j] = {}
                    main.append(["push", j])
            for p in pushers:
                if ["join", p] not in main:
                    main.append(["join", p])
            main.append(["drop"])
            sc = dict(n=rnd.choice([1, 2, 2, 3]), main=main, jobs=jobs, pushers=pushers)
        sc["jobs"] = {str(k): v for k, v in sc["jobs"].items()}
        sc["pushers"] = {str(k): v for k, v in sc.get("pushers", {}).items()}
        mute = i % 2 == 0       # one job fails without a word
        for k, j in sc["jobs"].items():
            if not j.get("ok", True) and mute:
                mute = False
                j["msg"] = ""
            elif not j.get("ok", True):
                j["msg"] = rnd.choice([f"job {k}", f"{k}", f"{k} \u00e9 {'x' * 40}"])
            elif rnd.random() < 0.3:
                j["msg"] = f"fine {k}"
        sc.update(id=f"p{i}", hw=rnd.choice([4, 4, 2, 1]) if i >= len(fixed) else 4,
                  explore=dict(explore_cfg, seed=SEED * 100 + i))
        out.append(sc)
    return out


POOL_CFG = """CONSTANTS
 Jobs = {1, 2, 3, 4}
 Workers = {"a", "b"}
 Main <- %s
 NotifyOnPush = %s
 NotifyAllOnStop = %s
 StopUnderLock = %s
 Recheck = TRUE
SPECIFICATION Spec
INVARIANT Invariant
PROPERTIES Implements Ends
CHECK_DEADLOCK FALSE
"""


def pool_models(check):
    runs = [(m, "TRUE", "TRUE", "TRUE") for m in ("MainA", "MainB", "MainC", "MainD")]
    bad = [("MainA", "FALSE", "TRUE", "TRUE"), ("MainB", "TRUE", "FALSE", "TRUE"), ("MainA", "TRUE", "TRUE", "FALSE")]
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(vf.model_check, "ThreadPoolImpl", POOL_CFG % r, check.stats, "/".join(r), workers=2)
              for r in runs]
        gs = [(r, ex.submit(vf.tlc, "ThreadPoolImpl", POOL_CFG % r, workers=2)) for r in bad]
        fs.append(ex.submit(vf.model_check, "ThreadPool",
                            vf.constants(Jobs={1, 2, 3} if THOROUGH else {1, 2}, Workers={1, 2}) +
                            "SPECIFICATION PSpec\nINVARIANTS AtOnce Once AllRun Silent NoDropWithoutDestruction\n"
                            "PROPERTIES Forever\nCHECK_DEADLOCK FALSE\n", check.stats, "abstract"))
        for f in fs:
            f.result()
        for r, g in gs:   # the model must tell the difference
            if g.result().ok:
                raise vf.MachineryError(f"ThreadPoolImpl accepts {r}")
        check.stats["models_with_a_detail_left_out_rejected"] = len(bad)


def c10():
    check = vf.Check("C10")
    rnd = random.Random(SEED)
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(pool_models, check)
        exe = vf.build("pool_driver", ["pool_driver.cpp", "sched.cpp", "io_shim.cpp"], flavor="sched",
                       only={"thread.pool.cpp", "logger.cpp"})
        cfg = dict(bound=2, dfs=1500, walks=500, spurious=1) if not THOROUGH else \
            dict(bound=3, dfs=40000, walks=10000, spurious=1)
        scs = pool_scenarios(rnd, 40 if not THOROUGH else 120, cfg)
        evs = explore(exe, scs, "pool")
        fm.result()
    cases, meta = [], {}
    for sc, v in traces(check, scs, evs):
        id_ = f"{sc['id']}.{len(cases)}"
        cases.append(dict(id=id_, n=max(1, sc["n"]), status=v["status"], events=v["events"],
                          msg={k: j.get("msg", "") for k, j in sc["jobs"].items()} | {"0": ""}))
        meta[id_] = (sc, v)
    judge_traces(check, cases, meta, "ThreadPoolTrace", "job pool", extra=vf.constants(Jobs={1}, Workers={1}))
    check.stats["rule"] = ("executions of the real pool under schedules chosen by a controlled scheduler: systematic "
                           "with up to two preemptions and one spurious wakeup, then random walks and random "
                           "priorities with plain memory accesses as switching points; distinct traces are judged")
    check.sample(dict(scenario=scs[1], trace=cases[0]["events"]))
    check.sample(dict(scenario=scs[-1]))
    return check.finish()


# ------------------------------------------------------------------- C11

def creator_scenarios(rnd, count, cfg):
    out = []
    for i in range(count):
        kind = rnd.choice(["data", "data", "meta"])
        base = rnd.choice(["a", "a/b", "x y/z.zarr", "store/data/root/0/c1"])
        parts = [rnd.choice([1, 2, 5])] + [rnd.choice([1, 1, 2, 3]) for _ in range(rnd.choice([2, 2, 3]))]
        version = rnd.choice([2, 3])
        sc = dict(id=f"f{i}", kind=kind, base=base, parts=parts, version=version, uri=rnd.random() < 0.3,
                  workers=rnd.choice([1, 2, 2, 3]), obstacles=[])
        segs = base.split("/")
        sc["above"] = ["/".join(segs[:k]) for k in range(1, len(segs))]
        # what is in the way
        if kind == "data":
            idx = [rnd.randrange(n) for n in parts[1:]]
            spots = ["/".join([base] + [str(x) for x in idx[:k]]) for k in range(len(idx) + 1)]
        else:
            spots = [base, base + "/meta", base + "/0", base + "/zarr.json", base + "/.zgroup",
                     base + "/meta/acquire.json"]
        r = rnd.random()
        if r < 0.45:
            for _ in range(rnd.choice([1, 1, 2])):
                sc["obstacles"].append([rnd.choice(["dir", "file", "file", "link"]), rnd.choice(spots)])
        elif r < 0.55:
            sc["obstacles"].append(["file", rnd.choice(sc["above"] or [base])])
        elif r < 0.85:
            sc["fault"] = dict(at=rnd.randint(1, 12), len=rnd.choice([1, 1, 2, -1]),
                               err=rnd.choice([5, 28, 13]))
        # obstacles must be possible to set up: no file where a directory is needed for another
        seen, obs = {}, []
        for k, p in sc["obstacles"]:
            if p in seen or any(q.startswith(p + "/") or p.startswith(q + "/") and seen[q] != "dir" for q in seen):
                continue
            seen[p] = k
            obs.append([k, p])
        sc["obstacles"] = obs
        sc["explore"] = dict(cfg, seed=SEED * 100 + i)
        out.append(sc)
    return out


def creator_before(sc):
    dirs, files, links = set(), set(), set()
    for k, p in sc["obstacles"]:
        segs = p.split("/")
        for n in range(1, len(segs)):
            dirs.add("/".join(segs[:n]))
        dict(dir=dirs, file=files, link=links)[k].add(p)
    return dict(olddirs=sorted(dirs), oldfiles=sorted(files), oldlinks=sorted(links))


FAN_CFG = """CONSTANTS
 Jobs = {1, 2, 3%s}
 Workers = %d
 FlagFirst = %s
 CountAll = %s
SPECIFICATION Spec
INVARIANTS True FrameSafe
PROPERTIES Returns
CHECK_DEADLOCK FALSE
"""


def fan_models(check):
    more = ", 4, 5" if THOROUGH else ", 4"
    vf.model_check("FanOut", FAN_CFG % (more, 3, "TRUE", "TRUE"), check.stats, "3 workers", workers=2)
    vf.model_check("FanOut", FAN_CFG % (more, 1, "TRUE", "TRUE"), check.stats, "1 worker", workers=2)
    for r in (("", 2, "FALSE", "TRUE"), ("", 2, "TRUE", "FALSE")):
        if vf.tlc("FanOut", FAN_CFG % r, workers=2).ok:
            raise vf.MachineryError(f"FanOut accepts {r}")
    check.stats["models_with_a_detail_left_out_rejected"] = 2


def c11():
    check = vf.Check("C11")
    rnd = random.Random(SEED)
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(fan_models, check)
        exe = vf.build("creator_driver", ["creator_driver.cpp", "sched.cpp", "io_shim.cpp", "fake_minio/fakes3.cpp"],
                       flavor="sched")
        cfg = dict(bound=2, dfs=250, walks=120, spurious=0) if not THOROUGH else \
            dict(bound=3, dfs=4000, walks=2000, spurious=1)
        scs = creator_scenarios(rnd, 110 if not THOROUGH else 400, cfg)
        evs = explore(exe, scs, "creator")
        fm.result()
    cases, meta = [], {}
    for sc, v in traces(check, scs, evs):
        id_ = f"{sc['id']}.{len(cases)}"
        r = v["events"][-1] if v["events"] else dict(ok=False, hits=0, dirs=[], files=[], keys=[], arrive=[])
        cases.append(dict(id=id_, status=v["status"], above=sc["above"],
                          **{k: sc[k] for k in ("kind", "base", "parts", "version")},
                          **creator_before(sc),
                          **{k: r[k] for k in ("ok", "hits", "dirs", "files", "keys", "arrive")}))
        meta[id_] = (sc, v)
        k = "outcome_success" if r["ok"] else "outcome_failure"
        check.stats[k] = check.stats.get(k, 0) + v["count"]
    res = S.judge(cases, check.stats, module="CreatorTrace", init="Init", next_="Next", view=None, pixels=False)
    for c in cases:
        if res[c["id"]]:
            sc, v = meta[c["id"]]
            check.violation(f"creation: {', '.join(res[c['id']])}; status {c['status']} ok={c['ok']} hits={c['hits']} "
                            f"of {sc['kind']} {sc['base']} {sc['parts']} {sc['obstacles']} {sc.get('fault')}",
                            dict(scenario=dict(sc, explore=dict(plan=v["plan"])), trace=v))
    check.stats["distinct_nontrivial"] = len(cases)
    check.stats["evaluations"] = check.stats.get("executions", 0)
    check.stats["rule"] = ("real creation of dataset and metadata sinks under schedules chosen by a controlled scheduler "
                           "(synchronisation, file operations, atomics), with obstacles in the way and failing system "
                           "calls; when the call has returned any access of a job to the dead frames is reported")
    check.sample(scs[0])
    check.sample(cases[0])
    return check.finish()


# ------------------------------------------------------------------- C12

CONN_CFG = """CONSTANTS
 Conns = {1%s}
 Threads = {"a", "b", "c"}
 Rounds = %d
 NotifyOnReturn = %s
 Recheck = %s
 ReturnOnFailure = %s
SPECIFICATION Spec
INVARIANT Invariant
PROPERTIES Implements AllDone
CHECK_DEADLOCK FALSE
"""


def conn_models(check):
    r = 3 if THOROUGH else 2
    for more in ("", ", 2"):
        vf.model_check("ConnPoolImpl", CONN_CFG % (more, r, "TRUE", "TRUE", "TRUE"), check.stats, "conns 1" + more, workers=4)
    for x in (("FALSE", "TRUE", "TRUE"), ("TRUE", "FALSE", "TRUE"), ("TRUE", "TRUE", "FALSE")):
        if vf.tlc("ConnPoolImpl", CONN_CFG % ("", 2, *x), workers=2).ok:
            raise vf.MachineryError(f"ConnPoolImpl accepts {x}")
    check.stats["models_with_a_detail_left_out_rejected"] = 3


PART = 5 << 20


def conn_scenarios(rnd, count, cfg):
    big = PART + 3
    use = [["get"], ["use"], ["put"]]
    fixed = [
        dict(n=1, threads=[use, use, use]),
        dict(n=2, threads=[use * 2, use * 2, use]),
        # two wait while both are held; both must go on although one holder never gives back before they do
        dict(n=2, threads=[[["get"], ["await", 1], ["put"]], [["get"], ["put"], ["get"], ["put"]],
                           [["get"], ["put"], ["signal", 1]]]),
        dict(n=3, threads=[[["get"], ["get"], ["put"], ["put"]], use, use, use]),
        dict(n=1, threads=[[["sink", 10]], [["bucket", 1]], use], fail=[1]),
        dict(n=1, threads=[[["sink", 10], ["sink", 10]], [["bucket", 0], ["meta", 2]]], failall=True),
        dict(n=1, threads=[[["sink", big]], use], fail=[1]),
        dict(n=1, threads=[[["sink", big]], use], fail=[2]),
        dict(n=1, threads=[[["sink", big]], use], fail=[3]),
        dict(n=1, threads=[[["sink", big]], use], fail=[4]),
        dict(n=2, threads=[[["sink", big]], [["sink", 5], ["meta", 3]], use], failall=True),
        dict(n=1, threads=[[["drop", big], ["sink", 1]], use], failall=True),
        dict(n=1, threads=[[["drop", 10], ["drop", big]], use]),
    ]
    out = []
    for i in range(count):
        if i < len(fixed):
            sc = json.loads(json.dumps(fixed[i]))
        else:
            n = rnd.choice([1, 1, 2, 2, 3])
            th = []
            for _ in range(rnd.choice([2, 3, 3])):
                ops = []
                for _ in range(rnd.randint(1, 2)):
                    k = rnd.random()
                    if k < 0.45:
                        ops += use
                    elif k < 0.7:
                        ops.append(["sink", rnd.choice([0, 1, 100])])
                    elif k < 0.85:
                        ops.append(["bucket", rnd.choice([0, 1])])
                    else:
                        ops.append(["meta", rnd.choice([2, 3, 4])])
                th.append(ops)
            sc = dict(n=n, threads=th)
            if rnd.random() < 0.6:
                sc["fail"] = rnd.sample(range(1, 8), rnd.choice([1, 2]))
            elif rnd.random() < 0.3:
                sc["failall"] = True
        heavy = any(op[0] in ("sink", "drop") and op[1] > 1000 for t in sc["threads"] for op in t)
        e = dict(cfg, seed=SEED * 100 + i)
        if heavy:
            e["dfs"], e["walks"] = e["dfs"] // 20, e["walks"] // 20
            e["walk_memory"] = False
        sc.update(id=f"c{i}", explore=e)
        out.append(sc)
    return out


def c12():
    check = vf.Check("C12")
    rnd = random.Random(SEED)
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(conn_models, check)
        exe = vf.build("conn_driver", ["conn_driver.cpp", "sched.cpp", "io_shim.cpp", "fake_minio/fakes3.cpp"],
                       flavor="sched")
        cfg = dict(bound=2, dfs=500, walks=200, spurious=1) if not THOROUGH else \
            dict(bound=3, dfs=8000, walks=4000, spurious=1)
        scs = conn_scenarios(rnd, 45 if not THOROUGH else 150, cfg)
        evs = explore(exe, scs, "conn")
        fm.result()
    cases, meta = [], {}
    for sc, v in traces(check, scs, evs):
        id_ = f"{sc['id']}.{len(cases)}"
        ev = v["events"]
        cases.append(dict(id=id_, threads=len(sc["threads"]), conns=list(range(1, sc["n"] + 1)), status=v["status"],
                          ended=bool(ev) and ev[-1]["e"] == "end", events=ev))
        meta[id_] = (sc, v)
    judge_traces(check, cases, meta, "ConnPoolTrace", "connection pool", extra=vf.constants(Conns={1}, Threads={1}))
    check.stats["rule"] = ("the real connection pool, and sinks and creation that use it with failing requests, under "
                           "schedules chosen by a controlled scheduler; in the end all connections are taken at once")
    check.sample(scs[2])
    check.sample(cases[-1])
    return check.finish()


# ------------------------------------------------------------------- C13

def s3sink_cases(rnd, count):
    P = PART
    fixed = [[], [0], [1], [P - 1], [P], [P + 1], [2 * P], [2 * P - 1], [2 * P + 1], [3 * P], [1, P - 1], [1, P], [P, 1],
             [P - 1, 1], [P - 1, 2], [P, P], [P, 0, P], [P // 2, P, P // 2], [2 * P, 1, 2 * P], [1] * 9,
             [P + 1, P - 1], [P - 1, P + 2, P - 1], [4 * P + 7], [0, 0, 5, 0]]
    out = []

    def add(w, **kw):
        out.append(dict(id=f"u{len(out)}", writes=w, seed=len(out), conns=rnd.choice([1, 2, 3]), timeout=20, **kw))

    def requests(w):
        n = sum(w)
        return 0 if n == 0 else 1 if n < P else 2 + (n + P - 1) // P
    for w in fixed:
        add(w)
        for k in range(1, requests(w) + 1):
            add(w, fail=[k])
            if k % 2 or THOROUGH:
                add(w, failfrom=k)
            # the lost part must not be forgotten by what follows
            if sum(w) > P:
                add(w + [3, P], fail=[k])
        if sum(w):
            add(w, abandon=True)
    while len(out) < count:
        w = [rnd.choice([0, 1, 17, rnd.randrange(P), rnd.randrange(2 * P), P, P - 1, P + 1])
             for _ in range(rnd.randint(1, 5))]
        add(w)
        r = requests(w)
        if r:
            add(w, fail=sorted({rnd.randint(1, r) for _ in range(rnd.choice([1, 2]))}))
            add(w + [rnd.choice([1, P, 2 * P])], fail=[rnd.randint(1, r)])
    return out


def c13():
    check = vf.Check("C13")
    rnd = random.Random(SEED)
    cfg = "CONSTANTS\n Part = %d\n MaxBytes = %d\n FailSticks = %s\nSPECIFICATION Spec\n" \
          "INVARIANTS Whole Hidden Reported Success Legal\nCHECK_DEADLOCK FALSE\n"
    for p, m in ((1, 6), (2, 7), (3, 8)) + (((3, 12), (4, 13)) if THOROUGH else ()):
        vf.model_check("S3Sink", cfg % (p, m, "TRUE"), check.stats, f"part {p} bytes {m}")
    if vf.tlc("S3Sink", cfg % (2, 6, "FALSE")).ok:
        raise vf.MachineryError("S3Sink accepts forgetting a lost part")
    check.stats["models_with_a_detail_left_out_rejected"] = 1
    exe = vf.build("s3sink_driver", ["s3sink_driver.cpp", "fake_minio/fakes3.cpp"])
    scs = s3sink_cases(rnd, 400 if not THOROUGH else 3000)
    evs = S.replay(exe, scs, os.path.join(vf.scratch(), "s3sink"))
    cases = []
    for sc in scs:
        e = evs[sc["id"]]
        fin = [v for v in e if v["ev"] == "fin"]
        f = fin[0] if fin else dict(ok=True, log=[], size=-1, same=False, others=0)
        st = S.ended(e)
        if sc.get("abandon"):   # not finalized: nothing is to be seen, and that is all there is to say
            f["ok"] = False
            f["log"] = [dict(op="", part=0, size=0, ok=False, refused=False)]
        elif not fin and st == "ok":
            st = "none"
        cases.append(dict(id=sc["id"], status=st, fin=f["ok"], log=f["log"], size=f["size"], same=f["same"],
                          others=f["others"],
                          writes=[{k: v[k] for k in ("n", "ok", "seen")} for v in e if v["ev"] == "write"]))
        if len(cases[-1]["writes"]) < len(sc["writes"]) and st == "ok":
            cases[-1]["status"] = "incomplete"
        k = "faulted" if "fail" in sc or "failfrom" in sc else "clean"
        check.stats[k] = check.stats.get(k, 0) + 1
    res = S.judge(cases, check.stats, module="S3SinkTrace", init="Init", next_="Next", view=None, pixels=False)
    for sc, c in zip(scs, cases):
        if res[c["id"]]:
            check.violation(f"S3 sink: {', '.join(res[c['id']])}; writes {sc['writes']} "
                            f"{ {k: sc[k] for k in ('fail', 'failfrom', 'abandon') if k in sc} } "
                            f"status {c['status']}", dict(scenario=sc, trace=c))
    check.stats["distinct_nontrivial"] = check.stats["evaluations"] = len(cases)
    check.stats["rule"] = ("sequences of contiguous writes around multiples of the part size into the real sink over a "
                           "stand-in server, each request failed in turn")
    check.sample(scs[20])
    check.sample(cases[20])
    return check.finish()


# ------------------------------------------------------------ C15, C22

FLUSH_CFG = """CONSTANTS
 Shards = {1, 2%s}
 PerShard = %d
 Own = %s
 Private = %s
 Workers = 2
SPECIFICATION Spec
INVARIANT Sequential
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def flush_models(check):
    vf.model_check("Flush", FLUSH_CFG % (", 3", 3 if THOROUGH else 2, "TRUE", "TRUE"), check.stats, "jobs", workers=4)
    for r in (("", 2, "FALSE", "TRUE"), ("", 2, "TRUE", "FALSE")):
        if vf.tlc("Flush", FLUSH_CFG % r, workers=2).ok:
            raise vf.MachineryError(f"Flush accepts {r}")
    check.stats["models_with_a_detail_left_out_rejected"] = 2


def stream_explorer():
    return vf.build("sched_stream_driver", ["sched_stream_driver.cpp", "sched.cpp", "io_shim.cpp", "fake_minio/fakes3.cpp"],
                    flavor="sched")


def got_calls(sc, recorded):
    got = {e["i"]: e for e in recorded}
    out = []
    for i, op in enumerate(sc["ops"]):
        e = got.get(i)
        r = dict(op=op["op"], n=op.get("n", 0), ran=e is not None, ok=True, st=-1, out=-1)
        if e:
            r.update(ok=e.get("ok", True), st=e.get("st", 0), out=e.get("out", -1))
        out.append(r)
    return out


def small(n, seed, stats, **kw):
    p = dict(GDims={3}, GMaxFrames=6, GMaxPixels=40, GMaxSize=4, GMinFrames=1)
    p.update(kw)
    return S.generate(n, seed, stats, **p)


def c15():
    check = vf.Check("C15")
    rnd = random.Random(SEED)
    with cf.ThreadPoolExecutor(4) as ex:
        fm = ex.submit(flush_models, check)
        fe = ex.submit(stream_explorer)
        fd = ex.submit(S.driver)
        k = 6 if THOROUGH else 1
        fg = [ex.submit(small, 22 * k, SEED * 7 + 1, check.stats, GVersions={3}, GComp={0, 1}),
              ex.submit(small, 10 * k, SEED * 7 + 2, check.stats, GVersions={2}),
              ex.submit(small, 8 * k, SEED * 7 + 3, check.stats, GMultiscale={True}, GMaxPixels=160),
              ex.submit(small, 8 * k, SEED * 7 + 4, check.stats, GFs={False})]
        # thread counts alone, with larger streams on real threads
        fw = ex.submit(S.generate, 40 * k, SEED * 7 + 5, check.stats, GMultiscale={True, False}, GFs={True, False})
        exe, plain = fe.result(), fd.result()
        scs = [sc for f in fg for sc in f.result()]
        wide = fw.result()
        fm.result()
    # reference: one worker, no choice of schedule
    ref_jobs, jobs = [], []
    for i, sc in enumerate(scs):
        d = S.scenario(sc, f"s{i}")
        ref_jobs.append(dict(d, id=f"s{i}r", threads=1, explore=dict(bound=0, dfs=1, walks=0, seed=1)))
        for t in rnd.sample([1, 2, 3], 2):
            jobs.append(dict(d, id=f"s{i}t{t}", threads=t,
                             explore=dict(bound=2 if not THOROUGH else 3, dfs=60 if not THOROUGH else 1500,
                                          walks=50 if not THOROUGH else 1000, seed=SEED * 100 + i, timeout=20)))
    work = os.path.join(vf.scratch(), "c15")
    evs = S.replay(exe, [dict(j, timeout=700) for j in ref_jobs + jobs], work, timeout=800)
    by = {}
    for sc, v in traces(check, ref_jobs + jobs, evs):
        by.setdefault(sc["id"], []).append((sc, v))
    cases, meta = [], {}
    for i, sc in enumerate(scs):
        r = by[f"s{i}r"][0][1]
        if r["status"] != "ok":
            check.violation(f"one stream: process: {r['status']} with one worker", dict(scenario=ref_jobs[i], trace=r))
            continue
        e = r["events"][0]
        ref = S.load(work, f"s{i}r", sc, sub=e["store"]).observe()
        refops = got_calls(sc, e["calls"])
        for j in [j for j in jobs if j["id"].startswith(f"s{i}t")]:
            for _, v in by[j["id"]]:
                if v["status"] == "overrun":
                    check.stats["overruns"] = check.stats.get("overruns", 0) + v["count"]
                    continue
                if v["status"] != "ok":
                    check.violation(f"one stream: process: {v['status']}; {j['threads']} workers",
                                    dict(scenario=dict(j, explore=dict(plan=v["plan"])), trace=v))
                    continue
                e = v["events"][0]
                id_ = f"{j['id']}.{len(cases)}"
                cases.append(dict(id=id_, cfg=S.trace_cfg(sc), ops=got_calls(sc, e["calls"]), refops=refops,
                                  obs=S.load(work, j["id"], sc, sub=e["store"]).observe(), ref=ref,
                                  want=["same", "calls"]))
                meta[id_] = (dict(j, explore=dict(plan=v["plan"])), v)
    # real threads, larger streams: 1, 2 and 7 workers
    pj = []
    for i, sc in enumerate(wide):
        for t in (1, 2, 7):
            pj.append((i, sc, S.scenario(sc, f"w{i}t{t}", threads=t)))
    pw = os.path.join(vf.scratch(), "c15w")
    pe = S.replay(plain, [d for _, _, d in pj], pw)
    first = {}
    for i, sc, d in pj:
        e = pe[d["id"]]
        if S.ended(e) != "ok":
            check.violation(f"one stream: process: {S.ended(e)}; {d['threads']} workers", dict(scenario=d, events=e[-3:]))
            continue
        obs, ops = S.load(pw, d["id"], sc, s3=not sc["cfg"]["fs"]).observe(), S.calls(sc, e)
        if d["threads"] == 1:
            first[i] = (obs, ops)
        elif i in first:
            cases.append(dict(id=d["id"], cfg=S.trace_cfg(sc), ops=ops, refops=first[i][1], obs=obs, ref=first[i][0],
                              want=["same", "calls"]))
            meta[d["id"]] = (d, e[-3:])
    res = S.judge(cases, check.stats)
    for c in cases:
        if res[c["id"]]:
            sc, v = meta[c["id"]]
            check.violation(f"one stream: {', '.join(res[c['id']])} differ from one worker alone; "
                            f"{sc['threads']} workers; settings {json.dumps(c['cfg'])[:300]}", dict(scenario=sc, trace=v))
    check.stats["distinct_nontrivial"] = len(cases)
    check.stats["evaluations"] = check.stats.get("executions", 0) + len(pj)
    check.stats["rule"] = ("small streams under schedules chosen by a controlled scheduler with one to three workers, and "
                           "larger ones on real threads with 1, 2 and 7; every distinct outcome is compared with that of "
                           "one worker, as a reader sees the store, and call by call")
    check.sample(jobs[0])
    check.sample(dict(id=cases[0]["id"], ops=cases[0]["ops"]) if cases else {})
    return check.finish()


# ------------------------------------------------------------------- C22

ISO_CFG = """CONSTANTS
 Streams = {1, 2%s}
 MaxAppends = %d
 LayerSize = 2
 Failing = %s
 Shared = %s
SPECIFICATION Spec
INVARIANTS Alone
PROPERTIES Ends
CHECK_DEADLOCK FALSE
"""


def isolation_models(check):
    for f in ("{}", "{2}"):
        vf.model_check("Isolation", ISO_CFG % (", 3" if THOROUGH else "", 4, f, "{}"), check.stats, "failing " + f, workers=4)
    for f, sh in (("{}", "buffer"), ("{2}", "error"), ("{}", "pool")):
        if vf.tlc("Isolation", ISO_CFG % ("", 3, f, '{"%s"}' % sh), workers=2).ok:
            raise vf.MachineryError(f"Isolation accepts a shared {sh}")
    check.stats["models_with_something_shared_rejected"] = 3


NAMES = [("s.zarr", "s.zarr2", "s.zar"), ("a.zarr", "b.zarr", "c.zarr"), ("x", "xx", "X"),
         ("t.zarr", "t", "t.zarr.zarr")]


def together(rnd, scs, id_, interleave=False):
    """several streams in one scenario; returns it and the scenario of each alone"""
    names = list(rnd.choice(NAMES))
    rnd.shuffle(names)
    streams = [S.settings(sc, store=names[k]) for k, sc in enumerate(scs)]
    lists = [[dict(o, s=k) for o in sc["ops"]] for k, sc in enumerate(scs)]
    ops = []
    if interleave:
        while any(lists):
            k = rnd.choice([k for k, l in enumerate(lists) if l])
            ops.append(lists[k].pop(0))
    else:
        ops = [o for l in lists for o in l]
    d = dict(id=id_, streams=streams, ops=ops)
    alone = [dict(id=f"{id_}a{k}", streams=[S.settings(sc, store=names[k])], ops=sc["ops"], threads=1)
             for k, sc in enumerate(scs)]
    return d, alone, names


def ops_of(d, s):
    return dict(ops=[o for o in d["ops"] if o.get("s", 0) == s])


def calls_of(d, recorded, s):
    """the calls of stream s, as if it had been alone"""
    got = {e["i"]: e for e in recorded}
    idx = [i for i, o in enumerate(d["ops"]) if o.get("s", 0) == s]
    rec = [dict(got[i], i=k) for k, i in enumerate(idx) if i in got]
    return got_calls(ops_of(d, s), rec)


def c22():
    check = vf.Check("C22")
    rnd = random.Random(SEED * 31)
    k = 6 if THOROUGH else 1
    with cf.ThreadPoolExecutor(8) as ex:
        fm = ex.submit(isolation_models, check)
        fe, fd = ex.submit(stream_explorer), ex.submit(S.driver)
        tiny = dict(GMaxFrames=4, GMaxPixels=24, GMaxSize=3)
        f1 = ex.submit(small, 50 * k, SEED * 11 + 1, check.stats, **tiny)
        f2 = ex.submit(small, 30 * k, SEED * 11 + 2, check.stats, **(tiny | dict(GFs={False})))
        f4 = ex.submit(small, 12 * k, SEED * 11 + 4, check.stats, GMultiscale={True}, GMinFrames=4, GMaxFrames=8, GMaxPixels=120,
                       GMaxSize=5)
        f3 = ex.submit(S.generate, 90 * k, SEED * 11 + 3, check.stats, GMultiscale={True, False}, GFs={True, False},
                       GCuts="bytes", GPartial=True, GMaxPixels=400, GMaxFrames=16)
        exe, plain = fe.result(), fd.result()
        on_fs, on_s3, wide, deep = f1.result(), f2.result(), f3.result(), f4.result()
        fm.result()

    jobs, refs, info = [], [], {}
    for i in range(26 * k):
        n = 3 if i % 7 == 6 else 2
        scs = [rnd.choice(on_fs if rnd.random() < 0.65 else on_s3) for _ in range(n)]
        if i >= 22 * k:
            scs = [rnd.choice(deep) for _ in range(2)]
        d, alone, names = together(rnd, scs, f"m{i}")
        d["threads"] = rnd.choice([1, 1, 2])
        faulty = None
        if i % 3 == 1:          # a failure of one does not reach the other
            faulty = rnd.randrange(n)
            sc = scs[faulty]
            how = rnd.random()
            if how < 0.2:
                d["streams"][faulty]["v"] = 7
            elif sc["cfg"]["fs"]:
                d["io"] = dict(s=faulty, at=rnd.randint(1, 12), err=rnd.choice([28, 13, 5]), len=rnd.choice([1, -1]))
            else:
                d["s3fail"] = dict(prefix=names[faulty] + "/", at=rnd.randint(1, 5), len=rnd.choice([1, -1]))
        d["explore"] = dict(bound=1 if not THOROUGH else 2, dfs=40 if not THOROUGH else 1000,
                            walks=60 if not THOROUGH else 800, seed=SEED * 100 + i, timeout=30)
        jobs.append(d)
        info[d["id"]] = (scs, alone, names, faulty)
        refs += [dict(a, explore=dict(bound=0, dfs=1, walks=0, seed=1)) for a in alone]
    work = os.path.join(vf.scratch(), "c22")
    evs = S.replay(exe, [dict(j, timeout=700) for j in refs + jobs], work, timeout=800)
    by = {}
    for sc, v in traces(check, refs + jobs, evs):
        by.setdefault(sc["id"], []).append(v)
    cases, meta = [], {}

    def add(d, v, s, sc, obs, ops, ref, refops):
        id_ = f"{d['id']}.{len(cases)}"
        cases.append(dict(id=id_, cfg=S.trace_cfg(sc), ops=ops, refops=refops, obs=obs, ref=ref, want=["same", "calls"]))
        meta[id_] = (d, v, s)

    for d in jobs:
        scs, alone, names, faulty = info[d["id"]]
        refobs = []
        for k_, a in enumerate(alone):
            r = by[a["id"]][0]
            if r["status"] != "ok":
                check.violation(f"one stream alone: process: {r['status']}", dict(scenario=a, trace=r))
                break
            e = r["events"][0]
            refobs.append((S.load(work, a["id"], scs[k_], sub=e["store"]).observe(), got_calls(scs[k_], e["calls"])))
        if len(refobs) < len(alone):
            continue
        seen = set()
        for v in by[d["id"]]:
            if v["status"] == "overrun":
                check.stats["overruns"] = check.stats.get("overruns", 0) + v["count"]
                continue
            if v["status"] != "ok":
                check.violation(f"streams together: process: {v['status']}",
                                dict(scenario=dict(d, explore=dict(plan=v["plan"])), trace=v))
                continue
            for e in v["events"]:
                s = e["s"]
                key = json.dumps([s, e["calls"], e["store"]])
                if s == faulty or key in seen:
                    continue
                seen.add(key)
                add(dict(d, explore=dict(plan=v["plan"])), v, s, scs[s],
                    S.load(work, d["id"], scs[s], sub=e["store"]).observe(), calls_of(d, e["calls"], s), *refobs[s])

    # larger streams: calls interleaved on one thread, and real threads
    pj, pinfo = [], {}
    for i in range(60 * k):
        n = rnd.choice([2, 2, 3])
        scs = rnd.sample(wide, n)
        d, alone, names = together(rnd, scs, f"i{i}", interleave=i % 2 == 0)
        d["parallel"] = i % 2 == 1
        d["threads"] = rnd.choice([1, 2, 4])
        faulty = None
        if i % 5 == 2:
            faulty = rnd.randrange(n)
            d["streams"][faulty]["v"] = 7
        elif i % 5 == 4 and any(not sc["cfg"]["fs"] for sc in scs) and not all(not sc["cfg"]["fs"] for sc in scs):
            faulty = "s3"       # every S3 request from some point on
            d["s3fail"] = [dict(at=rnd.randint(6, 20), len=-1)]
        pj += [d] + alone
        pinfo[d["id"]] = (d, scs, alone, names, faulty)
    pw = os.path.join(vf.scratch(), "c22w")
    pe = S.replay(plain, pj, pw)
    for id_, (d, scs, alone, names, faulty) in pinfo.items():
        e = pe[id_]
        bad = [(x, S.ended(pe[x["id"]])) for x in [d] + alone if S.ended(pe[x["id"]]) != "ok"]
        if bad:
            check.violation(f"streams together: process: {bad[0][1]}", dict(scenario=bad[0][0], events=pe[bad[0][0]["id"]][-3:]))
            continue
        for s, sc in enumerate(scs):
            if s == faulty or (faulty == "s3" and not sc["cfg"]["fs"]):
                continue
            s3 = not sc["cfg"]["fs"]
            add(d, e[-3:], s, sc, S.load(pw, id_, sc, s3=s3, store=names[s]).observe(),
                calls_of(d, [x for x in e if x["ev"] in ("create", "append", "destroy")], s),
                S.load(pw, alone[s]["id"], sc, s3=s3, store=names[s]).observe(),
                S.calls(dict(ops=sc["ops"]), pe[alone[s]["id"]]))
    res = S.judge(cases, check.stats)
    for c in cases:
        if res[c["id"]]:
            d, v, s = meta[c["id"]]
            check.violation(f"stream {s} of several: {', '.join(res[c['id']])} differ from the stream alone; "
                            f"settings {json.dumps(c['cfg'])[:300]}", dict(scenario=d, trace=v))
    check.stats["distinct_nontrivial"] = len(cases)
    check.stats["evaluations"] = check.stats.get("executions", 0) + len(pj)
    check.stats["rule"] = ("two or three streams, file system and S3, on their own threads under schedules chosen by a "
                           "controlled scheduler, on real threads, and interleaved on one thread; some with one stream "
                           "that fails; every distinct outcome is compared with the stream alone")
    check.sample(jobs[0])
    check.sample(pj[0])
    return check.finish()


# ------------------------------------------------------------------- C25

LOG_CFG = """CONSTANTS
 Threads = {"a", "b"}
 Messages = %s
 Locked = %s
 Shared = %s
SPECIFICATION Spec
INVARIANTS Whole Same
PROPERTIES Implements
CHECK_DEADLOCK FALSE
"""


def log_models(check):
    ms = "{1, 2, 3, 5}" if THOROUGH else "{1, 2, 3}"
    vf.model_check("LoggerImpl", LOG_CFG % (ms, "TRUE", "FALSE"), check.stats, "locked", workers=4)
    for r in (("{1, 2}", "FALSE", "FALSE"), ("{1, 2}", "TRUE", "TRUE")):
        if vf.tlc("LoggerImpl", LOG_CFG % r, workers=2).ok:
            raise vf.MachineryError(f"LoggerImpl accepts {r}")
    check.stats["models_with_a_detail_left_out_rejected"] = 2
    vf.model_check("Logger", vf.constants(Threads={1, 2}, Messages={1, 2, 3}) +
                   "SPECIFICATION LSpec\nINVARIANTS RightStream Once LevelValid\nPROPERTIES Silence\n"
                   "CHECK_DEADLOCK FALSE\n", check.stats, "abstract", workers=4)


def log_scenarios(rnd, count, cfg):
    out = []
    for i in range(count):
        n = [0]
        msgs = {}

        def msg(l=None):
            n[0] += 1
            k = n[0]
            shape = rnd.choice([-1] + list(range(10)))
            m = dict(l=rnd.choice([0, 1, 2, 3]) if l is None else l, shape=shape,
                     file=rnd.choice(["/a/b.c/file.cpp", "plain.cc", "../x/y z.hh", "/deep/er/path/to/a.cpp"]),
                     line=rnd.choice([1, 42, 99999]), func=rnd.choice(["f", "operator()", "a_long_function_name"]),
                     text=f"m{k}:" + rnd.choice(["", "some text", "%s %d %n", "\u00e9\u4e2d", "tab\there"]) + f"({k})",
                     n=rnd.choice([0, 7, 123456789, 4096]))
            if rnd.random() < 0.1:
                m["pad"] = rnd.choice([100, 1023, 4096, 70000])
            msgs[str(k)] = m
            return ["log", k]
        sets = rnd.random() < 0.4
        if i == 0:      # every level against every message level
            before = []
            for lv in (-1, 0, 1, 2, 3, 4, 5, 100, 2):
                before += [["set", lv], ["get"]] + [msg(l) for l in range(4)]
            threads, after = [], []
        elif i == 1:    # every kind of argument
            before = [["set", 0]]
            for s in range(-1, 10):
                before.append(msg(s % 4))
                msgs[str(n[0])]["shape"] = s
            threads, after = [], [["get"]]
        else:
            before = [["set", rnd.choice([0, 0, 1, 2, 3, 4])], ["get"]]
            threads = []
            for t in range(rnd.choice([2, 2, 3])):
                ops = [msg() for _ in range(rnd.randint(1, 2))]
                if sets and rnd.random() < 0.6:
                    ops.insert(rnd.randint(0, len(ops)), ["set", rnd.choice([0, 1, 2, 3, 4, 7, -1])])
                threads.append(ops)
            after = [["get"], msg(3), msg(1)]
        out.append(dict(id=f"l{i}", before=before, threads=threads, after=after, messages=msgs,
                        explore=dict(cfg, seed=SEED * 100 + i) if i > 1 else dict(bound=0, dfs=1, walks=1, seed=1)))
    return out


def c25():
    check = vf.Check("C25")
    rnd = random.Random(SEED)
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(log_models, check)
        exe = vf.build("log_driver", ["log_driver.cpp", "instr_log_calls.cpp", "sched.cpp", "io_shim.cpp"],
                       flavor="sched", only={"logger.cpp"})
        cfg = dict(bound=2, dfs=400, walks=250, spurious=0) if not THOROUGH else \
            dict(bound=3, dfs=8000, walks=4000, spurious=1)
        scs = log_scenarios(rnd, 26 if not THOROUGH else 100, cfg)
        evs = explore(exe, scs, "log")
        fm.result()
    cases, meta = [], {}
    for sc, v in traces(check, scs, evs):
        id_ = f"{sc['id']}.{len(cases)}"
        end = [e for e in v["events"] if e["e"] == "end"]
        f = end[-1] if end else dict(out=[], outends=[], err=[], errends=[], bad=[])
        ev = [dict(e, good=e["m"] not in f["bad"]) if e["e"] == "logged" else e
              for e in v["events"] if e["e"] != "end"]
        cases.append(dict(id=id_, threads=len(sc["threads"]), status=v["status"] if end else "noend", events=ev,
                          out=f["out"], outends=f["outends"], err=f["err"], errends=f["errends"]))
        meta[id_] = (sc, v)
    judge_traces(check, cases, meta, "LoggerTrace", "log", extra=vf.constants(Threads={1}, Messages={1}))
    check.stats["rule"] = ("the real log, its two streams captured, under schedules chosen by a controlled scheduler "
                           "(locks, stream operations and, in random walks, plain memory accesses are switching points)")
    check.sample(dict(scenario=scs[2], trace=cases[2]["events"]))
    return check.finish()


# ------------------------------------------------------------------- C28

REQ_CFG = """CONSTANTS
 Buckets = {%s}
 MinPart = %d
 Variant = "%s"
 Depth = %d
 Emit = %s
 Few = %s
INIT Init
NEXT Next
%sINVARIANTS Own Unchanged Made Given
CHECK_DEADLOCK FALSE
"""


def c28():
    from checks_api import emitted
    check = vf.Check("C28")
    n, d = (1500, 40) if THOROUGH else (250, 24)
    buckets = '"b", "c"'
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(vf.build, "request_driver", ["request_driver.cpp", "fake_minio/fakes3.cpp"])
        view = "VIEW View\n"
        fm = [ex.submit(vf.model_check, "RequestsGen", REQ_CFG % ('"b"', 2, "none", k, "FALSE", few, view), check.stats,
                        f"depth {k}{', few' if few == 'TRUE' else ''}", workers=3, timeout=800)
              for few, k in (("FALSE", 4 if THOROUGH else 3), ("TRUE", 7 if THOROUGH else 5))]
        bad = {v: ex.submit(vf.tlc, "RequestsGen", REQ_CFG % ('"b"', 2, v, 4, "FALSE", "TRUE", view), workers=1)
               for v in ("arrival", "stubborn", "loose")}
        fg = ex.submit(vf.tlc, "RequestsGen", REQ_CFG % (buckets, PART, "none", d, "TRUE", "FALSE", ""), workers=1,
                       args=["-simulate", f"num={n}", "-depth", str(3 * d + 20), "-seed", str(SEED)])
        for f in fm:
            f.result()
        for v, f in bad.items():
            if f.result().ok:
                raise vf.MachineryError(f"RequestsGen accepts the variant {v}")
        check.stats["models_with_a_detail_left_out_rejected"] = len(bad)
        r = fg.result()
        if not r.ok:
            raise vf.MachineryError("RequestsGen:\n" + r.out[-3000:])
        ops = [c["ops"] for c in emitted(r)]
        exe = fb.result()
    if len(ops) < n // 2:
        raise vf.MachineryError(f"RequestsGen: {len(ops)} sequences only")
    scs = [dict(id=f"r{i}", ops=o, timeout=60) for i, o in enumerate(ops)]
    evs = S.replay(exe, scs, os.path.join(vf.scratch(), "requests"), timeout=800)
    cases, meta, kinds = [], {}, {}
    for sc in scs:
        e = evs[sc["id"]]
        st = S.ended(e)
        got = [{k: v[k] for k in ("told", "reqs", "objs")} for v in e if v["ev"] == "call"]
        if st == "error":
            raise vf.MachineryError(f"driver: {sc['id']}: {e[-2:]}")
        cases.append(dict(id=sc["id"], ops=sc["ops"], got=got, status=st))
        meta[sc["id"]] = sc
        for o, g in zip(sc["ops"], got):
            k = f"{o['op']} {g['told']}"
            kinds[k] = kinds.get(k, 0) + 1
    res = S.judge(cases, check.stats, module="RequestsTrace", init="TInit", next_="TNext", view=None, pixels=False,
                  extra=f"CONSTANTS\n Buckets = {{{buckets}}}\n MinPart = {PART}\n Variant = \"none\"\n")
    for c in cases:
        if res[c["id"]]:
            check.violation(f"S3 requests: {', '.join(res[c['id']])}; status {c['status']}; {json.dumps(c['ops'])[:400]}",
                            dict(scenario=meta[c["id"]], trace=c))
    check.stats["requests"] = dict(sorted(kinds.items()))
    check.stats["evaluations"] = sum(kinds.values())
    check.stats["distinct_nontrivial"] = len(cases)
    check.stats["rule"] = ("random sequences of requests with legal and illegal arguments, refused by the service at random, of "
                           "one connection over a stand-in service; after each, what it told and every object; distinct "
                           "sequences count")
    check.sample(scs[0])
    check.sample(cases[0]["got"][-1])
    return check.finish()
