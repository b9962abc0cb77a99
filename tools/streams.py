"""The stream pipeline: scenarios from StreamGen, replay with stream_driver,
projection with store.py, judgement by StreamTrace."""
import concurrent.futures as cf
import json, os, subprocess, shutil
import vf
from store import text, Store, flat, parse_doc

TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64",
         "float32", "float64"]
PROFILE = dict(GVersions={2, 3}, GMultiscale={False}, GFs={True}, GDims={3, 4, 5},
               GTypes=set(TYPES), GComp={0, 1}, GCuts="frames", GMaxFrames=24, GMaxPixels=700,
               GPartial=False, GMaxSize=7, GMinFrames=0, GMaxInner=3, GMaxChunk=4, GMaxShard=3, GMaxRatio=4,
               GFramePx=120, GMaxOps=36, GMaxKeys=150)


def generate(n, seed, stats=None, **profile):
    """n scenarios (cfg, ops, tags) as random behaviours of the specification"""
    p = dict(PROFILE)
    p.update(profile)
    cfg = vf.constants(PIXELS=False, **p) + "INIT GenInit\nNEXT GenNext\nCHECK_DEADLOCK FALSE\n"
    r = vf.tlc("StreamGen", cfg, args=["-simulate", f"num={n}", "-depth", "40000", "-seed", str(seed)],
               workers=1, timeout=300)
    out = []
    for l in r.out.splitlines():
        if l.startswith('"SCENARIO'):
            out.append(json.loads(json.loads(l)[8:]))
    if not r.ok or len(out) < n // 2:
        raise vf.MachineryError("scenario generation failed:\n" + r.out[-3000:])
    if stats is not None:
        stats["transitions"] = stats.get("transitions", 0) + r.generated
        stats["scenarios_generated"] = stats.get("scenarios_generated", 0) + len(out)
    return out


CUSTOMS = [None, "", "{}", '{"a": 1}', '{"k": [1, 2.5, {"x": "\\u00e9 \\" \\\\ y"}], "n": null, "b": true}',
           '[1, 2, 3]', '{"deep": {"er": {"est": [[], {}, ""]}}, "big": 9007199254740993}',
           '{"a": 1 /* note */, "b": "//no"}',
           '{"f": [0.1, 1e-7, 1.5e300, -2.5, 3.0e0, 123456.789], "i": [18446744073709551615, -9223372036854775808, -1, 0]}',
           '{"s": "\\u0001\\u001f\\n\\t\\r\\b\\f\\/", "\\ud83d\\ude00": "\u00e9\u4e2d", "": {"": 0}, "a/b": {"c~d": [[]]}}',
           json.dumps({"long": "x" * 20000, "many": {f"k{i}": i for i in range(300)}}),
           '{"d": ' + '[' * 40 + '7' + ']' * 40 + '}', '  {"ws" :\t[ 1 ,\n 2 ] } ', '"text"', '17', 'null', 'true',
           '[{"multiscales": [{"axes": []}]}, {"zarr_format": 9}]']

# names of dimensions that a document has to take care of
NAMES = ['a"b', "back\\slash", "\u00b5m", "\u4e2d\u6587", "n" * 300, "with space", "0", "/", "..", "\U0001f600", "new\nline",
         "tab\t", "\x01", "{}", "[]", "null", "a,b", "%s%n", "\x7f", "a\u0300", "T", "multiscales"]


def settings(sc, store="s.zarr", **over):
    """driver settings of a scenario's cfg"""
    c = sc["cfg"]
    s = dict(v=c["v"], ms=c["ms"], fs=c["fs"], dtype=c["dtype"], dims=c["dims"], val=c["val"],
             unit=c.get("unit", 0), store=store)
    if c.get("comp") and (c["comp"]["compressor"] == 1 or sc.get("nocomp_settings")):
        s["comp"] = c["comp"]
    if sc.get("custom") is not None:
        s["custom"] = sc["custom"]
    s.update(over)
    return s


def strip_comments(s):
    out, i, q = "", 0, False
    while i < len(s):
        if q:
            if s[i] == "\\":
                out += s[i:i + 2]
                i += 2
                continue
            if s[i] == '"':
                q = False
        elif s[i] == '"':
            q = True
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2
            continue
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
            continue
        out += s[i]
        i += 1
    return out


def trace_cfg(sc):
    """cfg record for StreamTrace"""
    c = dict(sc["cfg"])
    c.setdefault("comp", dict(compressor=0, codec=1, level=0, shuffle=0))
    c["axes"] = [text(d["n"]) for d in c["dims"]]
    cu = sc.get("custom")
    doc = json.loads(strip_comments(cu)) if cu else {}
    c["customdoc"] = flat(doc)
    return c


def scenario(sc, id_, **kw):
    """driver scenario with one stream"""
    d = dict(id=id_, streams=[settings(sc, **kw.pop("over", {}))], ops=sc["ops"])
    d.update(kw)
    return d


def driver(name="stream_driver", flavor="plain", sources=None):
    return vf.build(name, sources or ["stream_driver.cpp", "io_shim.cpp", "fake_minio/fakes3.cpp"],
                    flavor=flavor)


def replay(exe, scs, work, jobs=None, timeout=400, env=None):
    """runs driver scenarios in parallel; returns id -> list of events"""
    jobs = jobs or vf.CPUS
    os.makedirs(work, exist_ok=True)
    parts = [scs[i::jobs] for i in range(jobs) if scs[i::jobs]]

    def one(i):
        inp, out = f"{work}/in{i}.json", f"{work}/out{i}.ndjson"
        with open(inp, "w") as fh:
            json.dump([{"timeout": 6, **p} for p in parts[i]], fh)
        e = dict(os.environ)
        e.update(env or {})
        r = subprocess.run([exe, inp, out, work], timeout=timeout, capture_output=True, text=True,
                           env=e)
        if r.returncode != 0:
            raise vf.MachineryError(f"driver failed ({r.returncode}): {r.stderr[-2000:]}")
        evs, cur = {}, None
        with open(out) as fh:
            for l in fh:
                ev = json.loads(l)
                if ev["ev"] == "scenario":
                    cur = evs.setdefault(ev["id"], [])
                else:
                    cur.append(ev)
        return evs
    res = {}
    with cf.ThreadPoolExecutor(len(parts) or 1) as ex:
        for d in ex.map(one, range(len(parts))):
            res.update(d)
    return res


def calls(sc, evs, s=0):
    """the recorded calls, in order, aligned with the scenario's ops"""
    got = {e["i"]: e for e in evs if e["ev"] in ("create", "append", "destroy")}
    out = []
    for i, op in enumerate(sc["ops"]):
        if op.get("s", 0) != s:
            continue
        e = got.get(i)
        r = dict(op=op["op"], n=op.get("n", 0), ran=e is not None, ok=True, st=-1, out=-1)
        if e:
            r["ok"] = e.get("ok", True)
            r["st"] = e.get("st", 0)
            r["out"] = e.get("out", -1)
        out.append(r)
    return out


def ended(evs):
    e = [e for e in evs if e["ev"] == "exit"]
    return e[-1]["how"] if e else "none"


def load(work, id_, sc, s3=False, store="s.zarr", sub=None):
    root = os.path.join(work, id_)
    if sub:
        root = os.path.join(root, sub)
    elif s3:
        root = os.path.join(root, "s3", "bucket", store)
    else:
        root = os.path.join(root, store)
    return Store.load(root, sc["cfg"] | ({"comp": sc["cfg"].get("comp", {}).get("compressor", 0)}))


def judge(cases, stats, module="StreamTrace", parts=None, extra="", timeout=600, mem="3g",
          init="TraceInit", next_="TraceNext", view="TraceView", pixels=True, reject=None):
    """TLC on the cases; returns id -> list of failed aspects. reject: cases are traces, and
    one that TLC finds no accepting behaviour for fails with this aspect"""
    if not cases:
        return {}
    parts = parts or (1 if len(cases) < 30 else 4)
    groups = [cases[i::parts] for i in range(parts) if cases[i::parts]]
    cfg = (vf.constants(PIXELS=True) if pixels else "") + extra + \
        f"INIT {init}\nNEXT {next_}\n" + (f"VIEW {view}\n" if view else "") + "CHECK_DEADLOCK FALSE\n"

    def one(g):
        return vf.tlc(module, cfg, workers=max(1, vf.CPUS // len(groups)), mem=mem, timeout=timeout,
                      files={"cases.json": json.dumps(g)}, env={"CASES": "cases.json"})
    res = {}
    with cf.ThreadPoolExecutor(len(groups)) as ex:
        for g, r in zip(groups, ex.map(one, groups)):
            if not r.ok and len(cases) > 1 and "Error: Evaluating" in r.out or "Attempted to" in r.out:
                # a record the specification cannot even be asked about: find it
                for c in g:
                    r1 = one([c])
                    if r1.ok:
                        r.out += r1.out
                    elif c["id"] not in res:
                        res[c["id"]] = ["malformed"]
                r.ok = True
            if not r.ok:
                raise vf.MachineryError("trace validation did not finish:\n" + r.out[:200] + r.out[-5000:])
            for l in r.out.splitlines():
                if l.startswith('"{') and 'failed' in l:
                    d = json.loads(json.loads(l))
                    res[d["case"]] = d["failed"]
            stats["states"] = stats.get("states", 0) + r.distinct
            stats["transitions"] = stats.get("transitions", 0) + r.generated
            if reject:  # a trace without an accepting behaviour
                for c in g:
                    res.setdefault(c["id"], [reject])
            missing = [c["id"] for c in g if c["id"] not in res]
            if missing:
                raise vf.MachineryError(f"cases never judged: {missing[:5]}\n" + r.out[-3000:])
    stats["traces_validated_against_impl"] = stats.get("traces_validated_against_impl", 0) + len(cases)
    return res
