"""Common machinery of the checks: building from /repo, running TLC, evidence,
verdicts."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
CPUS = os.cpu_count() or 4
T0 = time.time()


class MachineryError(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


# --------------------------------------------------------------- building

FLAVORS = {
    "plain": dict(cxx="g++", flags=["-O1", "-g"], link=[]),
    # every atomic and every memory access becomes a call into our own runtime
    "sched": dict(cxx="g++", flags=["-O1", "-g", "-fsanitize=thread"], link=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=undefined"],
                 link=["-fsanitize=address,undefined"]),
}
COMMON = ["-std=c++20", "-include", "string", "-w", "-pthread",
          '-DACQUIRE_ZARR_API_VERSION="0.0.1"']


def includes():
    return [f"-I{REPO}/include", f"-I{REPO}/src/streaming", f"-I{REPO}/src/logger",
            f"-I{HARNESS}/fake_minio", f"-I{HARNESS}"]


def _tree_hash():
    """Hash of everything a compilation may depend on."""
    h = hashlib.sha256()
    for base in (f"{REPO}/include", f"{REPO}/src", f"{REPO}/python", HARNESS):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise MachineryError("command failed: " + " ".join(cmd) + "\n" + r.stderr[-6000:])
    return r


def lib_sources():
    out = []
    for d in ("src/logger", "src/streaming"):
        for p, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            out += [os.path.join(p, f) for f in sorted(fs)
                    if f.endswith((".cpp", ".c", ".cc")) and "win32" not in f]
    return out


def build(name, sources, flavor="plain", lib=True, only=None, defines=(), link=()):
    """Builds build/<flavor>-<hash>/<name> from harness sources and the library.
    sources: harness files (not instrumented); lib: library sources to link,
    all, or those whose basename is in `only`."""
    fl = FLAVORS[flavor]
    root = os.path.join(BUILD, f"{flavor}-{_tree_hash()}")
    # keep only builds of the current tree
    os.makedirs(root, exist_ok=True)
    for o in os.listdir(BUILD):
        if o.startswith(flavor + "-") and os.path.join(BUILD, o) != root:
            shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    exe = os.path.join(root, name)
    if os.path.exists(exe):
        return exe
    jobs, objs = [], []
    srcs = [(s, True) for s in lib_sources()
            if lib and (only is None or os.path.basename(s) in only)]
    srcs += [(os.path.join(HARNESS, s), False) for s in sources]
    for s, is_lib in srcs:
        # `sched` harness files are compiled without instrumentation, except
        # instr_*, which exist to have code of the library's headers instrumented
        flags = fl["flags"] if is_lib or flavor == "asan" or os.path.basename(s).startswith("instr_") else \
            [f for f in fl["flags"] if not f.startswith("-fsanitize")]
        o = os.path.join(root, ("lib_" if is_lib else f"h_{name}_" if defines else "h_")
                         + os.path.basename(s) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            tmp = o + f".{os.getpid()}.tmp"
            jobs.append((o, tmp, [fl["cxx"], *COMMON, *flags, *defines, *includes(),
                                  "-c", s, "-o", tmp]))

    def compile_(j):
        _run(j[2])
        os.rename(j[1], j[0])
    with cf.ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(compile_, jobs))
    tmp = exe + f".{os.getpid()}.tmp"
    try:
        _run([fl["cxx"], *fl["link"], "-rdynamic", "-o", tmp, *objs, *link,
              "-lblosc", "-lpthread", "-ldl"])
    except MachineryError:
        if only is None:
            raise
        # these sources need others by now
        fake = "fake_minio/fakes3.cpp"
        return build(name, sources if fake in sources else [*sources, fake], flavor, lib, None, defines, link)
    os.rename(tmp, exe)
    return exe


def build_module(name, sources, harness_sources, extra=()):
    """Builds build/module-<hash>/<name>.so, a Python module, from sources of the
    repository and of ours."""
    import sysconfig
    root = os.path.join(BUILD, f"module-{_tree_hash()}")
    os.makedirs(root, exist_ok=True)
    for o in os.listdir(BUILD):
        if o.startswith("module-") and os.path.join(BUILD, o) != root:
            shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    so = os.path.join(root, name + ".so")
    if not os.path.exists(so):
        tmp = so + f".{os.getpid()}.tmp"
        _run(["g++", *COMMON, "-O1", "-g", "-fPIC", "-shared", *extra, f"-I{sysconfig.get_paths()['include']}",
              "-I/usr/include/python3.12", *includes(), "-o", tmp,
              *[os.path.join(REPO, f) for f in sources], *[os.path.join(HARNESS, f) for f in harness_sources]])
        os.rename(tmp, so)
    return so


# --------------------------------------------------------------- scratch

_scratch = None


def scratch():
    """A private directory that disappears when the check ends."""
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        shm = "/dev/shm"
        if os.path.isdir(shm) and os.access(shm, os.W_OK) and \
                shutil.disk_usage(shm).free > 2 << 30:
            base = shm
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
        os.chmod(_scratch, 0o711)  # for the drivers that give up root
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# --------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m[-1].replace(",", ""))
        self.ok = rc == 0
        m = re.search(r"Error: Invariant (\S+) is violated", out) or \
            re.search(r"Error: (?:Action property|Temporal properties?) ?(\S*) ?.*violated", out)
        self.violated = m.group(1) if m else ("temporal" if "Temporal properties were violated" in out
                                              else None)


def tla(v):
    """A Python value as a TLA+ expression (for configuration files)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def tlc(module, cfg, *, args=(), workers=None, mem="4g", timeout=600, env=None, ok_codes=(0,),
        files=None, gc=True):
    """Runs TLC on a copy of the specification directory. cfg: text of the
    configuration."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for n, text in (files or {}).items():
        with open(os.path.join(d, n), "w") as fh:
            fh.write(text)
    with open(os.path.join(d, "M.cfg"), "w") as fh:
        fh.write(cfg)
    cp = TLA_JAR + ":" + ":".join(
        os.path.join("/opt/veriftools/tla", j) for j in os.listdir("/opt/veriftools/tla")
        if j.endswith(".jar") and j != "tla2tools.jar")
    cmd = ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-config", "M.cfg",
           "-workers", str(workers or CPUS), "-noGenerateSpecTE", "-metadir", d + "/meta",
           *args, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        raise MachineryError(f"TLC timed out after {timeout}s on {module}")
    res = TlcResult(out, rc)
    res.dir = d
    return res


def constants(**kw):
    return "CONSTANTS\n" + "\n".join(f"    {k} = {tla(v)}" if not (isinstance(v, str) and v.startswith("<-"))
                                     else f"    {k} <- {v[2:].strip()}" for k, v in kw.items()) + "\n"


def model_check(module, cfg, stats, label, **kw):
    """Checks a design specification; a violation there is an error of ours (the
    specification is fixed), so it is a machinery error."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise MachineryError(f"design model {module}/{label} not accepted:\n" + r.out[-4000:])
    stats.setdefault("model_runs", []).append(
        dict(module=module, config=label, generated=r.generated, distinct=r.distinct))
    stats["states"] = stats.get("states", 0) + r.distinct
    stats["transitions"] = stats.get("transitions", 0) + r.generated
    return r


# --------------------------------------------------------------- verdicts

class Check:
    """Collects what a check saw and turns it into evidence and an exit code."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.stats = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                      "samples": []}
        self.violations = []
        self.assumptions = []
        self.findings = []

    def sample(self, s):
        if len(self.stats["samples"]) < 4:
            self.stats["samples"].append(s)

    def violation(self, what, replay):
        """replay: any JSON-able description that lets one run it again"""
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        p = os.path.join(BUILD, "replay", f"{self.pid}-{len(self.violations) + 1}.json")
        with open(p, "w") as fh:
            json.dump({"property": self.pid, "what": what, "replay": replay}, fh, indent=1)
        self.violations.append((what, p))

    def known(self, what):
        if what not in self.findings:
            self.findings.append(what)

    def finish(self):
        wall = time.time() - T0
        cov = dict(self.stats)
        cov.setdefault("rule", "")
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for f in self.findings:
            print(f"KNOWN-FINDING: property={self.pid} {f}")
        for what, p in self.violations[:10]:
            print(f"# {what}")
            print(f"VIOLATION property={self.pid} replay={p}")
        log(f"{self.pid}: states={cov['states']} transitions={cov['transitions']} "
            f"traces={cov['traces_validated_against_impl']} violations={len(self.violations)}")
        return 1 if self.violations else 0
