"""Reads a store the way its own metadata describes it and projects it onto the
values the specification talks about."""
import ctypes, hashlib, json, os, random, re, struct
import numpy as np

_blosc = ctypes.CDLL("libblosc.so.1")
_blosc.blosc_decompress_ctx.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]

BAD = -2000000000     # a pixel that is no multiple of the unit, or out of range
BIG = 2147483647

NP = {"uint8": "<u1", "uint16": "<u2", "uint32": "<u4", "uint64": "<u8", "int8": "<i1",
      "int16": "<i2", "int32": "<i4", "int64": "<i8", "float32": "<f4", "float64": "<f8"}


def blosc_header(b):
    """(nbytes, cbytes) or None"""
    if len(b) < 16:
        return None
    ver, verlz, flags, ts, nbytes, bs, cbytes = struct.unpack("<BBBBIII", b[:16])
    return nbytes, cbytes


def blosc_decode(b):
    h = blosc_header(b)
    if h is None or h[1] != len(b) or h[0] > 1 << 28:
        return None
    out = ctypes.create_string_buffer(max(1, h[0]))
    n = _blosc.blosc_decompress_ctx(b, out, h[0], 1)
    return out.raw[:h[0]] if n == h[0] else None


def blosc_codec(b):
    """codec id stored in the header flags (0 blosclz, 1 lz4, 4 zstd) and shuffle bits"""
    f = b[2]
    return f >> 5, f & 1, (f >> 2) & 1


def text(x):
    """JSON text of a scalar (or of a list of names); only a digest of a long one"""
    t = json.dumps(x)
    return t if len(t) < 2000 else '"<digest ' + hashlib.blake2b(t.encode()).hexdigest() + '>"'


def flat(x, path="", out=None):
    """path -> JSON text, see StreamTrace.tla"""
    out = {} if out is None else out
    if isinstance(x, list):
        out[path + "[]"] = str(len(x))
        for i, v in enumerate(x):
            flat(v, f"{path}/{i}", out)
    elif isinstance(x, dict):
        out[path + "{}"] = text(sorted(x))
        for k, v in x.items():
            flat(v, f"{path}/{k}", out)
    else:
        if isinstance(x, float) and x == x and abs(x) < 1e15 and x == int(x):
            x = int(x)
        out[path] = text(x)
    return out


def _no_dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key " + k)
        d[k] = v
    return d


def parse_doc(b):
    try:
        return json.loads(b.decode("utf-8"), object_pairs_hook=_no_dup,
                          parse_constant=lambda c: (_ for _ in ()).throw(ValueError(c))), True
    except (ValueError, UnicodeDecodeError, RecursionError):
        return None, False


class Encoding:
    """How the chunks of a level are encoded, from its array metadata"""
    def __init__(self, v, meta, cfg):
        self.ok = False
        self.assumed = meta is None
        try:
            if meta is None:
                self.dt, self.comp = np.dtype(NP[cfg["dtype"]]), bool(cfg.get("comp"))
                self.chunk = None
                self.ok = True
            elif v == 2:
                self.dt = np.dtype(meta["dtype"])
                c = meta["compressor"]
                self.comp = c is not None
                self.id = c["id"] if c else None
                self.chunk = list(meta["chunks"])
                self.ok = not self.comp or self.id == "blosc"
            else:
                self.dt = np.dtype(meta["data_type"])
                c = meta.get("compressor")
                self.comp = c is not None
                self.chunk = list(meta["chunk_grid"]["chunk_shape"])
                self.ok = True
        except Exception:
            self.ok = False

    def decode(self, b):
        """bytes of one chunk -> array of pixels or None"""
        if not self.ok:
            return None
        if self.comp:
            b = blosc_decode(b)
            if b is None:
                return None
        if len(b) % self.dt.itemsize:
            return None
        return np.frombuffer(b, self.dt)


def units(a, unit):
    """pixel values in units of 2**unit as ints; BAD where inexact"""
    if a is None:
        return []
    if a.dtype.kind == "f":
        with np.errstate(all="ignore"):
            q = np.ldexp(a.astype("f8"), -unit)
            ok = np.isfinite(q) & (q == np.floor(q)) & (np.abs(q) < 1e9)
            return np.where(ok, q, BAD).astype("i8").tolist()
    out = []
    for x in a.tolist():
        q, r = divmod(x, 1 << unit)
        out.append(q if r == 0 and abs(q) < 10**9 else BAD)
    return out


class Store:
    """files: key -> bytes"""
    def __init__(self, files, cfg, dirs=()):
        self.files, self.cfg, self.v = files, cfg, cfg["v"]
        self.unit = cfg.get("unit", 0)
        self.docs, self.meta = {}, {}
        for k, b in files.items():
            if self.is_doc(k):
                d, valid = parse_doc(b)
                self.docs[k] = (d, valid)
                l = self.meta_level(k)
                if l is not None and valid and isinstance(d, dict):
                    self.meta[l] = d
        self.enc = {}
        self.probe = None    # random.Random: digests and single pixels instead of all of them
        self.points = []

    def pixels(self, level, cc, b):
        """the pixels of a chunk as the specification gets to see them"""
        a = self.encoding(level).decode(b)
        if self.probe is None or a is None:
            return units(a, self.unit)
        if cc is not None:
            n = len(a)
            ks = sorted({0, n // 2, n - 1} | {self.probe.randrange(n) for _ in range(24)}) if n else []
            self.points.append(dict(l=level, cc=cc, n=n, ks=ks, vs=units(a[ks], self.unit)))
        h = hashlib.blake2b(a.tobytes(), digest_size=15).digest()
        return [len(a)] + [int.from_bytes(h[i:i + 3], "big") for i in range(0, 15, 3)]

    def chunk_at(self, level, sc, slot):
        """the coordinate of the chunk in a slot, by the metadata"""
        try:
            st = self.meta[level]["storage_transformers"][0]["configuration"]["chunks_per_shard"]
            return [int(x) * h + int(i) for x, h, i in zip(sc, st, np.unravel_index(slot, st))]
        except Exception:
            return None

    @staticmethod
    def load(root, cfg):
        files = {}
        if os.path.isdir(root):
            for d, _, fs in os.walk(root):
                for f in fs:
                    p = os.path.join(d, f)
                    with open(p, "rb") as fh:
                        files[os.path.relpath(p, root)] = fh.read()
        return Store(files, cfg)

    def meta_level(self, k):
        m = re.fullmatch(r"(\d+)/\.zarray", k) if self.v == 2 else \
            re.fullmatch(r"meta/root/(\d+)\.array\.json", k)
        return int(m.group(1)) if m else None

    def is_doc(self, k):
        base = os.path.basename(k)
        return base in (".zarray", ".zattrs", ".zgroup", "acquire.json", "zarr.json") \
            or base.endswith(".json")

    def encoding(self, level):
        if level not in self.enc:
            self.enc[level] = Encoding(self.v, self.meta.get(level), self.cfg)
        return self.enc[level]

    def chunk_key(self, k):
        """(level, coordinate) of a v2 chunk key"""
        m = re.fullmatch(r"(\d+)((?:/\d+)+)", k)
        return (int(m.group(1)), [int(x) for x in m.group(2)[1:].split("/")]) if m else None

    def shard_key(self, k):
        m = re.fullmatch(r"data/root/(\d+)/c(\d+)((?:/\d+)*)", k)
        return (int(m.group(1)),
                [int(m.group(2))] + [int(x) for x in m.group(3).split("/") if x]) if m else None

    def slots_of(self, level):
        """chunks per shard according to the metadata (or the settings)"""
        try:
            st = self.meta[level]["storage_transformers"][0]["configuration"]["chunks_per_shard"]
            return int(np.prod(st))
        except Exception:
            return None

    def shard(self, key, nslots):
        b = self.files[key]
        level, sc = self.shard_key(key)
        enc = self.encoding(level)
        n = nslots
        out = dict(size=min(len(b), BIG), level=level, sc=sc, tab=False, entries=[], slots=[])
        if n is None or len(b) < 16 * n:
            return out
        tab = struct.unpack(f"<{2 * n}Q", b[len(b) - 16 * n:])
        out["tab"] = True
        data = len(b) - 16 * n
        M = (1 << 64) - 1
        for i in range(n):
            o, l = tab[2 * i], tab[2 * i + 1]
            if o == M and l == M:
                out["entries"].append([-1, -1])
                out["slots"].append([])
            else:
                out["entries"].append([min(o, BIG), min(l, BIG)])
                out["slots"].append(self.pixels(level, self.chunk_at(level, sc, i), b[o:o + l])
                                    if o + l <= data else [])
        return out

    def pieces(self, key, chunk_bytes):
        """the chunks at the start of a shard without index, in the order written"""
        b = self.files[key]
        level, _ = self.shard_key(key)
        enc = self.encoding(level)
        out, o = [], 0
        while o < len(b):
            if enc.comp:
                h = blosc_header(b[o:o + 16])
                if h is None or h[0] != chunk_bytes or h[1] < 16:
                    break
                l = h[1]
            else:
                l = chunk_bytes
            if o + l > len(b):
                break
            px = enc.decode(b[o:o + l])
            if px is None:
                break
            out.append(units(px, self.unit))
            o += l
        return out

    def observe(self, nslots=None, pieces=False, chunk_bytes=None):
        """the projection handed to TLC; nslots/chunk_bytes: per level, where the
        metadata is not there to say"""
        chunks, shards, other = {}, {}, []
        self.points = []
        for k in self.files:
            if k in self.docs:
                continue
            if self.v == 2 and self.chunk_key(k):
                level, cc = self.chunk_key(k)
                chunks[k] = self.pixels(level, cc, self.files[k])
            elif self.v == 3 and self.shard_key(k):
                level, _ = self.shard_key(k)
                n = self.slots_of(level)
                if n is None and nslots:
                    n = nslots.get(level)
                s = self.shard(k, n)
                if pieces:
                    s["pieces"] = self.pieces(k, (chunk_bytes or {}).get(level, 0))
                shards[k] = s
            else:
                other.append(k)
        docs = {k: dict(valid=v, doc=flat(d) if v else {"<invalid>": "<invalid>"}) for k, (d, v) in self.docs.items()}
        E = {"<none>": "<none>"}
        ext = {}
        for l, m in self.meta.items():
            try:
                ext[str(l)] = int(m["shape"][0])
            except Exception:
                ext[str(l)] = BIG  # whatever it says, it is not there
        return dict(keys=sorted(self.files), chunks=chunks or E, shards=shards or E,
                    docs=docs or E, other=other, digests=self.probe is not None, points=self.points, ext=ext or {"<none>": 0})
