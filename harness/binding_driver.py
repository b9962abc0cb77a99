"""Runs programs against the Python binding built over a recording C interface.
binding_driver.py MODULE.so CASES OUT: a line of JSON per program and per step."""
import ctypes, importlib.util, json, os, sys
import numpy as np

TEXT = {"unicode": "t \u00e9 \u540d\U0001f600"}
KEEP = {v: k for k, v in TEXT.items()}
text = lambda s: TEXT.get(s, s)
keep = lambda s: KEEP.get(s, s)
DTYPE = dict(UINT8="u1", UINT16="u2", UINT32="u4", UINT64="u8", INT8="i1", INT16="i2", INT32="i4", INT64="i8",
             FLOAT32="f4", FLOAT64="f8")

path, cases, out = sys.argv[1:4]
spec = importlib.util.spec_from_file_location("acquire_zarr", path)
az = importlib.util.module_from_spec(spec)
spec.loader.exec_module(az)
stub = ctypes.CDLL(path)
stub.stub_take.restype = ctypes.c_char_p
AT = dict(store_path="str", custom_metadata="str", endpoint="str", bucket_name="str", access_key_id="str",
          secret_access_key="str", name="str", array_size_px="int", chunk_size_px="int", shard_size_chunks="int",
          level="int", shuffle="int", multiscale="bool", kind="DimensionType", compressor="Compressor",
          codec="CompressionCodec", data_type="DataType", version="ZarrVersion")


def deep(j):
    return keep(j) if isinstance(j, str) else [deep(x) for x in j] if isinstance(j, list) else \
        {k: deep(v) for k, v in j.items()} if isinstance(j, dict) else j


def take():
    # (bytes stay bytes: what is not text is shown as it is)
    return [deep(json.loads(l)) for l in stub.stub_take().decode("utf8", "replace").splitlines()]


def value(m, v):
    t = AT[m]
    return text(v) if t == "str" else int(v) if t == "int" else v if t == "bool" else getattr(getattr(az, t), v)


def made(cls, s, how):
    """an object of class cls with the members of s"""
    # (an empty record is written as an empty list)
    vals = {m: made(az.S3Settings, v, how) if m == "s3" else made(az.CompressionSettings, v, how) if m == "compression"
            else [made(az.Dimension, d, how) for d in v] if m == "dimensions" else value(m, v) for m, v in dict(s or {}).items()}
    if how == "keywords":
        return cls(**vals)
    o = cls()
    if how == "later" and cls is az.StreamSettings:
        # first something else
        o = cls(store_path="other", custom_metadata="{}", multiscale=True, data_type=az.DataType.INT16,
                version=az.ZarrVersion.V3, s3=az.S3Settings(endpoint="other"), dimensions=[az.Dimension(name="other")],
                compression=az.CompressionSettings(level=3))
        for m, v in dict(store_path="", custom_metadata=None, multiscale=False, data_type=az.DataType.UINT8,
                         version=az.ZarrVersion.V2, s3=None, compression=None).items():
            setattr(o, m, v)
        o.dimensions.clear()
    for m, v in vals.items():
        if m == "dimensions":
            if how == "vector":
                for d in v:
                    o.dimensions.append(d)
            else:
                o.dimensions = az.VectorDimension(v)
        else:
            setattr(o, m, v)
    return o


def read(m, v):
    t = AT[m]
    return keep(v) if t in ("str", "bool") else str(v) if t == "int" else v.name


def back(o, members):
    """what a settings object says of itself"""
    r = {}
    for m in members:
        v = getattr(o, m)
        if v is None:
            continue
        if m == "s3":
            r[m] = back(v, ["endpoint", "bucket_name", "access_key_id", "secret_access_key"])
        elif m == "compression":
            r[m] = back(v, ["compressor", "codec", "level", "shuffle"])
        elif m == "dimensions":
            r[m] = [back(v[i], ["name", "kind", "array_size_px", "chunk_size_px", "shard_size_chunks"]) for i in range(len(v))]
        else:
            r[m] = read(m, v)
    return r


def byte(k):
    return (k % 65521 * 31 + k // 7 * 17 + 5) % 256


def run(case, emit):
    stub.stub_answer(0, 0)
    az.set_log_level(az.LogLevel.INFO)
    streams = []
    take()
    for o in case["ops"]:
        e = dict(o=o, r="None")
        err = None
        stub.stub_answer(0, 0)
        try:
            if o["op"] == "create":
                e["back"] = {}
                s = made(az.StreamSettings, o["s"], o["how"])
                e["back"] = back(s, ["store_path", "custom_metadata", "s3", "compression", "dimensions", "multiscale",
                                     "data_type", "version"])
                repr(s)
                stub.stub_answer(int(o["refuse"]), 0)
                z = az.ZarrStream(s)
                streams.append(z)
                e["r"] = "active" if z.is_active() else "inactive"
                del z, s
            elif o["op"] == "append":
                t = np.dtype(DTYPE[o["dtype"]])
                mem = bytes(byte(k) for k in range(o["block"] * t.itemsize))
                base = np.frombuffer(bytearray(mem), dtype=t)
                v = o["v"]
                a = np.lib.stride_tricks.as_strided(base[v["off"]:] if v["off"] < o["block"] else base[:0], tuple(v["shape"]),
                                                    tuple(x * t.itemsize for x in v["strides"]))
                stub.stub_answer(0, 7 if o["fails"] else 0)
                try:
                    r = streams[o["k"] - 1].append(a)
                    e["r"] = str(r)
                finally:
                    e["same"] = base.tobytes() == mem
            elif o["op"] == "drop":
                streams[o["k"] - 1] = None
            elif o["op"] == "level":
                stub.stub_answer(0, 7 if o["fails"] else 0)
                az.set_log_level(getattr(az.LogLevel, o["l"]))
            elif o["op"] == "getlevel":
                e["r"] = az.get_log_level().name
        except Exception as x:
            e["r"] = type(x).__name__
            err = str(x)
        e["calls"] = take()
        if err:
            e["err"] = err
        emit(e)
    del streams
    take()


with open(out, "w", buffering=1) as fh:
    for case in json.load(open(cases)):
        run(case, lambda e: fh.write(json.dumps(dict(case=case["id"], **e)) + "\n"))
        fh.write(json.dumps(dict(case=case["id"], end=True)) + "\n")
