"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification checked with TLC; behaviours generated from it replayed into the library; recorded stores validated against it"
T = {
 "C01": ("model_checking", TV + " (pixels)", "Exhaustive design model in small scopes; the code is judged on generated behaviours: a store read back through its own metadata must equal the specification's store, for every case explored. Not a proof for all configurations. Trusts the reader (numpy, libblosc) and TLC."),
 "C02": ("model_checking", TV + " (append divisions, compared with one append)", "Every case compares two real stores of the same byte stream and checks each status and byte count; divisions are chosen by the specification at frame, layer and shard boundaries."),
 "C03": ("model_checking", TV + " (key sets)", "Key listing equals the specification's exact key set for every generated case, both versions and backends."),
 "C04": ("model_checking", TV + " (documents)", "Documents are parsed strictly and compared member by member with what the specification says; members the property does not name are not compared."),
 "C05": ("model_checking", TV + " (shard index bytes)", "Index entries parsed from the bytes; ownership of a slot is judged against the same stream stored without shards."),
 "C06": ("model_checking", TV + " (every stop point)", "Stop points around every frame, layer and shard boundary for generated settings, both backends."),
 "C07": ("model_checking", "TLA+ specification of valid settings and of creation, checked with TLC; settings enumerated from it given to the real library, acceptance and the file system before and after validated against it", "Every single change of a valid setting, random combinations of up to four (thorough: every two); in an unprivileged process, so that permissions count."),
 "C20": ("model_checking", "TLA+ machine of the C interface, checked with TLC; random orders of calls from it made on the real library (half again with AddressSanitizer), recorded results and settings validated against it, the last store against Stream.tla", "Random orders of about 30 calls; the memory of dimension arrays is counted by interposing the allocator."),
 "C21": ("model_checking", "TLA+ model of taking over a path, checked with TLC; every situation of it built in a scratch directory and taken over by a real stream; every recorded change and the directory around the store validated against it", "File-system changes are seen by interposing the C library; runs unprivileged. S3: stand-in, requests and other objects."),
 "C24": ("model_checking", "TLA+ model of what a stream holds, checked with TLC; descriptors, threads and heap blocks measured in real streams - long, repeated, failing, refused - and validated against it", "Memory obtained other than through malloc is not seen; growth is judged over 9 to 14 periods of a layout."),
 "C08": ("model_checking", TV + " (pyramid pixels)", "Pixel values of all levels compared with the specification's exact integer arithmetic; values span the range of each type, large types in multiples that keep means exact."),
 "C09": ("model_checking", "TLA+ specification of call statuses checked with TLC; a fault injected at every storage operation of generated behaviours; recorded call histories validated against it", "Faults are injected one at a time at system calls and S3 requests, every one of them in the chosen scenarios; hangs are found with a time limit."),
 "C16": ("model_checking", TV + " (crash at every storage operation)", "The directory left by a process stopped at each storage operation, or in the middle of a write, is judged by the specification; power failure (loss of page cache) is outside: reaching the file system means the write call was made."),
 "C11": ("model_checking", "TLA+ fan-out/latch specification checked with TLC; the real sink creator run under a controlled scheduler with injected failures, outcomes validated against it", "Schedules: systematic up to a preemption bound, then random; a watch on the caller's stack finds jobs that outlive the call; sequentially consistent memory only."),
 "C12": ("model_checking", "TLA+ pool specification and a refinement by a mutex/condition-variable model, checked with TLC; the real pool and its users run under a controlled scheduler, traces validated against the specification", "Schedules of small scenarios; every request fails in turn, by response and by exception; sequentially consistent memory only."),
 "C13": ("model_checking", "TLA+ specification of uploads checked with TLC; write sequences replayed into the real sink against an S3 stand-in whose request log is validated against it", "S3 is an in-process stand-in; every request failed in turn."),
 "C15": ("model_checking", "TLA+ model of a parallel flush checked with TLC; whole streams run under a controlled scheduler, every distinct outcome validated against one worker's", "Schedules: systematic up to a preemption bound, then random walks that also switch at plain memory accesses; sequentially consistent memory only."),
 "C22": ("model_checking", "TLA+ model of several streams checked with TLC (non-interference); several real streams run under a controlled scheduler and interleaved on one thread, every distinct outcome validated against the stream alone", "Schedules: systematic up to a preemption bound, then random; sequentially consistent memory only."),
 "C25": ("model_checking", "TLA+ log specification and a refinement by a lock model, checked with TLC; the real log run under a controlled scheduler, traces validated against the specification", "Schedules of two or three threads; sequentially consistent memory only."),
 "C14": ("model_checking", TV + " (S3 against file system)", "S3 is an in-process stand-in for the minio client library, which is not available offline; both stores come from real runs of the library."),
 "C10": ("model_checking", "TLA+ specification of the pool and a refinement of it by a mutex/condition-variable model, checked with TLC; the real pool run under a controlled scheduler and its event traces validated against the specification", "Schedules of small scenarios: systematic up to a preemption bound, then random; sequentially consistent memory only."),
 "C17": ("model_checking", "TLA+ layout arithmetic checked with TLC (bijection in small scopes); mappings and counts returned by the code validated against it", "Small layouts exhaustively within bounds, large and boundary layouts sampled; layouts whose counts do not fit the return types are outside the domain."),
 "C18": ("model_checking", "TLA+ byte-file specification checked with TLC; operation sequences replayed into the real writer, with short and failing system calls, files validated against it", "Offsets up to the largest a file system here takes; concurrent writers to disjoint ranges."),
 "C19": ("model_checking", "TLA+ byte-file specification checked with TLC; operation sequences replayed into the real sink, with failing system calls, files validated against it", "Random operation sequences; each system call failed in turn."),
 "C26": ("model_checking", "TLA+ specification of views of arrays, settings and streams as a Python program has them, checked with TLC; programs generated from it run against the real binding over a recording C interface, the calls it made validated against it", "pybind11 is not available offline: the binding is compiled against a stand-in of ours with the same interface over CPython's. Native byte order only."),
 "C27": ("model_checking", "TLA+ specification of calls that may be refused memory or threads and a refinement by what a stream acquires, checked with TLC; each allocation and thread start of real streams refused in turn, recorded calls, stores and what is still held validated against it", "Refusals are injected into operator new (4 KiB and more) and pthread_create; memory the S3 client and blosc get for themselves is not refused."),
 "C28": ("model_checking", "TLA+ specification of an object store and of what each request does and tells, checked with TLC; random sequences of requests from it made by the real connection on an S3 stand-in, answers and objects validated against it", "The minio client library is not available offline: the stand-in implements the semantics of the service that the specification states. Sequences are sampled; the model is exhaustive in small scopes."),
 "C23": ("model_checking", TV + " (compressed against raw)", "All 60 codec/level/shuffle combinations at least once per run."),
}
NA = {
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        l, t, n = T[i]
        c = dict(property=i, quick_cmd=f"python3-vt tools/run.py {i}",
                 thorough_cmd=f"env VERIF_TIER=thorough python3-vt tools/run.py {i}", evidence_file=f"evidence/{i}.json",
                 technique=t, level=l, level_note=n)
        checks.append(c)
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check yet.")))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ (TLC). No hooks in /repo: the library is observed through its interfaces, an in-process stand-in for the S3 client and interposed system and thread calls.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
