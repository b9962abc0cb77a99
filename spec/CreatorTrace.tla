---------------------------- MODULE CreatorTrace ----------------------------
(* C11 on recorded executions: what a call for the sinks of a dataset, or of
   the metadata, found, created and returned.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE t
Cases == JsonDeserialize(IOEnv.CASES)
Set(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Tuples(_)
Tuples(ns) == IF ns = <<>> THEN << <<>> >>
              ELSE LET r == Tuples(SubSeq(ns, 1, Len(ns) - 1)) n == ns[Len(ns)]
                   IN [k \in 1..(Len(r) * n) |-> Append(r[((k - 1) \div n) + 1], (k - 1) % n)]
RECURSIVE Join(_)
Join(x) == IF x = <<>> THEN "" ELSE "/" \o ToString(Head(x)) \o Join(Tail(x))
\* the files of a dataset in row-major order, every dimension but the first
DataFiles(c) == LET x == Tuples(Tail(c.parts)) IN [k \in DOMAIN x |-> c.base \o Join(x[k])]
\* ... and its directories
DataDirs(c) == UNION {LET x == Tuples(SubSeq(c.parts, 2, n)) IN {c.base \o Join(x[k]) : k \in DOMAIN x}
                      : n \in 1..(Len(c.parts) - 1)}
MetaKeys(c) == IF c.version = 2 THEN <<".zattrs", ".zgroup", "0/.zattrs", "acquire.json">>
               ELSE <<"meta/acquire.json", "meta/root.group.json", "zarr.json">>
Keys(c) == IF c.kind = "data" THEN [k \in 1..Len(DataFiles(c)) |-> ToString(k - 1)] ELSE MetaKeys(c)
Files(c) == IF c.kind = "data" THEN DataFiles(c) ELSE [k \in DOMAIN MetaKeys(c) |-> c.base \o "/" \o MetaKeys(c)[k]]
Dirs(c) == Set(c.above) \cup
           (IF c.kind = "data" THEN DataDirs(c)
            ELSE {c.base, c.base \o (IF c.version = 2 THEN "/0" ELSE "/meta")})
\* nothing of another kind is where a directory or a file has to be
Possible(c) == /\ Dirs(c) \cap (Set(c.oldfiles) \cup Set(c.oldlinks)) = {}
               /\ Set(Files(c)) \cap (Set(c.olddirs) \cup Set(c.oldlinks)) = {}
Old(c) == Set(c.oldfiles) \cup Set(c.olddirs) \cup Set(c.oldlinks)

Failed(c) == {a \in {"status", "success", "failure", "sinks", "extra"} :
    CASE a = "status" -> c.status # "ok"
      [] a = "success" -> /\ c.status = "ok" /\ c.ok
                          /\ ~(Dirs(c) \subseteq Set(c.dirs) /\ Set(Files(c)) \subseteq Set(c.files))
      [] a = "failure" -> /\ c.status = "ok" /\ ~c.ok /\ Possible(c) /\ c.hits = 0
      [] a = "sinks" -> c.status = "ok" /\ c.ok /\ ~(c.keys = Keys(c) /\ c.arrive = Files(c))
      [] a = "extra" -> c.status = "ok" /\ ~(Set(c.dirs) \cup Set(c.files) \subseteq Old(c) \cup Dirs(c) \cup Set(Files(c)))}
Init == t \in 1..Len(Cases)
        /\ PrintT(ToJson([case |-> Cases[t].id, failed |-> Failed(Cases[t])]))
Next == FALSE /\ UNCHANGED t
=============================================================================
