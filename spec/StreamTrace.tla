---------------------------- MODULE StreamTrace ----------------------------
(* Judges what was recorded from the real library against Stream: for every
   recorded case the machine of Stream is driven by the recorded calls, and
   what the recorded store holds is compared with the machine's store - in
   several aspects, so that each property is judged by its own aspect.

   Cases.json is a sequence of records
     id, cfg (as in Stream, plus dtype, comp, levels of metadata), ops (the
     calls with status and bytes_out), obs (the store as a reader sees it, see
     store.py), ref (a second store to compare with), want (aspects).        *)
EXTENDS Stream, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES t,       \* the case
          i,       \* calls consumed
          verdict  \* aspects that failed; {"?"} while running

Case == Cases[t]
Obs == Case.obs
Ops == Case.ops
Aspects == {Case.want[k] : k \in 1..Len(Case.want)}

-----------------------------------------------------------------------------
(* Reading the recorded store *)

Has(r, f) == f \in DOMAIN r
ObsKeys(o) == {o.keys[k] : k \in 1..Len(o.keys)}

OChunk(o, l, cc) ==
    IF cfg.v = 2
    THEN LET k == ChunkKey(l - 1, cc) IN IF Has(o.chunks, k) THEN o.chunks[k] ELSE Missing
    ELSE LET k == ShardKey(l - 1, ShardOf(D(l), cc))
         IN  IF ~Has(o.shards, k) THEN Missing
             ELSE IF ~o.shards[k].tab THEN Missing
             ELSE IF SlotOf(D(l), cc) + 1 > Len(o.shards[k].slots) THEN Missing
             ELSE o.shards[k].slots[SlotOf(D(l), cc) + 1]

NF(l) == FramesOf(l, total)
Filled == {l \in 1..NLevels : NF(l) > 0}
Coords(l) == ChunkCoords(l, LayersAfter(D(l), NF(l)))

\* Documents come flattened: path -> JSON text of the scalar there; path[] ->
\* length of the array, path{} -> names of the object's members. So a document
\* of any form can be asked anything.
Doc(o, k) == IF ~Has(o.docs, k) THEN [valid |-> FALSE, doc |-> [nothing |-> "here"]] ELSE o.docs[k]
Quoted(s) == "\"" \o s \o "\""
At(d, p) == IF p \in DOMAIN d THEN d[p] ELSE "<missing>"
IsNum(d, p, n) == At(d, p) = ToString(n)
IsStr(d, p, s) == At(d, p) = Quoted(s)
IsNums(d, p, s) == /\ At(d, p \o "[]") = ToString(Len(s))
                   /\ \A k \in 1..Len(s) : At(d, p \o "/" \o ToString(k - 1)) = ToString(s[k])

-----------------------------------------------------------------------------
(* C04 *)

V2Type == [uint8 |-> "|u1", uint16 |-> "<u2", uint32 |-> "<u4", uint64 |-> "<u8",
           int8 |-> "|i1", int16 |-> "<i2", int32 |-> "<i4", int64 |-> "<i8",
           float32 |-> "<f4", float64 |-> "<f8"]
V2Alt == [uint8 |-> "<u1", int8 |-> "<i1"]
\* <u1 and |u1 mean the same
IsType(d, p) ==
    \/ IsStr(d, p, IF cfg.v = 2 THEN V2Type[cfg.dtype] ELSE cfg.dtype)
    \/ cfg.v = 2 /\ cfg.dtype \in DOMAIN V2Alt /\ IsStr(d, p, V2Alt[cfg.dtype])

CodecName == IF cfg.comp.codec = 1 THEN "lz4" ELSE "zstd"
IsComp(d) ==
    IF cfg.comp.compressor = 0 THEN At(d, "/compressor") = "null"
    ELSE LET p == IF cfg.v = 2 THEN "/compressor" ELSE "/compressor/configuration"
         IN  /\ cfg.v = 2 => IsStr(d, "/compressor/id", "blosc")
             /\ IsStr(d, p \o "/cname", CodecName)
             /\ IsNum(d, p \o "/clevel", cfg.comp.level)
             /\ IsNum(d, p \o "/shuffle", cfg.comp.shuffle)

\* what a reader needs to find a pixel
ShapesOk(o, l) ==
    LET e == Doc(o, ArrayMetaKey(cfg.v, l - 1)) IN
    /\ e.valid
    /\ IsNums(e.doc, "/shape", ShapeAfter(D(l), NF(l)))
    /\ IF cfg.v = 2 THEN IsNums(e.doc, "/chunks", Chunks(D(l)))
       ELSE /\ IsNums(e.doc, "/chunk_grid/chunk_shape", Chunks(D(l)))
            /\ IsNums(e.doc, "/storage_transformers/0/configuration/chunks_per_shard", Shards(D(l)))

ArrayDocOk(o, l) ==
    LET d == Doc(o, ArrayMetaKey(cfg.v, l - 1)).doc
    IN  /\ ShapesOk(o, l)
        /\ IsNum(d, "/fill_value", 0)
        /\ IsComp(d)
        /\ IF cfg.v = 2
           THEN /\ IsNum(d, "/zarr_format", 2) /\ IsStr(d, "/order", "C")
                /\ IsStr(d, "/dimension_separator", "/") /\ At(d, "/filters") = "null"
                /\ IsType(d, "/dtype")
           ELSE /\ IsStr(d, "/chunk_memory_layout", "C")
                /\ IsStr(d, "/chunk_grid/separator", "/") /\ IsStr(d, "/chunk_grid/type", "regular")
                /\ At(d, "/storage_transformers[]") = "1"
                /\ IsType(d, "/data_type")

GroupDoc(o) == IF cfg.v = 2 THEN Doc(o, ".zattrs").doc ELSE Doc(o, "meta/root.group.json").doc
Multiscales == IF cfg.v = 2 THEN "/multiscales/0" ELSE "/attributes/multiscales/0"

\* the size of a pixel of level l, in those of the first: in its frame, and (where
\* frames follow each other along the first dimension only) along that
ScaleOk(d, p, l) ==
    LET n == Len(cfg.dims)
        sc == p \o "/0/scale"
    IN  /\ At(d, p \o "[]") = "1" /\ IsStr(d, p \o "/0/type", "scale")
        /\ At(d, sc \o "[]") = ToString(n)
        /\ \A k \in (IF n = 3 THEN {1, 2, 3} ELSE IF l = 1 THEN 1..n ELSE {n - 1, n}) :
              IsNum(d, sc \o "/" \o ToString(k - 1), 2 ^ (l - 1))

\* cfg.axes gives the JSON text of each dimension's name
GroupDocOk(o) ==
    /\ \A k \in DOMAIN o.docs \ {"<none>"} : o.docs[k].valid
    /\ LET d == GroupDoc(o) m == Multiscales
           ax(k) == m \o "/axes/" \o ToString(k - 1)
       IN
       /\ At(d, m \o "/axes[]") = ToString(Len(cfg.dims))
       /\ \A k \in 1..Len(cfg.dims) : /\ At(d, ax(k) \o "/name") = cfg.axes[k]
                                      /\ IsStr(d, ax(k) \o "/type", cfg.dims[k].ty)
       /\ At(d, m \o "/datasets[]") = ToString(NLevels)
       /\ \A l \in 1..NLevels :
            LET ds == m \o "/datasets/" \o ToString(l - 1) IN
            /\ IsStr(d, ds \o "/path", ToString(l - 1))
            /\ ScaleOk(d, ds \o "/coordinateTransformations", l)
    /\ cfg.v = 2 => IsNum(Doc(o, ".zgroup").doc, "/zarr_format", 2)
    /\ cfg.v = 3 => /\ Doc(o, "zarr.json").valid
                    /\ {"/zarr_format", "/metadata_encoding", "/metadata_key_suffix"}
                         \subseteq DOMAIN Doc(o, "zarr.json").doc
    /\ LET k == IF cfg.v = 2 THEN "acquire.json" ELSE "meta/acquire.json"
       IN  Doc(o, k).doc = cfg.customdoc

DocsOk == /\ GroupDocOk(Obs)
          /\ \A l \in Filled : ArrayDocOk(Obs, l)
          /\ \A l \in (1..NLevels) \ Filled : ~Has(Obs.docs, ArrayMetaKey(cfg.v, l - 1))

-----------------------------------------------------------------------------
(* The other aspects *)

StatusOk == \A k \in 1..Len(Ops) :
              /\ Ops[k].op = "create" => Ops[k].ok
              /\ Ops[k].op = "append" => Ops[k].st = 0 /\ Ops[k].out = Ops[k].n
              /\ Ops[k].ran

\* C01 (l = 1), C08 (l > 1)
LevelPixelsOk(o, l) ==
    /\ ShapesOk(o, l)
    /\ \A cc \in Coords(l) : OChunk(o, l, cc) = ReadChunk(store, l, cc)
PixelsOk == 1 \in Filled => LevelPixelsOk(Obs, 1)

\* the same for chunks too big to compare as a whole: some places of each
\* (obs.points: records l, cc, n pixels, ks places, vs values)
Points == {Obs.points[k] : k \in 1..Len(Obs.points)}
PointsOf(ls) ==
    /\ \A l \in ls : ShapesOk(Obs, l)
    /\ \A l \in ls : \A cc \in Coords(l) : \E p \in Points : p.l = l - 1 /\ p.cc = cc
    /\ \A p \in Points : p.l + 1 \in ls =>
         /\ p.n = ChunkPx(D(p.l + 1))
         /\ \A k \in 1..Len(p.ks) : p.vs[k] = HistPlace(p.l + 1, p.cc, NF(p.l + 1), p.ks[k])
PointsOk == PointsOf(Filled \cap {1})
PyramidPointsOk == PointsOf(Filled \ {1})

LevelsSeen(o) == {l \in 1..60 : Has(o.docs, ArrayMetaKey(cfg.v, l - 1))}
PyramidOk == /\ LevelsSeen(Obs) = Filled
             /\ At(GroupDoc(Obs), Multiscales \o "/datasets[]") = ToString(NLevels)
             /\ \A l \in Filled \ {1} : LevelPixelsOk(Obs, l)

\* C03
KeysOk == ObsKeys(Obs) = ExpectedKeys

\* C05: the index of a shard as a whole
RECURSIVE SumLen(_, _)
SumLen(es, k) == IF k > Len(es) THEN 0 ELSE (IF es[k][1] < 0 THEN 0 ELSE es[k][2]) + SumLen(es, k + 1)
ShardOk(l, key) ==
    LET s == Obs.shards[key]
        d == D(l)
        n == SlotCount(d)
        data == s.size - 16 * n
        es == s.entries
        there == {k \in 1..n : es[k] # <<-1, -1>>}
    IN  /\ s.tab /\ Len(es) = n
        /\ \A k \in there : es[k][1] >= 0 /\ es[k][2] > 0 /\ es[k][1] + es[k][2] <= data
        /\ \A a, b \in there : a < b => \/ es[a][1] + es[a][2] <= es[b][1]
                                        \/ es[b][1] + es[b][2] <= es[a][1]
        /\ SumLen(es, 1) = data
        /\ \A k \in 1..n :
             LET cc == ChunkAtSlot(d, s.sc, k - 1)
                 in == InGrid(d, cc) /\ cc[1] < LayersAfter(d, NF(l))
             IN  /\ (k \in there) <=> in
                 \* each entry delimits exactly the encoding of its own chunk: the
                 \* one stored under that coordinate without shards
                 /\ in => s.slots[k] = Case.ref.chunks[ChunkKey(l - 1, cc)]
ShardsOk ==
    cfg.v = 3 =>
      \A l \in Filled :
        /\ \A p \in GridSet(ShardGrid(D(l))) : \A x \in 0..(ShardLayersAfter(D(l), NF(l)) - 1) :
              Has(Obs.shards, ShardKey(l - 1, <<x>> \o p))
        /\ \A key \in DOMAIN Obs.shards \ {"<none>"} :
              Obs.shards[key].level = l - 1 => ShardOk(l, key)

\* C06: all there and every appended value somewhere
Values(px) == {px[k] : k \in 1..Len(px)}
CompleteLevel(l) ==
    /\ ShapesOk(Obs, l)
    /\ \A cc \in Coords(l) : Len(OChunk(Obs, l, cc)) = ChunkPx(D(l))
    /\ cfg.v = 3 => \A k \in DOMAIN Obs.shards \ {"<none>"} :
                       Obs.shards[k].level = l - 1 => Obs.shards[k].tab
CompleteOk ==
    /\ \A l \in Filled : CompleteLevel(l)
    /\ 1 \in Filled =>
         UNION {Values(Frame0(f)) : f \in 0..(NF(1) - 1)}
           \subseteq UNION {Values(OChunk(Obs, 1, cc)) : cc \in Coords(1)}

\* C02, C14, C15, C22, C23: two stores are the same as far as a reader can see
SameChunks(a, b) ==
    /\ a.chunks = b.chunks
    /\ DOMAIN a.shards = DOMAIN b.shards
    /\ \A k \in DOMAIN a.shards \ {"<none>"} :
         a.shards[k].tab = b.shards[k].tab /\ a.shards[k].slots = b.shards[k].slots
SameOk == /\ Obs.keys = Case.ref.keys
          /\ SameChunks(Obs, Case.ref)
          /\ DOMAIN Obs.docs = DOMAIN Case.ref.docs
          /\ \A k \in DOMAIN Obs.docs \ {"<none>"} : Obs.docs[k].doc = Case.ref.docs[k].doc

\* C15, C22: and the calls gave the same results
SameCalls == /\ Len(Ops) = Len(Case.refops)
             /\ \A k \in 1..Len(Ops) : /\ Ops[k].ran = Case.refops[k].ran
                                       /\ Ops[k].ran => Ops[k] = Case.refops[k]

\* C23: the same pixels, whatever the documents say about compression
\* (of a big chunk there is a digest, whose first element is the length)
FullChunks(o) ==
    \A l \in Filled : \A cc \in Coords(l) :
       LET c == OChunk(o, l, cc)
       IN  IF o.digests THEN c # Missing /\ c[1] = ChunkPx(D(l)) ELSE Len(c) = ChunkPx(D(l))
CompressionOk ==
    /\ Obs.keys = Case.ref.keys
    /\ SameChunks(Obs, Case.ref)
    /\ FullChunks(Obs)
    /\ \A l \in Filled :
         LET e == Doc(Obs, ArrayMetaKey(cfg.v, l - 1))
         IN e.valid /\ IsComp(e.doc)

Failed ==
    {a \in Aspects :
        CASE a = "status" -> ~StatusOk
          [] a = "pixels" -> ~PixelsOk
          [] a = "points" -> ~PointsOk
          [] a = "pyramidpoints" -> ~PyramidPointsOk
          [] a = "pyramid" -> ~PyramidOk
          [] a = "keys" -> ~KeysOk
          [] a = "docs" -> ~DocsOk
          [] a = "shards" -> ~ShardsOk
          [] a = "complete" -> ~CompleteOk
          [] a = "same" -> ~SameOk
          [] a = "calls" -> ~SameCalls
          [] a = "compression" -> ~CompressionOk}

-----------------------------------------------------------------------------
TraceInit ==
    /\ t \in 1..Len(Cases)
    /\ InitWith(Cases[t].cfg)
    /\ i = 0
    /\ verdict = {"?"}

Step == /\ pc \notin {"new", "idle", "closed"}
        /\ InternalDet
        /\ UNCHANGED <<t, i, verdict>>
Call == /\ pc \in {"new", "idle"} /\ i < Len(Ops)
        /\ i' = i + 1
        /\ CASE Ops[i'].op = "create" -> Create
             [] Ops[i'].op = "append" -> AppendBegin(Ops[i'].n)
             [] Ops[i'].op = "destroy" -> DestroyBegin
        /\ UNCHANGED <<t, verdict>>
Judge == /\ pc = "closed" /\ verdict = {"?"}
         /\ verdict' = Failed
         /\ PrintT(ToJson([case |-> Case.id, failed |-> verdict']))
         /\ UNCHANGED <<vars, t, i>>
TraceNext == Step \/ Call \/ Judge
\* judged states only differ by case
TraceView == <<t, i, pc, todo, cl, fl, total, verdict>>
=============================================================================
