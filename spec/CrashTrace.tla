----------------------------- MODULE CrashTrace -----------------------------
(* C16: stores recorded at the instant a process was stopped, or between two
   calls, judged by the same predicates Stream keeps as invariants. A case has
     kind  : "crash" or "flushed"
     bytes : crash - all bytes the environment may have handed over;
             flushed - the bytes of the appends that returned
     obs   : as in StreamTrace, plus ext (level -> first extent in the array
             metadata) and pieces of shards that have no index yet            *)
EXTENDS StreamTrace

Ext(o, l) == IF ToString(l - 1) \in DOMAIN o.ext THEN o.ext[ToString(l - 1)] ELSE 0

\* metadata on disk promises nothing that is not on disk
CrashOk(o, bytes) ==
    \A l \in 1..NLevels :
        Ext(o, l) > 0 =>
          \A cc \in ChunkCoords(l, CeilDiv(Ext(o, l), D(l)[1].c)) :
             LET c == OChunk(o, l, cc)
                 nfs == {nf \in 1..FramesOf(l, bytes) : ExtentT(D(l), nf) = Ext(o, l)}
             IN  c # Missing /\ \E nf \in nfs : c = HistChunk(l, cc, nf)

\* complete layers are on disk, and metadata covers them
FlushedOk(o, bytes) ==
    \A l \in 1..NLevels :
        LET d == D(l)
            nf == FramesOf(l, bytes)
            layers == nf \div FramesPerLayer(d)
            covered == IF cfg.v = 2 THEN layers
                       ELSE LayersPerShard(d) * (layers \div LayersPerShard(d))
        IN  /\ \A cc \in ChunkCoords(l, layers) :
                 IF cfg.v = 2 \/ cc[1] < covered
                 THEN OChunk(o, l, cc) = HistChunk(l, cc, nf)
                 ELSE LET k == ShardKey(l - 1, ShardOf(d, cc))
                      IN  /\ Has(o.shards, k)
                          /\ \E p \in 1..Len(o.shards[k].pieces) :
                                o.shards[k].pieces[p] = HistChunk(l, cc, nf)
            /\ covered > 0 => Ext(o, l) = covered * d[1].c

CrashInit ==
    /\ t \in 1..Len(Cases)
    /\ InitWith(Cases[t].cfg)
    /\ i = 0 /\ verdict = {"?"}
CrashNext ==
    /\ verdict = {"?"}
    /\ verdict' = (IF Case.kind = "crash"
                   THEN (IF CrashOk(Obs, Case.bytes) THEN {} ELSE {"crash-safe"})
                   ELSE (IF FlushedOk(Obs, Case.bytes) THEN {} ELSE {"flushed"}))
    /\ PrintT(ToJson([case |-> Case.id, failed |-> verdict']))
    /\ UNCHANGED <<vars, t, i>>
=============================================================================
