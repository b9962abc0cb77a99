----------------------------- MODULE StreamGen -----------------------------
(* Generates scenarios: random behaviours of Stream (without pixels), recorded
   as the calls the environment made. Run with -simulate; every finished
   behaviour is printed as one JSON line. The last calls are chosen near the
   boundaries of frames, layers and shards, which the machine knows. *)
EXTENDS Stream, Json, IOUtils

CONSTANTS GVersions, GMultiscale, GFs, GDims, GTypes, GComp, GCuts, GMaxFrames, GMaxPixels,
          GPartial, GMaxSize, GMinFrames,
          GMaxInner,   \* extents of the dimensions between the first and the frame
          GMaxChunk,   \* rows or columns in a chunk
          GMaxShard,
          GMaxRatio,   \* frame to chunk, for pyramids
          GFramePx, GMaxOps, GMaxKeys

VARIABLES h, target
gvars == <<vars, h, target>>

R(S) == RandomElement(S)
Bpp == [uint8 |-> 1, int8 |-> 1, uint16 |-> 2, int16 |-> 2, uint32 |-> 4, int32 |-> 4,
        float32 |-> 4, uint64 |-> 8, int64 |-> 8, float64 |-> 8]
Names == <<"t", "c", "z", "w", "v", "u", "y", "x">>
\* RandomElement must be bound by a quantifier over a singleton: TLC evaluates
\* operator arguments and definitions anew at every use.
AddDim(k, n, ms) ==
    \E ty \in {IF k > n - 2 THEN "space"
              ELSE IF k = 1 THEN R({"time", "other", "space"} \cup (IF ms THEN {} ELSE {"channel"}))
              ELSE R({"channel", "other", "time", "space"})} :
    \E c0 \in {R(1..(GMaxChunk - 1))} : \E big \in {ms /\ k > n - 2} :
    \E s \in {IF k = 1 THEN R({0, 0, 1, 3})
             ELSE IF big THEN c0 * R(1..GMaxRatio) + R({0, 0, 1})  \* room for a pyramid
             ELSE IF k > n - 2 THEN R(1..GMaxSize) ELSE R(1..GMaxInner)} :
    \E c \in {IF big THEN c0
             ELSE IF k = 1 THEN IF ms THEN R(1..2) ELSE R(1..3)
             ELSE IF k > n - 2 THEN R(1..(Min2(s, GMaxChunk) + 1)) ELSE R(1..(s + 1))} :
      cfg' = [cfg EXCEPT !.dims = Append(@,
                [n |-> ToString(k) \o Names[IF k > n - 2 THEN k + 8 - n ELSE k],
                 ty |-> ty, s |-> s, c |-> c, h |-> R(1..GMaxShard)])]

\* pixel values: distinct where the type has room for it, up to the ends of its
\* range. A pyramid divides by 8 per level: with a unit other than 1 (and for
\* floating point) values are multiples of 8^4, so that means stay exact.
RandVal(ty, ms, unit) ==
    LET st == R({1, 3, 7, 11, 101})
        flt == ty \in {"float32", "float64"}
    IN  CASE ty = "uint8" -> [add |-> R({0, 1, 4}), mul |-> 1, step |-> st, off |-> R(0..250), m |-> 251]
          [] ty = "int8" -> [add |-> R({-125, -100, -128}), mul |-> 1, step |-> st, off |-> R(0..250), m |-> 223]
          [] ms /\ (unit # 0 \/ flt) ->
               [add |-> IF ty \in {"uint32", "uint64"} THEN 4096 * R({0, 4}) ELSE -4096 * 125,
                mul |-> 4096, step |-> st, off |-> R(0..250), m |-> 251]
          [] OTHER ->
               [add |-> IF ty \in {"uint16", "uint32", "uint64"} THEN R({1, 14}) ELSE R({-32768, -32760, -32755}),
                mul |-> 1, step |-> st, off |-> R(0..65520), m |-> 65521]
\* the unit of a value, as a power of two
RandUnit(ty, ms) ==
    CASE ty \in {"uint32", "int32"} -> R(IF ms THEN {0, 12} ELSE {0, 16})
      [] ty \in {"uint64", "int64"} -> R(IF ms THEN {0, 30, 44} ELSE {0, 30, 48})
      [] ty = "float32" -> R({0, -9, 3, 100})
      [] ty = "float64" -> R({0, -12, 40, 1000})
      [] OTHER -> 0

\* the total number of frames: near a boundary, or anything
Totals(c) ==
    LET fpl == FramesPerLayer(c.dims)
        fps == fpl * LayersPerShard(c.dims)
        fpt == FramesPerT(c.dims)
        near == {k * fpl + e : k \in 1..4, e \in {-1, 0, 1}} \cup {k * fps + e : k \in 1..2, e \in {-1, 0, 1}}
                \cup {k * fpt + e : k \in 1..3, e \in {-1, 0, 1}}
        ok == {x \in near \cup (0..8) \cup (IF GMinFrames > 8 THEN GMinFrames..GMaxFrames ELSE {}) : x >= 0 /\ x <= GMaxFrames /\ x * FramePx(c.dims) <= GMaxPixels}
    IN  IF GMinFrames = 0 THEN ok ELSE {x \in ok : x >= GMinFrames}

\* how much work is it to look at everything?
Fits(c, n) ==
    LET layers == LayersAfter(c.dims, n)
    IN  /\ FramePx(c.dims) <= GFramePx
        /\ Prod(ChunkGrid(c.dims)) * Max2(layers, 1) * ChunkPx(c.dims) <= 3 * GMaxPixels
        /\ Prod(ChunkGrid(c.dims)) * Max2(layers, 1) <= GMaxKeys
        /\ SlotCount(c.dims) * Prod(ShardGrid(c.dims)) <= GMaxKeys + 50

Blank == [v |-> 2, ms |-> FALSE, fs |-> TRUE, bpp |-> 1, dims |-> <<>>,
          val |-> [add |-> 0, mul |-> 1, step |-> 1, off |-> 0, m |-> 1]]
GenInit ==
    /\ cfg = Blank
    /\ pc = "pick" /\ todo = 0 /\ part = 0 /\ total = 0 /\ cl = 1 /\ frame = <<>>
    /\ lv = <<>> /\ fl = {} /\ ferr = FALSE /\ err = FALSE /\ store = <<>>
    /\ h = <<>> /\ target = 0
Rest == UNCHANGED <<todo, part, total, cl, frame, fl, ferr, err, store, h>>

DoPick ==
    /\ pc = "pick"
    /\ \E ms \in {R(GMultiscale)} : \E ty \in {R(GTypes)} : \E c \in {R(GComp)} :
       \E u \in {RandUnit(ty, ms)} :
         cfg' = [v |-> R(GVersions), ms |-> ms, fs |-> R(GFs), dtype |-> ty, bpp |-> Bpp[ty],
                 dims |-> <<>>, val |-> RandVal(ty, ms, u), unit |-> u,
                 comp |-> [compressor |-> c, codec |-> R({1, 2}), level |-> R(0..9), shuffle |-> R(0..2)]]
    /\ target' = R(GDims)
    /\ pc' = "dims"
    /\ UNCHANGED lv /\ Rest
DoDim ==
    /\ pc = "dims"
    /\ IF Len(cfg.dims) < target
       THEN AddDim(Len(cfg.dims) + 1, target, cfg.ms) /\ UNCHANGED <<pc, target>>
       ELSE LET ts == Totals(cfg)
            IN  /\ UNCHANGED cfg
                /\ IF ts = {} THEN pc' = "pick" /\ target' = 0
                   ELSE target' = R(ts) /\ pc' = "total"
    /\ UNCHANGED lv /\ Rest
DoStart ==
    /\ pc = "total"
    /\ IF ~Fits(cfg, target) THEN pc' = "pick" /\ UNCHANGED <<target, lv>>
       ELSE /\ lv' = [l \in 1..NLevels |-> InitLevel]
            /\ pc' = "new"
            /\ target' = target * FB + (IF GPartial THEN R({0, 0, 1, FB - 1} \cap (0..(FB - 1))) ELSE 0)
    /\ UNCHANGED cfg /\ Rest

DoCreate == Create /\ h' = Append(h, [op |-> "create"]) /\ UNCHANGED target
Left == target - total
\* sizes that cut the stream in telling places
Sizes0 ==
    LET toFrame == FB - part
        toLayer == FB * FramesPerLayer(cfg.dims)
    IN  (IF GCuts = "frames" THEN {toFrame, FB, 2 * FB, toLayer, Left}
         ELSE {0, 1, toFrame, toFrame + 1, toFrame - 1, FB, FB + 1, 2 * FB - 1, 2 * FB + 1,
               toLayer + 1, R(0..(2 * FB)), R(0..(3 * FB)), Left})
DoAppend ==
    /\ pc = "idle" /\ Left > 0 /\ Len(h) < GMaxOps + 4
    /\ LET s == {x \in Sizes0 : x <= Left /\ (x > 0 \/ h[Len(h)] # [op |-> "append", n |-> 0])}
       IN \E n \in {IF Len(h) > GMaxOps THEN Left ELSE R(s \cup {Left})} :
          /\ AppendBegin(n)
          /\ h' = Append(h, [op |-> "append", n |-> n])
    /\ UNCHANGED target
DoDestroy ==
    /\ pc = "idle" /\ Left = 0
    /\ DestroyBegin /\ h' = Append(h, [op |-> "destroy"]) /\ UNCHANGED target
DoInternal == pc \notin {"pick", "dims", "total", "new", "idle", "closed", "printed"} /\ InternalDet /\ UNCHANGED <<h, target>>
Finish ==
    /\ pc = "closed"
    /\ PrintT("SCENARIO" \o ToJson([cfg |-> cfg, ops |-> h, levels |-> NLevels,
         \* what the behaviour went through, for counting distinct ones
         tags |-> [nf |-> total \div FB, part |-> part,
                   layer |-> (total \div FB) % FramesPerLayer(cfg.dims),
                   shard |-> lv[1].t, filled |-> Cardinality({l \in 1..NLevels : lv[l].nf > 0})]]))
    /\ pc' = "printed"
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, lv, fl, ferr, err, store, h, target>>
GenNext == DoPick \/ DoDim \/ DoStart \/ DoCreate \/ DoAppend \/ DoDestroy \/ DoInternal \/ Finish
=============================================================================
