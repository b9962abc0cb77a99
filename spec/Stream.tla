------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* One Zarr stream from creation to destruction: the byte stream cut into  *)
(* frames, frames collected into layers of chunks, layers flushed into the *)
(* store part by part (in any order), shards and arrays completed, frames  *)
(* handed down the resolution pyramid, and the stream ended or failing at  *)
(* any point.                                                              *)
(*                                                                         *)
(* The actions are the steps between which a process can die or another    *)
(* thread can look at the store; the store is what is visible to others.   *)
(*                                                                         *)
(* cfg is a record                                                         *)
(*   v    : 2 or 3               ms  : levels of detail wanted?            *)
(*   fs   : TRUE for a file system, FALSE for S3                           *)
(*   dims : see Geometry         bpp : bytes per pixel                     *)
(*   val  : [add, mul, step, off, m] - pixel k of the byte stream is       *)
(*          add + mul * ((k * step + off) % m)                             *)
(***************************************************************************)
EXTENDS Geometry

CONSTANT PIXELS \* FALSE: frames carry no pixels (for generating scenarios)

VARIABLES cfg,    \* settings
          pc,     \* what the stream is doing
          todo,   \* bytes of the current append not consumed yet
          part,   \* bytes of an incomplete frame
          total,  \* bytes consumed since creation
          cl,     \* level being worked on
          frame,  \* frame being handed to level cl
          lv,     \* per level, see InitLevel
          fl,     \* parts (chunks or shards) of the current flush not written yet
          ferr,   \* a part of the current flush failed
          err,    \* sticky error
          store   \* key -> object, see below

vars == <<cfg, pc, todo, part, total, cl, frame, lv, fl, ferr, err, store>>

(* Objects: [k |-> "chunk", px, vis], [k |-> "shard", slots, tab, vis],
   [k |-> "array", shape, vis], [k |-> "doc", vis]; slots maps each slot to
   the pixels of its chunk or to Missing; tab: the index has been written;
   vis: the object can be seen from outside (always, on a file system). *)
Missing == <<>>

LevelDims == Levels(cfg.dims, cfg.ms)
NLevels == Len(LevelDims)
D(l) == LevelDims[l]
FB == FramePx(cfg.dims) * cfg.bpp

PixelValue(k) == cfg.val.add + cfg.val.mul * (((k % cfg.val.m) * cfg.val.step + cfg.val.off) % cfg.val.m)
Frame0(f) ==
    IF PIXELS THEN LET n == FramePx(cfg.dims) IN [i \in 1..n |-> PixelValue(f * n + i - 1)]
    ELSE <<0>>
\* frame f of level l as it follows from the byte stream alone
RECURSIVE HistFrame(_, _)
HistFrame(l, f) ==
    IF l = 1 THEN Frame0(f)
    ELSE LET d == D(l - 1)
             R(g) == Reduce2x2(HistFrame(l - 1, g), Height(d), Width(d))
         IN  MeanFrames(R(2 * f), R(2 * f + 1))

\* one pixel of it
RECURSIVE HistPoint(_, _, _, _)
HistPoint(l, f, r, c) ==
    IF l = 1 THEN PixelValue(f * FramePx(cfg.dims) + r * Width(cfg.dims) + c)
    ELSE LET d == D(l - 1)
             r1 == Min2(2 * r + 1, Height(d) - 1)
             c1 == Min2(2 * c + 1, Width(d) - 1)
             P(g, y, x) == HistPoint(l - 1, g, y, x)
             R(g) == TruncDiv(P(g, 2 * r, 2 * c) + P(g, 2 * r, c1) + P(g, r1, 2 * c) + P(g, r1, c1), 4)
         IN  TruncDiv(R(2 * f) + R(2 * f + 1), 2)

InitLevel == [nf    |-> 0,     \* frames received
              layer |-> <<>>,  \* frames of the layer being collected
              lis   |-> 0,     \* layers already in the open shards
              open  |-> FALSE, \* shards are open
              t     |-> 0,     \* index of the layer of parts being written
              pend  |-> <<>>,  \* <<reduced frame>> waiting for its partner
              bad   |-> FALSE] \* a flush failed half-way

Put(s, key, obj) == [x \in (DOMAIN s) \cup {key} |-> IF x = key THEN obj ELSE s[x]]

InitWith(c) ==
    /\ cfg = c /\ pc = "new" /\ todo = 0 /\ part = 0 /\ total = 0 /\ cl = 1
    /\ frame = <<>> /\ lv = [l \in 1..NLevels |-> InitLevel]
    /\ fl = {} /\ ferr = FALSE /\ err = FALSE /\ store = <<>>

Create ==
    /\ pc = "new"
    /\ store' = [k \in GroupKeys(cfg.v) |-> [k |-> "doc", vis |-> cfg.fs]]
    /\ pc' = "idle"
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, lv, fl, ferr, err>>

\* the environment calls append with n bytes
AppendBegin(n) ==
    /\ pc = "idle" /\ ~err
    /\ todo' = n /\ pc' = "take"
    /\ UNCHANGED <<cfg, part, total, cl, frame, lv, fl, ferr, err, store>>

\* copy bytes up to the end of the current frame
Take ==
    /\ pc = "take"
    /\ IF todo = 0 THEN pc' = "idle" /\ UNCHANGED <<todo, part, total, cl, frame>>
       ELSE LET m == Min2(todo, FB - part)
            IN  /\ todo' = todo - m
                /\ total' = total + m
                /\ part' = (part + m) % FB
                /\ cl' = 1
                /\ IF part + m = FB THEN /\ frame' = Frame0(total' \div FB - 1)
                                         /\ pc' = "frame"
                   ELSE UNCHANGED <<pc, frame>>
    /\ UNCHANGED <<cfg, lv, fl, ferr, err, store>>

Parts(l) == GridSet(IF cfg.v = 2 THEN ChunkGrid(D(l)) ELSE ShardGrid(D(l)))

\* level cl receives the frame; the frame that completes a layer starts a flush
WriteFrame ==
    /\ pc = "frame"
    /\ LET L == lv[cl]
           full == (L.nf + 1) % FramesPerLayer(D(cl)) = 0
       IN  /\ lv' = [lv EXCEPT ![cl].nf = L.nf + 1, ![cl].layer = Append(L.layer, frame)]
           /\ pc' = IF full THEN "flush" ELSE "scale"
           /\ fl' = IF full THEN Parts(cl) ELSE {}
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, ferr, err, store>>

\* number (from 0) of the layer being flushed; its first frame
LayerNo(l) == (lv[l].nf - 1) \div FramesPerLayer(D(l))
LayerFirst(l) == lv[l].nf - Len(lv[l].layer)
Finalizing == pc \in {"fin", "finflush", "finclose", "finmeta"}
InFlush == pc \in {"flush", "finflush"}
ShardsEnd(l) == \/ Finalizing
                \/ cfg.v = 2
                \/ /\ lv[l].nf % FramesPerLayer(D(l)) = 0
                   /\ lv[l].lis + 1 = LayersPerShard(D(l))

PartKey(l, p) == IF cfg.v = 2 THEN ChunkKey(l - 1, <<lv[l].t>> \o p)
                 ELSE ShardKey(l - 1, <<lv[l].t>> \o p)

ChunkPixels(l, cc) ==
    IF PIXELS THEN LET L == lv[l] first == LayerFirst(l)
                       pix(f) == L.layer[f - first + 1]
                   IN  ChunkContent(D(l), cc, L.nf, pix)
    ELSE <<0>>

\* the chunks of the current layer that lie in part p, as slot -> pixels
SlotsWritten(l, p) ==
    LET d == D(l)
        ln == LayerNo(l)
        sc == <<ln \div LayersPerShard(d)>> \o p
        here == {s \in 0..(SlotCount(d) - 1) :
                   LET cc == ChunkAtSlot(d, sc, s) IN cc[1] = ln /\ InGrid(d, cc)}
    IN  IF lv[l].layer = <<>> THEN <<>>
        ELSE [s \in here |-> ChunkPixels(l, ChunkAtSlot(d, sc, s))]

NewShard(l) == [k |-> "shard", slots |-> [s \in 0..(SlotCount(D(l)) - 1) |-> Missing],
                tab |-> FALSE, vis |-> cfg.fs]

PartObject(l, p) ==
    IF cfg.v = 2
    THEN [k |-> "chunk", px |-> ChunkPixels(l, <<LayerNo(l)>> \o p), vis |-> cfg.fs]
    ELSE LET key == PartKey(l, p)
             old == IF key \in DOMAIN store THEN store[key] ELSE NewShard(l)
             new == SlotsWritten(l, p)
         IN  [old EXCEPT
                !.slots = [s \in DOMAIN old.slots |->
                             IF s \in DOMAIN new THEN new[s] ELSE old.slots[s]],
                !.tab = ShardsEnd(l)]

\* a job writes one part of the layer
FlushPart(p) ==
    /\ InFlush /\ p \in fl
    /\ store' = Put(store, PartKey(cl, p), PartObject(cl, p))
    /\ fl' = fl \ {p}
    /\ lv' = [lv EXCEPT ![cl].open = TRUE]
    /\ UNCHANGED <<cfg, pc, todo, part, total, cl, frame, ferr, err>>

\* ... or fails to
FailPart(p) ==
    /\ InFlush /\ p \in fl
    /\ fl' = fl \ {p}
    /\ ferr' = TRUE
    /\ UNCHANGED <<cfg, pc, todo, part, total, cl, frame, lv, err, store>>

\* all parts of the layer are done
FlushDone ==
    /\ InFlush /\ fl = {} /\ ~ferr
    /\ IF ShardsEnd(cl)
       THEN /\ pc' = IF Finalizing THEN "finclose" ELSE "close"
            /\ UNCHANGED lv
       ELSE /\ lv' = [lv EXCEPT ![cl].layer = <<>>, ![cl].lis = @ + 1]
            /\ pc' = "scale"
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, fl, ferr, err, store>>

\* a failure ends the append (with an error, forever) or skips the level
Fail ==
    /\ lv' = [lv EXCEPT ![cl].bad = TRUE]
    /\ err' = TRUE
    /\ ferr' = FALSE
    /\ fl' = {}
    /\ pc' = IF Finalizing THEN "finmeta" ELSE "idle"
    /\ todo' = 0
    /\ UNCHANGED <<cfg, part, total, cl, frame, store>>
FlushFailed == InFlush /\ fl = {} /\ ferr /\ Fail

PartsOpen(l) == {PartKey(l, p) : p \in Parts(l)}

\* the sinks of the layer of parts are completed
CloseParts ==
    /\ pc \in {"close", "finclose"}
    /\ store' = [k \in DOMAIN store |->
                   IF k \in PartsOpen(cl) THEN [store[k] EXCEPT !.vis = TRUE] ELSE store[k]]
    /\ lv' = [lv EXCEPT ![cl].t = @ + 1, ![cl].lis = 0, ![cl].open = FALSE]
    /\ pc' = IF pc = "close" THEN "meta" ELSE "finmeta0"
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, fl, ferr, err>>

\* array metadata now covers every frame the level received
WriteMeta ==
    /\ pc \in {"meta", "finmeta0"}
    /\ store' = Put(store, ArrayMetaKey(cfg.v, cl - 1),
                    [k |-> "array", shape |-> ShapeAfter(D(cl), lv[cl].nf), vis |-> cfg.fs])
    /\ lv' = [lv EXCEPT ![cl].layer = <<>>]
    /\ pc' = IF pc = "meta" THEN "scale" ELSE "finmeta"
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, fl, ferr, err>>

FailClose == pc \in {"close", "finclose"} /\ Fail
FailMeta == pc = "meta" /\ Fail
FailFinMeta ==
    /\ pc = "finmeta0"
    /\ lv' = [lv EXCEPT ![cl].bad = TRUE] /\ err' = TRUE /\ pc' = "finmeta"
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, fl, ferr, store>>

\* hand the frame to the next level: every second one, averaged with the last
Scale ==
    /\ pc = "scale"
    /\ IF cl = NLevels THEN pc' = "take" /\ UNCHANGED <<cl, frame, lv>>
       ELSE LET d == D(cl)
                red == IF PIXELS THEN Reduce2x2(frame, Height(d), Width(d)) ELSE <<0>>
                n == cl + 1
            IN  IF lv[n].pend = <<>>
                THEN /\ lv' = [lv EXCEPT ![n].pend = <<red>>]
                     /\ pc' = "take" /\ UNCHANGED <<cl, frame>>
                ELSE /\ frame' = MeanFrames(red, lv[n].pend[1])
                     /\ lv' = [lv EXCEPT ![n].pend = <<>>]
                     /\ cl' = n
                     /\ pc' = "frame"
    /\ UNCHANGED <<cfg, todo, part, total, fl, ferr, err, store>>

DestroyBegin ==
    /\ pc = "idle"
    /\ pc' = "fin" /\ cl' = 1
    /\ store' = [k \in DOMAIN store |->
                   IF store[k].k = "doc" THEN [store[k] EXCEPT !.vis = TRUE] ELSE store[k]]
    /\ UNCHANGED <<cfg, todo, part, total, frame, lv, fl, ferr, err>>

FinLevel ==
    /\ pc = "fin"
    /\ IF cl > NLevels THEN pc' = "closed" /\ UNCHANGED fl
       ELSE IF ~lv[cl].bad /\ (lv[cl].layer # <<>> \/ lv[cl].open)
       THEN pc' = "finflush" /\ fl' = Parts(cl)
       ELSE pc' = "finmeta" /\ UNCHANGED fl
    /\ UNCHANGED <<cfg, todo, part, total, cl, frame, lv, ferr, err, store>>

FinMeta ==
    /\ pc = "finmeta"
    /\ LET key == ArrayMetaKey(cfg.v, cl - 1)
       IN  store' = IF key \in DOMAIN store THEN [store EXCEPT ![key].vis = TRUE] ELSE store
    /\ cl' = cl + 1 /\ pc' = "fin"
    /\ UNCHANGED <<cfg, todo, part, total, frame, lv, fl, ferr, err>>

AllButFlush == \/ Create \/ Take \/ WriteFrame \/ FlushDone \/ FlushFailed \/ CloseParts
               \/ WriteMeta \/ Scale \/ FinLevel \/ FinMeta
Internal == AllButFlush \/ \E p \in fl : FlushPart(p)
\* the same with the parts written in one fixed order
InternalDet == AllButFlush \/ (fl # {} /\ LET p == CHOOSE q \in fl : TRUE IN FlushPart(p))
Faults == (\E p \in fl : FailPart(p)) \/ FailClose \/ FailMeta \/ FailFinMeta

-----------------------------------------------------------------------------
(* What an observer can do with the store *)

Visible(s) == {k \in DOMAIN s : s[k].vis}

\* The pixels of chunk cc of level l as a reader finds them: <<>> if there is
\* no such chunk
ReadChunk(s, l, cc) ==
    LET d == D(l)
        key == IF cfg.v = 2 THEN ChunkKey(l - 1, cc) ELSE ShardKey(l - 1, ShardOf(d, cc))
    IN  IF key \notin Visible(s) THEN Missing
        ELSE IF cfg.v = 2 THEN s[key].px
        ELSE IF s[key].tab THEN s[key].slots[SlotOf(d, cc)] ELSE Missing

\* what the byte stream demands there, when nf frames count
HistChunk(l, cc, nf) ==
    LET pix(f) == HistFrame(l, f) IN ChunkContent(D(l), cc, nf, pix)

\* the same for a single place k (from 0) of a chunk of any size
HistPlace(l, cc, nf, k) ==
    LET d == D(l)
        n == Len(d)
        g == PixelOf(d, cc, Unravel(k, Chunks(d)))
    IN  IF \E i \in 2..n : g[i] >= d[i].s THEN 0
        ELSE LET f == FrameAt(d, g)
             IN  IF f >= nf THEN 0 ELSE HistPoint(l, f, g[n - 1], g[n])

ChunkCoords(l, layers) == {<<t>> \o p : t \in 0..(layers - 1), p \in GridSet(ChunkGrid(D(l)))}

FramesOf(l, bytes) == (bytes \div FB) \div (2 ^ (l - 1))

-----------------------------------------------------------------------------
(* Properties *)

TypeOK ==
    /\ pc \in {"new", "idle", "take", "frame", "flush", "close", "meta", "scale", "fin",
               "finflush", "finclose", "finmeta0", "finmeta", "closed"}
    /\ part \in 0..(FB - 1) /\ todo >= 0 /\ total >= 0

\* every byte is accounted for (C02)
Conservation ==
    /\ part = total % FB
    /\ pc \in {"idle", "take", "fin", "closed"} /\ ~err =>
         \A l \in 1..NLevels : lv[l].nf = FramesOf(l, total)
LayerBookkeeping ==
    ~err => \A l \in 1..NLevels :
        /\ Len(lv[l].layer) <= FramesPerLayer(D(l))
        /\ lv[l].layer # <<>> /\ pc \in {"idle", "flush"} =>
             lv[l].t = IF cfg.v = 2 THEN LayerNo(l) ELSE LayerNo(l) \div LayersPerShard(D(l))

\* C01, C06, C08: a finished store gives every pixel back
NoLoss ==
    pc = "closed" /\ ~err =>
        \A l \in 1..NLevels :
            LET nf == FramesOf(l, total)
            IN  nf > 0 =>
                \A cc \in ChunkCoords(l, LayersAfter(D(l), nf)) :
                    ReadChunk(store, l, cc) = HistChunk(l, cc, nf)

\* the two ways to say so are the same
PlacesAgree ==
    pc = "closed" /\ ~err =>
        \A l \in 1..NLevels :
            LET nf == FramesOf(l, total)
            IN  \A cc \in ChunkCoords(l, LayersAfter(D(l), nf)) :
                    LET c == HistChunk(l, cc, nf)
                    IN  \A k \in DOMAIN c : c[k] = HistPlace(l, cc, nf, k - 1)

\* C03: nothing missing, nothing else
ExpectedKeys ==
    GroupKeys(cfg.v) \cup
    UNION {LET nf == FramesOf(l, total) IN
           IF nf = 0 THEN {}
           ELSE {ArrayMetaKey(cfg.v, l - 1)} \cup
                (IF cfg.v = 2
                 THEN {ChunkKey(l - 1, cc) : cc \in ChunkCoords(l, LayersAfter(D(l), nf))}
                 ELSE {ShardKey(l - 1, <<t>> \o p) :
                        t \in 0..(ShardLayersAfter(D(l), nf) - 1), p \in GridSet(ShardGrid(D(l)))})
           : l \in 1..NLevels}
KeysExact == pc = "closed" /\ ~err => Visible(store) = ExpectedKeys /\ DOMAIN store = ExpectedKeys

\* C04: array metadata is true
Truth ==
    pc = "closed" /\ ~err =>
        \A l \in 1..NLevels :
            FramesOf(l, total) > 0 =>
                store[ArrayMetaKey(cfg.v, l - 1)].shape = ShapeAfter(D(l), FramesOf(l, total))

\* C05: the slots present are those of the grid that lie in the extent
ShardSlots ==
    pc = "closed" /\ ~err =>
        \A k \in DOMAIN store : store[k].k = "shard" =>
            /\ store[k].tab
            /\ \A l \in 1..NLevels : \A t \in 0..(ShardLayersAfter(D(l), FramesOf(l, total)) - 1) :
               \A p \in GridSet(ShardGrid(D(l))) : k = ShardKey(l - 1, <<t>> \o p) =>
                 \A s \in DOMAIN store[k].slots :
                    LET cc == ChunkAtSlot(D(l), <<t>> \o p, s)
                    IN  (store[k].slots[s] # Missing) <=>
                        (InGrid(D(l), cc) /\ cc[1] < LayersAfter(D(l), FramesOf(l, total)))

\* C16: at every instant, also after failures, metadata promises nothing that
\* is not there
CrashSafe ==
    \A l \in 1..NLevels :
        LET key == ArrayMetaKey(cfg.v, l - 1)
        IN  key \in Visible(store) =>
            \A cc \in ChunkCoords(l, CeilDiv(store[key].shape[1], D(l)[1].c)) :
                LET c == ReadChunk(store, l, cc) IN
                /\ c # Missing
                /\ \E nf \in 0..lv[l].nf :
                      /\ ExtentT(D(l), nf) = store[key].shape[1]
                      /\ c = HistChunk(l, cc, nf)

\* C16: between calls, complete layers are on the file system
FlushedVisible ==
    pc = "idle" /\ ~err /\ cfg.fs =>
        \A l \in 1..NLevels :
            LET d == D(l)
                layers == lv[l].nf \div FramesPerLayer(d)
                key == ArrayMetaKey(cfg.v, l - 1)
                covered == IF cfg.v = 2 THEN layers
                           ELSE LayersPerShard(d) * (layers \div LayersPerShard(d))
            IN  /\ \A cc \in ChunkCoords(l, layers) :
                     LET k == IF cfg.v = 2 THEN ChunkKey(l - 1, cc)
                              ELSE ShardKey(l - 1, ShardOf(d, cc))
                     IN  /\ k \in Visible(store)
                         /\ (IF cfg.v = 2 THEN store[k].px ELSE store[k].slots[SlotOf(d, cc)])
                              = HistChunk(l, cc, lv[l].nf)
                /\ covered > 0 => /\ key \in Visible(store)
                                  /\ store[key].shape[1] = covered * d[1].c

\* an object that is visible on S3 never changes; a chunk never changes at all
AppendOnly ==
    [][\A k \in DOMAIN store :
         /\ k \in DOMAIN store'
         /\ store[k].vis => store'[k].vis
         /\ store[k].k = "chunk" => store'[k].px = store[k].px
         /\ store[k].k = "shard" =>
              \A s \in DOMAIN store[k].slots :
                 store[k].slots[s] # Missing => store'[k].slots[s] = store[k].slots[s]
         /\ store[k].k = "shard" /\ store[k].tab => store'[k].slots = store[k].slots
         /\ store[k].k = "array" => store'[k].shape[1] >= store[k].shape[1]]_store

\* C09: an error is for ever
Sticky == [][err => err']_err
=============================================================================
