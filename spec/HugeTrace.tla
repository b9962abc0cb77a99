----------------------------- MODULE HugeTrace -----------------------------
(* Stores whose counts go beyond 32 bits: frames of more pixels than that (C01),
   and shards of more frames than that (C01, C03, C04, C05, C06). TLC's integers
   end there too, so a place in a chunk comes as a vector of digits, and the
   number of a pixel in the byte stream is only ever taken modulo the period of
   the values.

   Cases.json: records id, cfg (v, dims, val), nf, keys (present), shape,
   points (cc: chunk, ic: place in it, v: value found there; whole: the chunk
   has the size it should have), shards (key: its name, slots: the slots its
   index says are there).                                                     *)
EXTENDS Geometry, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, done
Case == Cases[t]
Dims == Case.cfg.dims
N == Len(Dims)
Val == Case.cfg.val
M == Val.m

\* pixel of frame f at row r and column c; every product stays below M * M
Number(f, r, c) ==
    LET frame == ((Height(Dims) % M) * (Width(Dims) % M)) % M
    IN  ((f % M) * frame + (r % M) * (Width(Dims) % M) + (c % M)) % M
PixelAt(f, r, c) == Val.add + Val.mul * ((Number(f, r, c) * Val.step + Val.off) % M)

Place(p) ==
    LET g == PixelOf(Dims, p.cc, p.ic)
    IN  IF \E i \in 2..N : g[i] >= Dims[i].s THEN 0
        ELSE LET f == FrameAt(Dims, g)
             IN  IF f >= Case.nf THEN 0 ELSE PixelAt(f, g[N - 1], g[N])

Layers == LayersAfter(Dims, Case.nf)
Coords == {<<x>> \o p : x \in 0..(Layers - 1), p \in GridSet(ChunkGrid(Dims))}
Keys == GroupKeys(Case.cfg.v) \cup {ArrayMetaKey(Case.cfg.v, 0)} \cup
        {IF Case.cfg.v = 2 THEN ChunkKey(0, cc) ELSE ShardKey(0, ShardOf(Dims, cc)) : cc \in Coords}

\* the index of a shard says exactly which of its chunks there are
ShardOk(s) ==
    LET seen == {s.slots[k] : k \in 1..Len(s.slots)}
        here == {cc \in Coords : ShardKey(0, ShardOf(Dims, cc)) = s.key}
    IN  here # {} /\ seen = {SlotOf(Dims, cc) : cc \in here}

Points == {Case.points[k] : k \in 1..Len(Case.points)}
Failed ==
    (IF {Case.keys[k] : k \in 1..Len(Case.keys)} = Keys THEN {} ELSE {"keys"}) \cup
    (IF Case.shape = ShapeAfter(Dims, Case.nf) THEN {} ELSE {"shape"}) \cup
    (IF /\ \A cc \in Coords : \E p \in Points : p.cc = cc
        /\ \A p \in Points : p.whole /\ p.v = Place(p)
     THEN {} ELSE {"points"}) \cup
    (IF \A k \in 1..Len(Case.shards) : ShardOk(Case.shards[k]) THEN {} ELSE {"slots"})

Init == t \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT(ToJson([case |-> Case.id, failed |-> Failed]))
=============================================================================
