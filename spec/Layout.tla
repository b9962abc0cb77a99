------------------------------- MODULE Layout -------------------------------
(* C17. Small layouts: the mappings of Geometry are bijections (design), and
   the library's tables are Geometry's. Layouts of any size: the same digit
   by digit, in BigNat; divisions come as quotient and remainder, and are
   checked, not trusted.                                                     *)
EXTENDS Geometry, BigNat, Json, IOUtils

-----------------------------------------------------------------------------
(* Design *)
CONSTANTS MaxSize, MaxChunk, MaxShard, NDims
VARIABLE dims
Dim == [n : {"d"}, ty : {"space"}, s : 1..MaxSize, c : 1..MaxChunk, h : 1..MaxShard]
LInit == dims \in [1..NDims -> Dim]
LNext == UNCHANGED dims

N == Len(dims)
RECURSIVE Vecs(_)
Vecs(ext) == IF ext = <<>> THEN {<<>>}
             ELSE {<<x>> \o v : x \in 0..(Head(ext) - 1), v \in Vecs(Tail(ext))}
\* the pixels of the first two layers of chunks, as position vectors
Px == Vecs([i \in 1..N |-> IF i = 1 THEN 2 * dims[1].c ELSE dims[i].s])
Layer(g) == g[1] \div dims[1].c
GridIx(g) == Ravel([i \in 1..(N - 1) |-> ChunkOf(dims, g)[i + 1]], ChunkGrid(dims))
Off(g) == Ravel(InChunk(dims, g), Chunks(dims))
Place(g) == <<Layer(g), GridIx(g), Off(g)>>
PixelBijection ==
    /\ \A g \in Px : /\ Off(g) < ChunkPx(dims)
                     /\ GridIx(g) < Prod(ChunkGrid(dims))
                     /\ PixelOf(dims, ChunkOf(dims, g), InChunk(dims, g)) = g
    /\ Cardinality({Place(g) : g \in Px}) = Cardinality(Px)
    /\ \A f \in 0..(FramesPerLayer(dims) - 1) : FrameAt(dims, FramePos(dims, f)) = f
ChunkVecs == Vecs([i \in 1..N |-> IF i = 1 THEN 2 * dims[1].h ELSE CeilDiv(dims[i].s, dims[i].c)])
ShardIx(cc) == Ravel([i \in 1..(N - 1) |-> ShardOf(dims, cc)[i + 1]], ShardGrid(dims))
ShardBijection ==
    /\ \A cc \in ChunkVecs : /\ SlotOf(dims, cc) < SlotCount(dims)
                             /\ ShardIx(cc) < Prod(ShardGrid(dims))
                             /\ ChunkAtSlot(dims, ShardOf(dims, cc), SlotOf(dims, cc)) = cc
    /\ Cardinality({<<ShardOf(dims, cc)[1], ShardIx(cc), SlotOf(dims, cc)>> : cc \in ChunkVecs})
         = Cardinality(ChunkVecs)

-----------------------------------------------------------------------------
(* The library's answers *)
VARIABLES t, done
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[t]
SInit == t \in 1..Len(Cases) /\ done = FALSE /\ dims = <<>>

\* small layouts: C.dims, C.counts, C.frames (records f, lat, tgo, cio), C.chunks (k, shard, slot)
SD == C.dims
SN == Len(SD)
CountsOk ==
    LET r == C.counts IN
    /\ r.nd = SN
    /\ \A i \in 1..SN : r.along[i] = CeilDiv(SD[i].s, SD[i].c)
    /\ r.chunks = Prod(ChunkGrid(SD))
    /\ r.bpp = C.bpp
    /\ r.bpc = C.bpp * ChunkPx(SD)
    /\ r.bpf = C.bpp * FramePx(SD)
    /\ SD[1].h > 0 =>
         /\ \A i \in 1..SN : r.salong[i] = CeilDiv(r.along[i], SD[i].h)
         /\ r.shards = Prod(ShardGrid(SD))
         /\ r.cps = SlotCount(SD)
FrameOk(e) ==
    LET p == FramePos(SD, e.f)
        z == p \o <<0, 0>>
    IN  /\ \A i \in 1..(SN - 2) : e.lat[i] = p[i] \div SD[i].c
        /\ e.tgo = Ravel([i \in 1..(SN - 1) |-> ChunkOf(SD, z)[i + 1]], ChunkGrid(SD))
        /\ e.cio = C.bpp * Ravel(InChunk(SD, z), Chunks(SD))
ChunkOk(e) ==
    LET cc == Unravel(e.k, <<1>> \o ChunkGrid(SD))
    IN  /\ e.slot = SlotOf(SD, cc)
        /\ cc[1] < SD[1].h =>
             e.shard = Ravel([i \in 1..(SN - 1) |-> ShardOf(SD, cc)[i + 1]], ShardGrid(SD))
SmallFailed == (IF CountsOk THEN {} ELSE {"counts"})
        \cup (IF \A k \in DOMAIN C.frames : FrameOk(C.frames[k]) THEN {} ELSE {"frames"})
        \cup (IF \A k \in DOMAIN C.chunks : ChunkOk(C.chunks[k]) THEN {} ELSE {"chunks"})

\* any size: numbers are BigNats. C.s C.c C.h sizes; C.grid C.sgrid counts of chunks and
\* shards per dimension; frames: g = q * c + r digits of the frame; chunks: k = u * h + v
BN == Len(C.s)
One == Big(1)
Less1(a, b) == BLess(a, b)
Ceil(q, a, b) == BLeq(a, BMul(q, b)) /\ BLess(BMul(q, b), BAdd(a, b))
BP == Big(C.bpp)
Zeros == <<<<>>, <<>>>>
BigCountsOk ==
    LET r == C.counts IN
    /\ \A i \in 1..BN : (C.s[i] # <<>> => Ceil(r.along[i], C.s[i], C.c[i]))
    /\ \A i \in 2..BN : Ceil(C.grid[i], C.s[i], C.c[i]) /\ r.along[i] = C.grid[i]
    /\ r.chunks = BProd(Tail(C.grid))
    /\ r.bpc = BMul(BP, BProd(C.c))
    /\ r.bpf = BMul(BP, BMul(C.s[BN - 1], C.s[BN]))
    /\ C.h[1] # <<>> =>
         /\ \A i \in 2..BN : Ceil(C.sgrid[i], C.grid[i], C.h[i]) /\ r.salong[i] = C.sgrid[i]
         /\ r.shards = BProd(Tail(C.sgrid))
         /\ r.cps = BProd(C.h)
BigFrameOk(e) ==
    /\ \A i \in 1..(BN - 2) : e.g[i] = BAdd(BMul(e.q[i], C.c[i]), e.r[i]) /\ BLess(e.r[i], C.c[i])
    /\ \A i \in 2..(BN - 2) : BLess(e.g[i], C.s[i])
    /\ e.f = BRavel(e.g, SubSeq(C.s, 1, BN - 2))
    /\ e.lat = e.q
    /\ e.tgo = BRavel(Tail(e.q) \o Zeros, Tail(C.grid))
    /\ e.cio = BMul(BP, BRavel(e.r \o Zeros, C.c))
BigChunkOk(e) ==
    /\ \A i \in 1..BN : e.cc[i] = BAdd(BMul(e.u[i], C.h[i]), e.v[i]) /\ BLess(e.v[i], C.h[i])
    /\ \A i \in 2..BN : BLess(e.cc[i], C.grid[i])
    /\ e.k = BRavel(e.cc, C.grid)
    /\ e.slot = BRavel(e.v, C.h)
    /\ e.u[1] = <<>> => e.shard = BRavel(Tail(e.u), Tail(C.sgrid))
BigFailed == (IF BigCountsOk THEN {} ELSE {"counts"})
        \cup (IF \A k \in DOMAIN C.frames : BigFrameOk(C.frames[k]) THEN {} ELSE {"frames"})
        \cup (IF \A k \in DOMAIN C.chunks : BigChunkOk(C.chunks[k]) THEN {} ELSE {"chunks"})

SNext == /\ ~done /\ done' = TRUE
         /\ PrintT(ToJson([case |-> C.id, failed |-> IF C.kind = "small" THEN SmallFailed ELSE BigFailed]))
         /\ UNCHANGED <<t, dims>>
LMInit == LInit /\ t = 0 /\ done = FALSE
LMNext == UNCHANGED <<dims, t, done>>
=============================================================================
