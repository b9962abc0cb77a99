------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* How an array is cut into chunks, layers and shards, from first          *)
(* principles: a position is a vector of digits, and every linear index    *)
(* is the row-major number of such a vector.  Nothing here follows the     *)
(* way the library computes its strides.                                   *)
(*                                                                         *)
(* A dimension is a record [n |-> name, ty |-> type, s |-> array size,     *)
(* c |-> chunk size, h |-> chunks per shard]; dims[1] is the append        *)
(* dimension (its size plays no role), the last two are rows and columns.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Prod(s) == ProdFrom(s, 1)

RECURSIVE RavelFrom(_, _, _, _)
RavelFrom(idx, ext, i, acc) ==
    IF i > Len(ext) THEN acc
    ELSE RavelFrom(idx, ext, i + 1, acc * ext[i] + idx[i])
\* the row-major number of the digit vector idx; ext[1] is not used
Ravel(idx, ext) == RavelFrom(idx, ext, 1, 0)

RECURSIVE UnravelFrom(_, _, _)
UnravelFrom(n, ext, i) ==
    IF i = 1 THEN <<n>>
    ELSE Append(UnravelFrom(n \div ext[i], ext, i - 1), n % ext[i])
\* the digit vector of n; the first digit is unbounded
Unravel(n, ext) == UnravelFrom(n, ext, Len(ext))

RECURSIVE JoinFrom(_, _, _)
JoinFrom(s, sep, i) ==
    IF i > Len(s) THEN ""
    ELSE sep \o ToString(s[i]) \o JoinFrom(s, sep, i + 1)

ND(dims) == Len(dims)
Sizes(dims)  == [i \in 1..Len(dims) |-> dims[i].s]
Chunks(dims) == [i \in 1..Len(dims) |-> dims[i].c]
Shards(dims) == [i \in 1..Len(dims) |-> dims[i].h]

Height(dims) == dims[Len(dims) - 1].s
Width(dims)  == dims[Len(dims)].s
FramePx(dims) == Height(dims) * Width(dims)

\* frames per position of the append dimension
FramesPerT(dims) == Prod([i \in 1..(Len(dims) - 3) |-> dims[i + 1].s])
\* frames per layer of chunks, layers per layer of shards
FramesPerLayer(dims) == dims[1].c * FramesPerT(dims)
LayersPerShard(dims) == dims[1].h

\* the chunk grid of one layer, and the shard grid of one layer of shards
ChunkGrid(dims) == [i \in 1..(Len(dims) - 1) |-> CeilDiv(dims[i + 1].s, dims[i + 1].c)]
ShardGrid(dims) ==
    [i \in 1..(Len(dims) - 1) |->
        CeilDiv(CeilDiv(dims[i + 1].s, dims[i + 1].c), dims[i + 1].h)]

ChunkPx(dims) == Prod(Chunks(dims))
SlotCount(dims) == Prod(Shards(dims))

\* position of frame f in the outer dimensions 1..n-2
FramePos(dims, f) ==
    Unravel(f, [i \in 1..(Len(dims) - 2) |-> dims[i].s])
FrameAt(dims, pos) ==
    Ravel(pos, [i \in 1..(Len(dims) - 2) |-> dims[i].s])

\* chunk coordinate (all dimensions) and position inside the chunk of a pixel
ChunkOf(dims, g)  == [i \in 1..Len(dims) |-> g[i] \div dims[i].c]
InChunk(dims, g)  == [i \in 1..Len(dims) |-> g[i] % dims[i].c]
PixelOf(dims, cc, ic) == [i \in 1..Len(dims) |-> cc[i] * dims[i].c + ic[i]]

\* shard coordinate and slot of a chunk
ShardOf(dims, cc) == [i \in 1..Len(dims) |-> cc[i] \div dims[i].h]
SlotOf(dims, cc)  == Ravel([i \in 1..Len(dims) |-> cc[i] % dims[i].h], Shards(dims))
ChunkAtSlot(dims, sc, slot) ==
    LET d == Unravel(slot, Shards(dims))
    IN  [i \in 1..Len(dims) |-> sc[i] * dims[i].h + d[i]]
InGrid(dims, cc) == \A i \in 2..Len(dims) : cc[i] < CeilDiv(dims[i].s, dims[i].c)

\* The content of the chunk with coordinate cc when pix(f)[r * W + c + 1] are
\* the pixels of frame f and frames nf and beyond do not exist: a pull
\* formulation - for each place in the chunk, which pixel belongs here?
ChunkContent(dims, cc, nf, pix(_)) ==
    LET n == Len(dims)
        ext == Chunks(dims)
        w == Width(dims)
        At(k) == LET g == PixelOf(dims, cc, Unravel(k, ext))
                 IN  IF \E i \in 2..n : g[i] >= dims[i].s THEN 0
                     ELSE LET f == FrameAt(dims, g)
                          IN  IF f >= nf THEN 0
                              ELSE pix(f)[g[n - 1] * w + g[n] + 1]
    IN  [k \in 1..ChunkPx(dims) |-> At(k - 1)]

\* extent of the append dimension after nf frames
ExtentT(dims, nf) == CeilDiv(nf, FramesPerT(dims))
ShapeAfter(dims, nf) == [i \in 1..Len(dims) |-> IF i = 1 THEN ExtentT(dims, nf) ELSE dims[i].s]
LayersAfter(dims, nf) == CeilDiv(ExtentT(dims, nf), dims[1].c)
ShardLayersAfter(dims, nf) == CeilDiv(LayersAfter(dims, nf), dims[1].h)

-----------------------------------------------------------------------------
(* Resolution levels *)

HalfUp(a) == (a + (a % 2)) \div 2

DownDim(d) ==
    IF d.ty = "channel" THEN d
    ELSE LET s == HalfUp(d.s)
             c == IF d.s = 0 THEN d.c ELSE Min2(d.c, s)
             h == IF d.s = 0 THEN 1 ELSE Min2(CeilDiv(s, c), d.h)
         IN  [d EXCEPT !.s = s, !.c = c, !.h = h]

DownDims(dims) == [i \in 1..Len(dims) |-> DownDim(dims[i])]

\* another level below `next`, itself made from `dims`?
MoreLevels(dims, next) ==
    /\ \E i \in 1..Len(next) : next[i].ty # "channel" /\ next[i].s > 1
    /\ \A i \in 1..Len(dims) : dims[i].c <= next[i].c

RECURSIVE LevelsFrom(_)
LevelsFrom(levels) ==
    LET dims == levels[Len(levels)]
        next == DownDims(dims)
    IN  IF MoreLevels(dims, next) THEN LevelsFrom(Append(levels, next))
        ELSE Append(levels, next)
Levels(dims, multiscale) == IF multiscale THEN LevelsFrom(<<dims>>) ELSE <<dims>>

\* quotient truncated toward zero (TLA+'s \div is floor)
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

\* a frame (sequence of h*w pixels) reduced by 2x2 local mean, edge repeated
Reduce2x2(fr, h, w) ==
    LET h2 == HalfUp(h)
        w2 == HalfUp(w)
        At(k) == LET r == 2 * (k \div w2)
                     c == 2 * (k % w2)
                     r1 == IF r + 1 < h THEN r + 1 ELSE r
                     c1 == IF c + 1 < w THEN c + 1 ELSE c
                 IN  TruncDiv(fr[r * w + c + 1] + fr[r * w + c1 + 1]
                              + fr[r1 * w + c + 1] + fr[r1 * w + c1 + 1], 4)
    IN  [k \in 1..(h2 * w2) |-> At(k - 1)]

MeanFrames(a, b) == [k \in 1..Len(a) |-> TruncDiv(a[k] + b[k], 2)]

-----------------------------------------------------------------------------
(* Keys *)

ChunkKey(level, cc) == ToString(level) \o JoinFrom(cc, "/", 1)
ShardKey(level, sc) ==
    "data/root/" \o ToString(level) \o "/c" \o ToString(sc[1]) \o JoinFrom(sc, "/", 2)
ArrayMetaKey(v, level) ==
    IF v = 2 THEN ToString(level) \o "/.zarray"
    ELSE "meta/root/" \o ToString(level) \o ".array.json"
GroupKeys(v) ==
    IF v = 2 THEN {".zattrs", ".zgroup", "0/.zattrs", "acquire.json"}
    ELSE {"zarr.json", "meta/root.group.json", "meta/acquire.json"}

\* grid positions of one layer as vectors (without the append coordinate)
GridSet(ext) == {Unravel(k, ext) : k \in 0..(Prod(ext) - 1)}
=============================================================================
