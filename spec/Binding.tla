------------------------------ MODULE Binding ------------------------------
(* The Python binding between a program and the C interface.

   A program holds views of arrays: an offset and, per axis, an extent and a
   stride over the elements of one block of memory. Views are made from views
   the way programs make them: slices forwards and backwards, transposed axes,
   axes added, repeated and selected. Appending a view is appending its
   elements in C order. Settings are records some members of which are given;
   a stream is created with those and with defaults for the others.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
RECURSIVE Offsets(_, _)
\* of all indices in C order; one, of the empty index, where there are no axes
Offsets(shape, strides) ==
    IF shape = <<>> THEN <<0>>
    ELSE LET in == TLCEval(Offsets(Tail(shape), Tail(strides))) IN
         [k \in 1..(Head(shape) * Len(in)) |->
             ((k - 1) \div Len(in)) * Head(strides) + in[((k - 1) % Len(in)) + 1]]

\* ---- views
Whole(shape) == [off |-> 0, shape |-> shape,
                 strides |-> [i \in 1..Len(shape) |-> Product(SubSeq(shape, i + 1, Len(shape)))]]
Axes(v) == 1..Len(v.shape)
Size(v) == Product(v.shape)
Elements(v) == LET at == TLCEval(Offsets(v.shape, v.strides)) IN [k \in 1..Len(at) |-> v.off + at[k]]
\* C-contiguous: strides are those of an array of its own, but for axes of one element
Contiguous(v) == Size(v) = 0 \/ \A i \in Axes(v) :
    v.shape[i] = 1 \/ v.strides[i] = Product(SubSeq(v.shape, i + 1, Len(v.shape)))
Raw(v) == [k \in 1..Size(v) |-> v.off + k - 1]

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
\* elements start, start + step, ... of axis a: n of them
Slice(v, a, start, step, n) ==
    [off |-> v.off + start * v.strides[a], shape |-> [v.shape EXCEPT ![a] = n],
     strides |-> [v.strides EXCEPT ![a] = @ * step]]
Swap(v, a, b) ==
    [v EXCEPT !.shape = [@ EXCEPT ![a] = v.shape[b], ![b] = v.shape[a]],
              !.strides = [@ EXCEPT ![a] = v.strides[b], ![b] = v.strides[a]]]
Select(v, a, i) ==
    [off |-> v.off + i * v.strides[a], shape |-> Without(v.shape, a), strides |-> Without(v.strides, a)]
NewAxis(v, a) == [v EXCEPT !.shape = With(@, a, 1), !.strides = With(@, a, 0)]
Repeat(v, a, n) == [v EXCEPT !.shape = With(@, a, n), !.strides = With(@, a, 0)]
Diagonal(v, a) ==  \* of axes a and a + 1
    [off |-> v.off,
     shape |-> Without([v.shape EXCEPT ![a] = IF v.shape[a] < v.shape[a + 1] THEN v.shape[a] ELSE v.shape[a + 1]], a + 1),
     strides |-> Without([v.strides EXCEPT ![a] = v.strides[a] + v.strides[a + 1]], a + 1)]

\* ---- bytes: the block of memory holds arbitrary ones
Byte(k) == ((k % 65521) * 31 + (k \div 7) * 17 + 5) % 256
Bytes(elements, size) ==
    [k \in 1..(Len(elements) * size) |-> Byte(elements[((k - 1) \div size) + 1] * size + ((k - 1) % size))]

\* ---- names of the C interface (its enumerators, in capitals)
TypeSize == [UINT8 |-> 1, UINT16 |-> 2, UINT32 |-> 4, UINT64 |-> 8, INT8 |-> 1, INT16 |-> 2,
             INT32 |-> 4, INT64 |-> 8, FLOAT32 |-> 4, FLOAT64 |-> 8]
DataTypes == DOMAIN TypeSize
Versions == {"V2", "V3"}
Compressors == {"NONE", "BLOSC1"}
Codecs == {"NONE", "BLOSC_LZ4", "BLOSC_ZSTD"}
Kinds == {"SPACE", "CHANNEL", "TIME", "OTHER"}
Levels == {"DEBUG", "INFO", "WARNING", "ERROR", "NONE"}

\* ---- settings: records of the members given
Get(r, m, d) == IF m \in DOMAIN r THEN r[m] ELSE d
Dimension(d) == <<Get(d, "name", ""), Get(d, "kind", "SPACE"), Get(d, "array_size_px", "0"),
                  Get(d, "chunk_size_px", "0"), Get(d, "shard_size_chunks", "0")>>
S3(s) == <<Get(s, "endpoint", ""), Get(s, "bucket_name", ""), Get(s, "access_key_id", ""),
           Get(s, "secret_access_key", "")>>
Compression(c) == <<Get(c, "compressor", "NONE"), Get(c, "codec", "NONE"),
                    Get(c, "level", "0"), Get(c, "shuffle", "0")>>
\* what the C interface is asked for (members that are absent there: <null>, <<>>)
Request(s) ==
    [store_path |-> Get(s, "store_path", ""), custom |-> Get(s, "custom_metadata", "<null>"),
     s3 |-> IF "s3" \in DOMAIN s THEN S3(s.s3) ELSE <<>>,
     comp |-> IF "compression" \in DOMAIN s THEN Compression(s.compression) ELSE <<>>,
     dims |-> [i \in 1..Len(Get(s, "dimensions", <<>>)) |-> Dimension(s.dimensions[i])],
     multiscale |-> Get(s, "multiscale", FALSE), data_type |-> Get(s, "data_type", "UINT8"),
     version |-> Get(s, "version", "V2")]
=============================================================================
