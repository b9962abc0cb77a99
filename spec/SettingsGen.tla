---------------------------- MODULE SettingsGen ----------------------------
(* All settings that differ from a valid one in at most GDepth places, with
   the machine of creation on each: validate, then replace what is at the
   store path. Rejection has no effects and acceptance is exactly validity.  *)
EXTENDS Settings, Json

CONSTANTS GDepth,   \* number of places changed
          Emit,     \* print the cases
          Early     \* FALSE: (wrongly) clear the store path before the settings are checked

Rep(c, n) == [k \in 1..n |-> c]
RECURSIVE Str(_, _)
Str(c, n) == IF n = 0 THEN "" ELSE c \o Str(c, n - 1)

Dim(n, t, s, c, h) == [name |-> n, utf8 |-> TRUE, type |-> t, size |-> s, chunk |-> c, shard |-> h]
TheS3 == [endpoint |-> "http://localhost:9000", bucket |-> "bucket", key |-> "access", secret |-> "secret"]
Base(v, s3) == [version |-> v, dtype |-> 0, path |-> "s.zarr", parent |-> "dir", pre |-> "dir",
                s3 |-> IF s3 THEN <<TheS3>> ELSE <<>>, comp |-> <<>>, custom |-> Null, json |-> FALSE,
                dims |-> << Dim("t", 2, 0, 2, 1), Dim("c", 1, 2, 1, 1), Dim("y", 0, 4, 2, 1), Dim("x", 0, 4, 2, 2) >>,
                nodims |-> FALSE, count |-> 4, ms |-> FALSE]
Comp(a, b, l, s) == [compressor |-> a, codec |-> b, level |-> l, shuffle |-> s]

\* a place in the settings and another value for it; the place's name keeps two
\* changes of one place from being combined
Ch(p, v) == [place |-> p, v |-> v]
(* (one set for each kind of value) *)
Texts ==
    {Ch("path", v) : v \in {Null, "", " ", "\t \n", "  s.zarr ", "nodir/s.zarr", "afile/s.zarr", "readonly/s.zarr",
                            "adir/s.zarr", "./s.zarr", "alink/s.zarr", "adir/../s.zarr",
                            \* one path may be written in several ways
                            "s.zarr/", "adir/s.zarr//", "adir//s.zarr/ ", "\t ./s.zarr", " ./adir/s.zarr/", " ./nodir/s.zarr/",
                            "nodir//s.zarr/", "afile/s.zarr/"}} \cup
    {Ch("pre", v) : v \in {"none", "file", "store"}} \cup
    {Ch("s3." \o f, v) : f \in {"endpoint", "key", "secret", "bucket"}, v \in {Null, "", "  ", "\n"}} \cup
    {Ch("s3.bucket", v) : v \in {"a", "ab", " ab ", "\tab", "ab\n", "\tabc", "abc", " abc\t", Str("b", 63), Str("b", 64), "  " \o Str("b", 63), Str("b", 65) \o " "}} \cup
    {Ch("name" \o ToString(k), v) : k \in 1..4, v \in {Null, "", " ", "\t", " z ", "z"}}
Numbers ==
    {Ch("version", v) : v \in {-1, 0, 1, 2, 3, 4, 255}} \cup
    {Ch("dtype", v) : v \in {-1, 0, 9, 10, 11, 255}} \cup
    {Ch("count", v) : v \in {0, 1, 2, 3}} \cup
    {Ch("more", v) : v \in {5, 6}} \cup
    {Ch("type" \o ToString(k), v) : k \in 1..4, v \in {-1, 0, 1, 2, 3, 4, 99}} \cup
    {Ch("size" \o ToString(k), v) : k \in 1..4, v \in {0, 1, 5}} \cup
    {Ch("chunk" \o ToString(k), v) : k \in 1..4, v \in {0, 1, 9}} \cup
    {Ch("shard" \o ToString(k), v) : k \in 1..4, v \in {0, 1, 3}} \cup
    \* (-n stands for 2^32 - n)
    {Ch("size1", v) : v \in {-1, -2, 2147483647}} \cup {Ch("chunk1", v) : v \in {-1, 65536}} \cup
    {Ch("chunk" \o ToString(k), -1) : k \in 2..4} \cup {Ch("shard1", 65536)}
Flags == {Ch("ms", TRUE), Ch("nodims", TRUE)} \cup {Ch("badname" \o ToString(k), TRUE) : k \in {1, 2, 4}}
Comps == {Ch("comp", v) : v \in {Comp(0, 0, 0, 0), Comp(1, 1, 5, 1), Comp(1, 2, 9, 2), Comp(1, 0, 1, 0), Comp(0, 0, 10, 0),
                            Comp(0, 3, 1, 1), Comp(0, 1, 1, 3), Comp(1, 1, 0, 0), Comp(2, 1, 1, 1), Comp(-1, 1, 1, 1),
                            Comp(1, 3, 1, 1), Comp(1, -1, 1, 1), Comp(1, 1, 10, 1), Comp(1, 2, 255, 1), Comp(1, 1, 1, 3),
                            Comp(1, 1, 1, 255), Comp(0, 2, 9, 2)}}
Customs == {Ch("custom", v) : v \in {<<"", FALSE>>, <<"{}", TRUE>>, <<" {} ", TRUE>>, <<"[1, 2]", TRUE>>, <<"1", TRUE>>, <<"null", TRUE>>,
                              <<"\"s\"", TRUE>>, <<"{\"a\": {\"b\": [1, {}]}}", TRUE>>, <<" ", FALSE>>, <<"{", FALSE>>, <<"{'a': 1}", FALSE>>,
                              <<"{\"a\": 1,}", FALSE>>, <<"{} {}", FALSE>>, <<"nul", FALSE>>, <<"{\"a\"}", FALSE>>, <<"[1, 2", FALSE>>,
                              <<"{\"a\": 1} x", FALSE>>, <<"\"\\x\"", FALSE>>, <<"01", FALSE>>}}

Parent == [p \in {"nodir/s.zarr", " ./nodir/s.zarr/", "nodir//s.zarr/", "afile/s.zarr", "afile/s.zarr/", "readonly/s.zarr"} |->
             CASE p \in {"nodir/s.zarr", " ./nodir/s.zarr/", "nodir//s.zarr/"} -> "none"
               [] p \in {"afile/s.zarr", "afile/s.zarr/"} -> "file"
               [] p = "readonly/s.zarr" -> "readonly"]
K(p) == CHOOSE k \in 1..4 : ToString(k) = SubSeq(p, Len(p), Len(p))
Stem(p) == SubSeq(p, 1, Len(p) - 1)
Apply(s, c) ==
    LET p == c.place v == c.v IN
    CASE p \in {"version", "dtype", "pre", "ms", "nodims"} -> [s EXCEPT ![p] = v]
      [] p = "comp" -> [s EXCEPT !.comp = <<v>>]
      [] p = "path" -> [s EXCEPT !.path = v, !.parent = IF v \in DOMAIN Parent THEN Parent[v] ELSE "dir"]
      [] p = "custom" -> [s EXCEPT !.custom = v[1], !.json = v[2]]
      [] p = "s3.endpoint" -> [s EXCEPT !.s3[1].endpoint = v]
      [] p = "s3.key" -> [s EXCEPT !.s3[1].key = v]
      [] p = "s3.secret" -> [s EXCEPT !.s3[1].secret = v]
      [] p = "s3.bucket" -> [s EXCEPT !.s3[1].bucket = v]
      \* fewer dimensions: the first ones
      [] p = "count" -> [s EXCEPT !.count = v, !.dims = SubSeq(s.dims, 1, v)]
      \* more of them, after the first
      [] p = "more" -> [s EXCEPT !.count = v, !.dims = SubSeq(s.dims, 1, 1) \o Rep(s.dims[2], v - 4) \o SubSeq(s.dims, 2, 4)]
      [] OTHER ->
           LET k == K(p) st == Stem(p) IN
           IF k > Len(s.dims) THEN s
           ELSE CASE st = "name" -> [s EXCEPT !.dims[k].name = v]
                  [] st = "type" -> [s EXCEPT !.dims[k].type = v]
                  [] st = "size" -> [s EXCEPT !.dims[k].size = v]
                  [] st = "chunk" -> [s EXCEPT !.dims[k].chunk = v]
                  [] st = "badname" -> [s EXCEPT !.dims[k].utf8 = FALSE]
                  [] st = "shard" -> [s EXCEPT !.dims[k].shard = v]
S3Place(p) == Len(p) > 3 /\ SubSeq(p, 1, 3) = "s3."

VARIABLES s, left, places, pc, at, stream
vars == <<s, left, places, pc, at, stream>>

Init == /\ \E v \in {2, 3}, b \in BOOLEAN : s = Base(v, b)
        /\ left = GDepth /\ places = {} /\ pc = "choose" /\ at = "old" /\ stream = FALSE
Change(c) == /\ pc = "choose" /\ left > 0
             /\ c.place \notin places
             /\ S3Place(c.place) => OnS3(s)
             /\ "count" \notin places /\ "more" \notin places
             /\ s' = Apply(s, c) /\ s' # s
             /\ left' = left - 1 /\ places' = places \cup {c.place}
             /\ UNCHANGED <<pc, at, stream>>
Create == /\ pc = "choose"
          /\ Emit => PrintT("CASE" \o ToJson(s))
          /\ pc' = IF Early THEN "wipe" ELSE "check"
          /\ UNCHANGED <<s, left, places, at, stream>>
Check == /\ pc = "check"
         /\ pc' = IF ~Valid(s) THEN "done" ELSE IF Early THEN "open" ELSE "wipe"
         /\ UNCHANGED <<s, left, places, at, stream>>
Wipe == /\ pc = "wipe" /\ at' = "new" /\ pc' = IF Early THEN "check" ELSE "open"
        /\ UNCHANGED <<s, left, places, stream>>
Open == /\ pc = "open" /\ stream' = TRUE /\ pc' = "done" /\ UNCHANGED <<s, left, places, at>>
Next == \/ \E c \in Texts : Change(c)
        \/ \E c \in Numbers : Change(c)
        \/ \E c \in Flags : Change(c)
        \/ \E c \in Comps : Change(c)
        \/ \E c \in Customs : Change(c)
        \/ Create \/ Check \/ Wipe \/ Open
View == <<s, pc, at, stream, left>>     \* how one got there is immaterial

Exact == pc = "done" => (stream <=> Valid(s))
NoEffect == pc = "done" /\ ~stream => at = "old"
\* some sanity of the predicate itself
Anchors == /\ \A v \in {2, 3}, b \in BOOLEAN : Valid(Base(v, b))
           /\ TrimLen(" ab ") = 2 /\ TrimLen("\t") = 0 /\ ~Given(" \n") /\ Given(" x")
=============================================================================
