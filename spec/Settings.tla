------------------------------ MODULE Settings ------------------------------
(* C07: which settings are valid, and what creation does with them.

   A setting is a record of plain values, the string "<null>" standing for a
   null pointer:
     version, dtype   integers
     path             store path;  where: what the file system has there:
                      parent \in {"dir", "none", "file", "readonly"}
     s3               none or one [endpoint, bucket, key, secret]
     comp             none or one [compressor, codec, level, shuffle]
     custom           text;  json: is it a JSON text
     dims             sequence of [name, type, size, chunk, shard], the last three
                      of 32 bits (-n stands for 2^32 - n)
     nodims           TRUE: null pointer for the dimensions
     count            dimension_count as given                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null == "<null>"
White == {" ", "\t", "\n", "\r", "\f"}
Char(s, k) == SubSeq(s, k, k)
Inked(s) == {k \in 1..Len(s) : Char(s, k) \notin White}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
TrimLen(s) == IF Inked(s) = {} THEN 0 ELSE MaxOf(Inked(s)) - MinOf(Inked(s)) + 1
Given(s) == s # Null /\ Inked(s) # {}

VersionOk(s) == s.version \in {2, 3}
OnS3(s) == Len(s.s3) > 0
S3Ok(s) == LET x == s.s3[1] IN
           /\ Given(x.endpoint) /\ Given(x.key) /\ Given(x.secret)
           /\ Given(x.bucket) /\ TrimLen(x.bucket) \in 3..63
PlaceOk(s) == /\ Given(s.path)
              /\ IF OnS3(s) THEN S3Ok(s) ELSE s.parent = "dir"
CompOk(s) == \A k \in 1..Len(s.comp) : LET c == s.comp[k] IN
    /\ c.compressor \in {0, 1}
    /\ c.codec \in {0, 1, 2} /\ (c.compressor = 1 => c.codec # 0)
    /\ c.level \in 0..9 /\ c.shuffle \in 0..2
CustomOk(s) == s.custom = Null \/ s.custom = "" \/ s.json
DimOk(s, k) == LET d == s.dims[k] IN
    /\ Given(d.name) /\ d.utf8 /\ d.type \in 0..3
    /\ d.chunk # 0
    /\ k > 1 => d.size # 0
    /\ s.version = 3 => d.shard # 0
Space == 0
DimsOk(s) == /\ ~s.nodims /\ s.count = Len(s.dims) /\ s.count >= 3
             /\ \A k \in 1..Len(s.dims) : DimOk(s, k)
             /\ s.dims[s.count].type = Space /\ s.dims[s.count - 1].type = Space
Valid(s) == /\ VersionOk(s) /\ PlaceOk(s) /\ s.dtype \in 0..9
            /\ CompOk(s) /\ CustomOk(s) /\ DimsOk(s)
=============================================================================
