------------------------------- MODULE Requests -------------------------------
(* C28: the object store behind a connection, and what each request of the
   connection does to it and tells. Objects are sequences of contents, each the
   data of one call (named by the call's number). An operation is a record with
     op    valid, bucket, stat, put, del, begin, part, complete
     b, k  bucket and name ("" is no name)      n     bytes of data
     u     upload (0: unknown, -1: no id)       num   part number
     parts sequence of [num, e]: e is the call whose etag is given, 0 for none
     fail  does the service refuse it
   Buckets are the ones there are. Variant leaves out a detail: "arrival" joins
   the parts as they came, "stubborn" keeps the object of a refused put,
   "loose" takes any part with the right number.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Buckets, MinPart, Variant
VARIABLES objs, ups
None == <<>>
Names0 == {"k", "k2", "d/k"}
RInit == /\ objs = [p \in Buckets \X Names0 |-> None] /\ ups = <<>>

Has(b, k) == <<b, k>> \in DOMAIN objs /\ objs[<<b, k>>] # None
\* arguments that are not for the service
Legal(o) == CASE o.op \in {"valid", "bucket", "stat"} -> TRUE
              [] o.op \in {"del", "begin"} -> o.b # "" /\ o.k # ""
              [] o.op = "put" -> o.b # "" /\ o.k # "" /\ o.n > 0
              [] o.op = "part" -> o.b # "" /\ o.k # "" /\ o.n > 0 /\ o.num > 0
              [] o.op = "complete" -> o.b # "" /\ o.k # "" /\ o.u # -1 /\ o.parts # <<>>
Upload(o) == /\ o.u \in 1..Len(ups) /\ ups[o.u].open /\ ups[o.u].b = o.b /\ ups[o.u].k = o.k
Sound(o) ==
    LET u == ups[o.u] IN
    /\ \A i \in 1..Len(o.parts) :
         LET p == o.parts[i] IN
         /\ p.num \in DOMAIN u.parts /\ (Variant = "loose" \/ u.parts[p.num].c = p.e)
         /\ i > 1 => o.parts[i - 1].num < p.num
         /\ i < Len(o.parts) => u.parts[p.num].n >= MinPart
Done(o) ==
    /\ Legal(o) /\ ~o.fail
    /\ CASE o.op \in {"valid"} -> TRUE
         [] o.op = "bucket" -> o.b \in Buckets
         [] o.op = "stat" -> Has(o.b, o.k)
         [] o.op \in {"put", "del", "begin"} -> o.b \in Buckets
         [] o.op = "part" -> Upload(o) /\ o.num <= 10000
         [] o.op = "complete" -> Upload(o) /\ Sound(o)
Nameless(o) == o.op \in {"bucket", "stat"} /\ (o.b = "" \/ (o.op = "stat" /\ o.k = ""))
\* what the call tells: TRUE or an etag or an id ("yes"), FALSE or nothing ("no"), an exception
Told(o) == IF ~Legal(o) THEN {"throws"}
           ELSE IF Done(o) THEN {"yes"}
           ELSE IF o.op = "begin" \/ Nameless(o) THEN {"no", "throws"} ELSE {"no"}
\* how many requests reach the service (one that was refused may be tried again)
Requests(o) == IF ~Legal(o) THEN {0} ELSE IF Nameless(o) THEN 0..9 ELSE IF o.fail THEN 1..9 ELSE {1}

RECURSIVE SortedNums(_)
SortedNums(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SortedNums(S \ {m})
Joined(o) == LET u == ups[o.u] IN
             IF Variant = "arrival"
             THEN SortedNums({u.parts[o.parts[i].num].c : i \in 1..Len(o.parts)})
             ELSE [i \in 1..Len(o.parts) |-> u.parts[o.parts[i].num].c]
\* id: the number of the call, which names its data
Effect(o, id) ==
    IF ~Done(o) /\ ~(Variant = "stubborn" /\ o.op = "put" /\ Legal(o) /\ o.b \in Buckets) THEN UNCHANGED <<objs, ups>>
    ELSE CASE o.op \in {"valid", "bucket", "stat"} -> UNCHANGED <<objs, ups>>
           [] o.op = "put" -> objs' = (<<o.b, o.k>> :> <<id>>) @@ objs /\ UNCHANGED ups
           [] o.op = "del" -> objs' = (<<o.b, o.k>> :> None) @@ objs /\ UNCHANGED ups
           [] o.op = "begin" -> ups' = Append(ups, [b |-> o.b, k |-> o.k, parts |-> <<>>, open |-> TRUE]) /\ UNCHANGED objs
           [] o.op = "part" -> ups' = [ups EXCEPT ![o.u].parts = (o.num :> [c |-> id, n |-> o.n]) @@ @] /\ UNCHANGED objs
           [] o.op = "complete" -> /\ objs' = (<<o.b, o.k>> :> Joined(o)) @@ objs
                                   /\ ups' = [ups EXCEPT ![o.u].open = FALSE]
=============================================================================
