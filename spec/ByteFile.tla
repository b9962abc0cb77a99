------------------------------ MODULE ByteFile ------------------------------
(* C18, C19. A file under writes at arbitrary offsets.

   Concretely a file is a sequence of bytes, and a gather write puts one
   buffer after the other, may stop anywhere when it fails, and interleaves
   with the writes of others. Abstractly a file is a log of writes: where,
   how long, whose bytes, and whether it was reported as done. The design
   model (BInit, BNext) runs both and checks that the log tells what every
   byte is; the traces are judged by the log alone, with numbers of any size
   (BigNat).                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, BigNat

CONSTANTS Limit,     \* positions in the design model
          Writers,
          MaxWrites

VARIABLES mem,     \* concrete: position -> byte, "zero" in gaps; domain 0..size-1
          log,     \* abstract: sequence of [at, len, w, sure]
          busy     \* writer -> [at, len, put, k] or none: write in progress
bvars == <<mem, log, busy>>

None == [at |-> 0, len |-> 0, put |-> 0, k |-> 0]
\* a byte is the index of the write it came from
Extend(m, x, b) == [y \in 0..(IF x + 1 > Cardinality(DOMAIN m) THEN x ELSE Cardinality(DOMAIN m) - 1) |->
                      IF y = x THEN b ELSE IF y \in DOMAIN m THEN m[y] ELSE 0]
Empty == [y \in {} |-> 0]
BInit == mem = Empty /\ log = <<>> /\ busy = [w \in Writers |-> None]

Disjoint(a, l) ==
    \A v \in Writers : busy[v] = None \/ busy[v].at + busy[v].len <= a \/ a + l <= busy[v].at
Start(w) ==
    /\ busy[w] = None /\ Len(log) + Cardinality({v \in Writers : busy[v] # None}) < MaxWrites
    /\ \E a \in 0..(Limit - 1) : \E l \in 0..(Limit - a) :
         /\ Disjoint(a, l)
         /\ log' = Append(log, [at |-> a, len |-> l, w |-> w, sure |-> FALSE])
         /\ busy' = [busy EXCEPT ![w] = [at |-> a, len |-> l, put |-> 0, k |-> Len(log) + 1]]
    /\ UNCHANGED mem
Put(w) ==
    LET b == busy[w] IN
    /\ b # None /\ b.put < b.len
    /\ mem' = Extend(mem, b.at + b.put, b.k)
    /\ busy' = [busy EXCEPT ![w].put = b.put + 1]
    /\ UNCHANGED log
Done(w) ==
    LET b == busy[w] IN
    /\ b # None /\ b.put = b.len
    /\ log' = [log EXCEPT ![b.k].sure = TRUE]
    /\ busy' = [busy EXCEPT ![w] = None]
    /\ UNCHANGED mem
Fail(w) ==
    /\ busy[w] # None /\ busy' = [busy EXCEPT ![w] = None] /\ UNCHANGED <<mem, log>>
Truncate ==
    /\ \A w \in Writers : busy[w] = None
    /\ mem' = Empty /\ log' = <<>> /\ UNCHANGED busy
BNext == \/ \E w \in Writers : Start(w) \/ Put(w) \/ Done(w) \/ Fail(w)
         \/ Truncate
BSpec == BInit /\ [][BNext]_bvars

\* what the log says about position x: the last sure write there, unless an
\* unsure one may have come after it
Covers(i, x) == log[i].at <= x /\ x < log[i].at + log[i].len
LastSure(x) == LET c == {i \in DOMAIN log : log[i].sure /\ Covers(i, x)}
               IN  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
Unsure(x) == \E i \in DOMAIN log : ~log[i].sure /\ Covers(i, x) /\ i > LastSure(x)
SizeSure == LET e == {log[i].at + log[i].len : i \in {j \in DOMAIN log : log[j].sure /\ log[j].len > 0}}
            IN  IF e = {} THEN 0 ELSE CHOOSE m \in e : \A n \in e : n <= m
LogTells ==
    /\ Cardinality(DOMAIN mem) >= SizeSure
    /\ \A x \in DOMAIN mem : ~Unsure(x) => mem[x] = LastSure(x)
    /\ \A x \in DOMAIN mem : x >= SizeSure =>
          \E i \in DOMAIN log : ~log[i].sure /\ log[i].at + log[i].len > x

-----------------------------------------------------------------------------
(* Traces. A case is a sequence of events on one file:
   open (ok, fault), write (at, len, w, ok, fault, must), look (size, pieces),
   final (ok, fault). pieces cut the file at all ends of writes; each names
   the writers whose bytes it equals ("zero" for zeros, "pre" for what was
   there before).                                                            *)
VARIABLES t, i, pre, dead
Cases == JsonDeserialize(IOEnv.CASES)
Events == Cases[t].events
tvars == <<mem, log, busy, t, i, pre, dead>>
TInit == /\ t \in 1..Len(Cases) /\ i = 0 /\ mem = Empty /\ busy = <<>> /\ log = <<>>
         /\ pre = Cases[t].pre      \* bytes that were there before
         /\ dead = FALSE            \* not opened, or broken by a fault

End(s) == BAdd(s.at, s.len)
In(p, s) == BLeq(s.at, p.lo) /\ BLeq(p.hi, End(s))
Last(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
PieceOk(p) ==
    LET sure == Last({k \in DOMAIN log : log[k].sure /\ In(p, log[k])})
        open == \E k \in DOMAIN log : k > sure /\ ~log[k].sure /\ In(p, log[k])
        want == IF sure > 0 THEN log[sure].w ELSE IF BLess(p.lo, pre) THEN "pre" ELSE "zero"
    IN  open \/ \E k \in DOMAIN p.is : p.is[k] = want
SizeOk(sz) ==
    LET real == {k \in DOMAIN log : log[k].len # <<>>}
        sure == {k \in real : log[k].sure}
    IN  /\ BLeq(pre, sz)
        /\ \A k \in sure : BLeq(End(log[k]), sz)
        /\ sz = pre \/ (\E k \in sure : End(log[k]) = sz)
             \/ \E k \in real \ sure : BLeq(sz, End(log[k]))

Open(e) ==
    /\ e.ok \/ e.fault \/ e.bad
    /\ e.bad => ~e.ok                      \* a place where no file can be
    /\ log' = <<>> /\ pre' = (IF e.ok THEN <<>> ELSE pre) /\ dead' = ~e.ok
Write(e) ==
    /\ ~dead
    /\ e.ok \/ e.fault \/ ~e.must
          \/ \E k \in DOMAIN log : ~log[k].sure     \* broken before
    /\ log' = Append(log, [at |-> e.at, len |-> e.len, w |-> e.w, sure |-> e.ok])
    /\ UNCHANGED <<pre, dead>>
Look(e) ==
    /\ dead \/ /\ SizeOk(e.size)
               /\ \A k \in DOMAIN e.pieces : PieceOk(e.pieces[k])
    /\ UNCHANGED <<log, pre, dead>>
Final(e) ==
    /\ e.ok \/ e.fault \/ dead \/ \E k \in DOMAIN log : ~log[k].sure
    /\ UNCHANGED <<log, pre, dead>>
Step ==
    /\ i < Len(Events) /\ i' = i + 1
    /\ LET e == Events[i'] IN
       CASE e.op = "open" -> Open(e)
         [] e.op = "write" -> Write(e)
         [] e.op = "look" -> Look(e)
         [] e.op = "final" -> Final(e)
    /\ UNCHANGED <<mem, busy, t>>
Accept == /\ i = Len(Events) /\ i' = i + 1
          /\ PrintT(ToJson([case |-> Cases[t].id, failed |-> <<>>]))
          /\ UNCHANGED <<mem, log, busy, t, pre, dead>>
TNext == Step \/ Accept
MInit == BInit /\ t = 0 /\ i = 0 /\ pre = 0 /\ dead = FALSE
MNext == BNext /\ UNCHANGED <<t, i, pre, dead>>
=============================================================================
