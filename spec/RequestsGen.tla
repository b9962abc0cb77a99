----------------------------- MODULE RequestsGen -----------------------------
(* Sequences of requests, for the driver, and (Emit = FALSE) the model.       *)
EXTENDS Requests, Json
CONSTANTS Depth, Emit,
  Few     \* only arguments that are for the service
VARIABLES ops, was, kind
gvars == <<objs, ups, ops, was, kind>>
Sizes == IF Emit THEN {0, 1, 2, 1000, MinPart - 1, MinPart, MinPart + 1} ELSE {1, MinPart} \cup (IF Few THEN {} ELSE {0})
Names == IF Emit THEN {"", "k", "k2", "d/k"} ELSE {"k"} \cup (IF Few THEN {} ELSE {""})
Asked == IF Emit THEN {"", "b", "c", "gone"} ELSE {"b"} \cup (IF Few THEN {} ELSE {"", "gone"})
Base == [op |-> "valid", b |-> "b", k |-> "k", n |-> 1, u |-> 0, num |-> 1, parts |-> <<>>, fail |-> FALSE]
Init == RInit /\ ops = <<>> /\ was = <<objs, ups>> /\ kind = ""
Kinds == {"valid", "bucket", "stat", "stat2", "put", "put2", "del", "del2", "begin", "begin2", "part", "part2", "part3", "part4", "part5", "complete", "whole", "odd"}
All(u) == LET ns == SortedNums(DOMAIN ups[u].parts) IN [i \in 1..Len(ns) |-> [num |-> ns[i], e |-> ups[u].parts[ns[i]].c]]
Open == {u \in 1..Len(ups) : ups[u].open}
Choice ==
    CASE kind = "valid" -> {[Base EXCEPT !.fail = f] : f \in BOOLEAN}
      [] kind = "bucket" -> {[Base EXCEPT !.op = "bucket", !.b = b, !.fail = f] : b \in Asked, f \in BOOLEAN}
      [] kind = "stat2" -> {[Base EXCEPT !.op = "stat", !.b = p[1], !.k = p[2]] : p \in {p \in DOMAIN objs : objs[p] # None}}
      [] kind = "del2" -> {[Base EXCEPT !.op = "del", !.b = p[1], !.k = p[2]] : p \in {p \in DOMAIN objs : objs[p] # None}}
      [] kind = "stat" -> {[Base EXCEPT !.op = "stat", !.b = b, !.k = k, !.fail = f] : b \in Asked, k \in Names, f \in BOOLEAN}
      [] kind = "put2" -> {[Base EXCEPT !.op = "put", !.n = n, !.k = k] : n \in Sizes \ {0}, k \in Names \ {""}}
      [] kind = "put" -> {[Base EXCEPT !.op = "put", !.b = b, !.k = k, !.n = n, !.fail = f] : b \in Asked, k \in Names, n \in Sizes, f \in BOOLEAN}
      [] kind = "del" -> {[Base EXCEPT !.op = "del", !.b = b, !.k = k, !.fail = f] : b \in Asked, k \in Names, f \in BOOLEAN}
      [] kind = "begin" -> {[Base EXCEPT !.op = "begin", !.b = b, !.k = k, !.fail = f] : b \in Asked, k \in Names, f \in BOOLEAN}
      [] kind = "begin2" -> {[Base EXCEPT !.op = "begin", !.k = k] : k \in Names \ {""}}
      \* a part as it should be
      [] kind \in {"part", "part2", "part3", "part4"} /\ Emit ->
            {[Base EXCEPT !.op = "part", !.b = ups[u].b, !.k = ups[u].k, !.u = u, !.n = n, !.num = m] : u \in Open, n \in {MinPart, MinPart + 3}, m \in {1, 2, 3, 4, 300, 10000}}
      \* and as it should not
      [] kind \in {"part", "part2", "part3", "part4", "part5"} ->
            {[Base EXCEPT !.op = "part", !.b = b, !.k = k, !.u = u, !.n = n, !.num = m, !.fail = f] :
               b \in (IF Emit THEN {"b"} ELSE Asked), k \in Names, u \in 0..Len(ups), n \in Sizes,
               m \in (IF Emit THEN {0, 1, 2, 3, 10000, 10001} ELSE IF Few THEN {1, 2} ELSE {0, 1, 2}), f \in BOOLEAN}
      [] kind = "whole" -> {[Base EXCEPT !.op = "complete", !.b = ups[u].b, !.k = ups[u].k, !.u = u, !.parts = All(u), !.fail = f] :
                              u \in {u \in Open : DOMAIN ups[u].parts # {}}, f \in {FALSE}}
      [] kind = "complete" -> {[Base EXCEPT !.op = "complete", !.k = k, !.u = u, !.parts = p, !.fail = f] :
                                 k \in Names, u \in (-1)..Len(ups), f \in BOOLEAN,
                                 p \in {<<>>} \cup {<<[num |-> m, e |-> 0]>> : m \in 1..2} \cup {All(v) : v \in Open}}
      \* parts left out, in another order, with another's etag
      [] kind = "odd" ->
            UNION { LET a == All(u) IN
                    {[Base EXCEPT !.op = "complete", !.b = ups[u].b, !.k = ups[u].k, !.u = u, !.parts = p] :
                       p \in {Tail(a), SubSeq(a, 1, Len(a) - 1), [i \in 1..Len(a) |-> a[Len(a) + 1 - i]], a \o <<a[Len(a)]>>} \cup
                             {[a EXCEPT ![i].e = a[j].e] : i \in 1..Len(a), j \in 1..Len(a)} \cup
                             {[a EXCEPT ![i].e = 0] : i \in 1..Len(a)} \cup {[a EXCEPT ![Len(a)].num = 9]}}
                  : u \in {u \in Open : DOMAIN ups[u].parts # {}} }
      [] OTHER -> {}
Step == \E o \in Choice : /\ Effect(o, Len(ops) + 1) /\ ops' = Append(ops, o) /\ was' = <<objs, ups>> /\ kind' = ""
Next == \/ /\ Len(ops) < Depth
           /\ \/ kind = "" /\ kind' \in Kinds /\ UNCHANGED <<objs, ups, ops, was>>
              \/ kind # "" /\ Choice # {} /\ Step
              \/ kind # "" /\ Choice = {} /\ kind' = "" /\ UNCHANGED <<objs, ups, ops, was>>
        \/ /\ Emit /\ Len(ops) = Depth /\ PrintT("CASE" \o ToJson([ops |-> ops]))
           /\ ops' = Append(ops, Base) /\ kind' = "end" /\ UNCHANGED <<objs, ups, was>>
\* (histories that differ in calls that nothing is left of are one)
Used == UNION {{objs[p][i] : i \in 1..Len(objs[p])} : p \in DOMAIN objs} \cup
        UNION {{ups[u].parts[m].c : m \in DOMAIN ups[u].parts} : u \in 1..Len(ups)}
View == <<objs, ups, kind, Len(ops), [x \in Used |-> ops[x]], IF kind = "" /\ ops # <<>> THEN <<was, ops[Len(ops)]>> ELSE <<>>>>
\* every call is told about as it went, and changes its own object only
Last == ops[Len(ops)]
Own == ops # <<>> /\ kind = "" =>
         \A p \in DOMAIN objs : (p \notin DOMAIN was[1] \/ objs[p] # was[1][p]) => p = <<Last.b, Last.k>>
\* (what a call that is not told to have worked leaves as it was)
Unchanged == ops # <<>> /\ kind = "" =>
               \/ <<objs, ups>> = was
               \/ Last.op \in {"put", "del", "begin", "part", "complete"} /\ Legal(Last) /\ ~Last.fail
\* an object is the data of one put, or parts given for it, in the order of their numbers
Made == \A p \in DOMAIN objs : objs[p] # None =>
          \/ Len(objs[p]) = 1 /\ ops[objs[p][1]].op = "put"
          \/ /\ \A i \in 1..Len(objs[p]) : LET o == ops[objs[p][i]] IN
                  /\ o.op = "part" /\ <<o.b, o.k>> = p /\ ~o.fail
                  /\ i < Len(objs[p]) => o.n >= MinPart /\ o.num < ops[objs[p][i + 1]].num
\* the etags that were given are those of the parts the object has
Given == ops # <<>> /\ kind = "" /\ Last.op = "complete" /\ <<objs, ups>> # was =>
           objs[<<Last.b, Last.k>>] = [i \in 1..Len(Last.parts) |-> Last.parts[i].e]
=============================================================================
