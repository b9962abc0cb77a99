------------------------------- MODULE Flush -------------------------------
(* C15: how a layer is flushed by parallel jobs, one for each shard (v2: for
   each chunk). A job goes through the chunks of its shard, writes each at the
   shard's next offset and enters it in the shard's index. Whatever the
   interleaving, the outcome is that of one job after the other. Own = FALSE:
   all jobs share one offset; Private = FALSE: the entry goes to a slot found
   in a shared variable.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Shards, PerShard, Own, Private, Workers
VARIABLES pc, k, off, index, data, shared, done
vars == <<pc, k, off, index, data, shared, done>>
Len2(s, c) == 1 + ((s + 2 * c) % 3)          \* encodings differ in length
Key(s) == IF Own THEN s ELSE 0
Init == /\ pc = [s \in Shards |-> "queued"] /\ k = [s \in Shards |-> 1]
        /\ off = [s \in Shards \cup {0} |-> 0] /\ shared = 0 /\ done = FALSE
        /\ index = [s \in Shards |-> [c \in 1..PerShard |-> <<>>]]
        /\ data = [s \in Shards |-> <<>>]
Go(s, l) == pc' = [pc EXCEPT ![s] = l]
Running == {s \in Shards : pc[s] \notin {"queued", "end"}}
Start(s) == pc[s] = "queued" /\ Cardinality(Running) < Workers /\ Go(s, "slot") /\ UNCHANGED <<k, off, index, data, shared, done>>
Slot(s) == /\ pc[s] = "slot"
           /\ IF k[s] > PerShard THEN Go(s, "end") /\ UNCHANGED shared
              ELSE Go(s, "write") /\ shared' = k[s]
           /\ UNCHANGED <<k, off, index, data, done>>
Write(s) == /\ pc[s] = "write" /\ Go(s, "enter")
            /\ data' = [data EXCEPT ![s] = Append(@, <<off[Key(s)], Len2(s, k[s]), k[s]>>)]
            /\ UNCHANGED <<k, off, index, shared, done>>
Enter(s) == /\ pc[s] = "enter" /\ Go(s, "next")
            /\ index' = [index EXCEPT ![s][IF Private THEN k[s] ELSE shared] = <<off[Key(s)], Len2(s, k[s])>>]
            /\ UNCHANGED <<k, off, data, shared, done>>
Advance(s) == /\ pc[s] = "next" /\ Go(s, "slot")
              /\ off' = [off EXCEPT ![Key(s)] = @ + Len2(s, k[s])] /\ k' = [k EXCEPT ![s] = @ + 1]
              /\ UNCHANGED <<index, data, shared, done>>
Wait == /\ ~done /\ \A s \in Shards : pc[s] = "end" /\ done' = TRUE
        /\ UNCHANGED <<pc, k, off, index, data, shared>>
Next == Wait \/ \E s \in Shards : Start(s) \/ Slot(s) \/ Write(s) \/ Enter(s) \/ Advance(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Before(_, _)
Before(s, c) == IF c = 1 THEN 0 ELSE Before(s, c - 1) + Len2(s, c - 1)
\* what one job after the other leaves
Sequential == done => /\ \A s \in Shards : \A c \in 1..PerShard : index[s][c] = <<Before(s, c), Len2(s, c)>>
                      /\ \A s \in Shards : data[s] = [c \in 1..PerShard |-> <<Before(s, c), Len2(s, c), c>>]
Ends == <>done
=============================================================================
