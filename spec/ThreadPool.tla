----------------------------- MODULE ThreadPool -----------------------------
(* C10: what a user of the job pool may rely on. Jobs are numbers; a push, a
   stop and a destruction take effect somewhere between their call and their
   return.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES q,        \* accepted jobs not yet taken, in acceptance order
          taken,    \* taken by a worker, not yet begun
          running,  \* begun, not ended
          owed,     \* ended in failure, callback still to come
          done,     \* finished
          dropped,  \* discarded by destruction
          calls,    \* pushes under way: job -> "call", "yes", "no"
          acc,      \* accepting
          stop,     \* waits for stop under way: "no", "call", "set", "done"
          drop      \* destruction: "no", "call", "set", "done"
pvars == <<q, taken, running, owed, done, dropped, calls, acc, stop, drop>>

PInit == /\ q = <<>> /\ taken = {} /\ running = {} /\ owed = {} /\ done = {} /\ dropped = {}
         /\ calls = [j \in {} |-> "call"]
         /\ acc = TRUE /\ stop = "no" /\ drop = "no"

Known == taken \cup running \cup owed \cup done \cup dropped \cup {q[k] : k \in DOMAIN q} \cup DOMAIN calls

PushCall(j) ==
    /\ j \notin Known /\ drop # "done"
    /\ calls' = calls @@ (j :> "call")
    /\ UNCHANGED <<q, taken, running, owed, done, dropped, acc, stop, drop>>
PushTakes(j) ==                                          \* internal
    /\ j \in DOMAIN calls /\ calls[j] = "call"
    /\ calls' = [calls EXCEPT ![j] = IF acc THEN "yes" ELSE "no"]
    /\ q' = IF acc THEN Append(q, j) ELSE q
    /\ UNCHANGED <<taken, running, owed, done, dropped, acc, stop, drop>>
PushRet(j, ok) ==
    /\ j \in DOMAIN calls /\ calls[j] = (IF ok THEN "yes" ELSE "no")
    /\ calls' = [k \in DOMAIN calls \ {j} |-> calls[k]]
    /\ UNCHANGED <<q, taken, running, owed, done, dropped, acc, stop, drop>>

Take(n) ==                                               \* internal
    /\ q # <<>> /\ Cardinality(taken \cup running \cup owed) < n
    /\ taken' = taken \cup {Head(q)} /\ q' = Tail(q)
    /\ UNCHANGED <<running, owed, done, dropped, calls, acc, stop, drop>>
Begin(j) ==
    /\ j \in taken /\ taken' = taken \ {j} /\ running' = running \cup {j}
    /\ UNCHANGED <<q, owed, done, dropped, calls, acc, stop, drop>>
End(j, ok) ==
    /\ j \in running /\ running' = running \ {j}
    /\ IF ok THEN done' = done \cup {j} /\ UNCHANGED owed
       ELSE owed' = owed \cup {j} /\ UNCHANGED done
    /\ UNCHANGED <<q, taken, dropped, calls, acc, stop, drop>>
Callback(j) ==
    /\ j \in owed /\ owed' = owed \ {j} /\ done' = done \cup {j}
    /\ UNCHANGED <<q, taken, running, dropped, calls, acc, stop, drop>>

Idle == q = <<>> /\ taken = {} /\ running = {} /\ owed = {}
StopCall == stop = "no" /\ stop' = "call" /\ UNCHANGED <<q, taken, running, owed, done, dropped, calls, acc, drop>>
StopTakes ==                                             \* internal
    /\ stop = "call" /\ stop' = "set" /\ acc' = FALSE
    /\ UNCHANGED <<q, taken, running, owed, done, dropped, calls, drop>>
StopRet == /\ stop = "set" /\ Idle /\ stop' = "done"
           /\ UNCHANGED <<q, taken, running, owed, done, dropped, calls, acc, drop>>
DropCall == /\ drop = "no" /\ drop' = "call"
            /\ UNCHANGED <<q, taken, running, owed, done, dropped, calls, acc, stop>>
DropOne ==                                               \* internal
    /\ drop \in {"call", "set"} /\ q # <<>>
    /\ dropped' = dropped \cup {Head(q)} /\ q' = Tail(q)
    /\ UNCHANGED <<taken, running, owed, done, calls, acc, stop, drop>>
DropTakes ==                                             \* internal
    /\ drop = "call" /\ drop' = "set" /\ acc' = FALSE
    /\ UNCHANGED <<q, taken, running, owed, done, dropped, calls, stop>>
DropRet == /\ drop = "set" /\ Idle /\ drop' = "done"
           /\ UNCHANGED <<q, taken, running, owed, done, dropped, calls, acc, stop>>

Internal(n) == Take(n) \/ StopTakes \/ DropOne \/ DropTakes \/ \E j \in DOMAIN calls : PushTakes(j)

-----------------------------------------------------------------------------
(* Design *)
CONSTANTS Jobs, Workers
NW == Cardinality(Workers)
PNext == \/ Internal(NW)
         \/ \E j \in Jobs : \/ PushCall(j) \/ Begin(j) \/ Callback(j)
                            \/ \E ok \in BOOLEAN : PushRet(j, ok) \/ End(j, ok)
         \/ StopCall \/ StopRet \/ DropCall \/ DropRet
PSpec == PInit /\ [][PNext]_pvars

AtOnce == Cardinality(taken \cup running \cup owed) <= NW
Once == /\ taken \cap (running \cup owed \cup done \cup dropped) = {}
        /\ running \cap (owed \cup done \cup dropped) = {}
        /\ owed \cap (done \cup dropped) = {}
        /\ done \cap dropped = {}
        /\ \A k \in DOMAIN q : q[k] \notin taken \cup running \cup owed \cup done \cup dropped
        /\ \A a, b \in DOMAIN q : a # b => q[a] # q[b]
\* nothing is lost between acceptance and the end of the wait
AllRun == stop = "done" /\ drop = "no" => Idle /\ dropped = {}
Silent == drop = "done" => Idle
NoDropWithoutDestruction == dropped # {} => drop # "no"
Forever == [][drop = "done" => UNCHANGED <<running, owed, done>>]_pvars
=============================================================================
