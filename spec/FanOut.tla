------------------------------- MODULE FanOut -------------------------------
(* C11: a caller starts one job per directory or file, waits until all have
   been counted down, and returns whether all succeeded. The counter and the
   flag live in the caller's frame, which is gone once it returns. FlagFirst:
   a failing job clears the flag before it counts down; CountAll: every job
   counts down, also a failing one. Leaving either out breaks it.            *)
EXTENDS Integers, FiniteSets
CONSTANTS Jobs, Workers, FlagFirst, CountAll
VARIABLES pc,       \* job -> "queued", "run", "flag", "count", "end"
          made,     \* job -> whether it can do its work
          flag, counter, caller, ret, stale
vars == <<pc, made, flag, counter, caller, ret, stale>>
Init == /\ pc = [j \in Jobs |-> "queued"] /\ made \in [Jobs -> BOOLEAN]
        /\ flag = TRUE /\ counter = Cardinality(Jobs) /\ caller = "wait" /\ ret = TRUE /\ stale = FALSE
Go(j, l) == pc' = [pc EXCEPT ![j] = l]
Touch == stale' = (stale \/ caller = "gone")
Active == {j \in Jobs : pc[j] \notin {"queued", "end"}}
Start(j) == /\ pc[j] = "queued" /\ Cardinality(Active) < Workers /\ Go(j, "run")
            /\ UNCHANGED <<made, flag, counter, caller, ret, stale>>
\* a job that sees the flag cleared need not do its work
Run(j) == /\ pc[j] = "run" /\ Touch
          /\ Go(j, IF made[j] THEN "count" ELSE IF FlagFirst THEN "flag" ELSE "count")
          /\ UNCHANGED <<made, flag, counter, caller, ret>>
Flag(j) == /\ pc[j] = "flag" /\ flag' = FALSE /\ Touch /\ Go(j, IF FlagFirst THEN "count" ELSE "end")
           /\ UNCHANGED <<made, counter, caller, ret>>
Count(j) == /\ pc[j] = "count" /\ Touch
            /\ counter' = (IF made[j] \/ CountAll THEN counter - 1 ELSE counter)
            /\ Go(j, IF made[j] \/ FlagFirst THEN "end" ELSE "flag")
            /\ UNCHANGED <<made, flag, caller, ret>>
Return == /\ caller = "wait" /\ counter = 0 /\ caller' = "gone" /\ ret' = flag
          /\ UNCHANGED <<pc, made, flag, counter, stale>>
Next == Return \/ \E j \in Jobs : Start(j) \/ Run(j) \/ Flag(j) \/ Count(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
True == caller = "gone" => ret = (\A j \in Jobs : made[j])
FrameSafe == ~stale
Returns == <>(caller = "gone")
=============================================================================
