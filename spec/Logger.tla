------------------------------- MODULE Logger -------------------------------
(* C25: what a user of the log may rely on. A message is a number m of level
   lev(m); a call takes effect - the level is compared, the line appears -
   somewhere between its start and its return.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Levels == 0..4              \* Debug, Info, Warning, Error, None
VARIABLES level,            \* the current level
          busy,             \* thread -> what it is doing
          out, err          \* the lines of the two streams
lvars == <<level, busy, out, err>>
Idle == [op |-> "idle"]
LInit(T) == level = 1 /\ busy = [t \in T |-> Idle] /\ out = <<>> /\ err = <<>>

LogCall(t, m, l) == /\ busy[t] = Idle
                    /\ busy' = [busy EXCEPT ![t] = [op |-> "log", m |-> m, l |-> l, at |-> "call"]]
                    /\ UNCHANGED <<level, out, err>>
Decide(t) == /\ busy[t].op = "log" /\ busy[t].at = "call"                        \* internal
             /\ busy' = [busy EXCEPT ![t].at = IF busy[t].l >= level THEN "yes" ELSE "no"]
             /\ UNCHANGED <<level, out, err>>
Emit(t) == /\ busy[t].op = "log" /\ busy[t].at = "yes"                           \* internal
           /\ IF busy[t].l = 3 THEN err' = Append(err, busy[t].m) /\ UNCHANGED out
              ELSE out' = Append(out, busy[t].m) /\ UNCHANGED err
           /\ busy' = [busy EXCEPT ![t].at = "emitted"]
           /\ UNCHANGED level
LogRet(t, said) == /\ busy[t].op = "log" /\ busy[t].at = (IF said THEN "emitted" ELSE "no")
                   /\ busy' = [busy EXCEPT ![t] = Idle]
                   /\ UNCHANGED <<level, out, err>>
SetCall(t, l) == /\ busy[t] = Idle /\ busy' = [busy EXCEPT ![t] = [op |-> "set", l |-> l, at |-> "call"]]
                 /\ UNCHANGED <<level, out, err>>
SetTakes(t) == /\ busy[t].op = "set" /\ busy[t].at = "call"                      \* internal
               /\ IF busy[t].l \in Levels THEN level' = busy[t].l /\ busy' = [busy EXCEPT ![t].at = "yes"]
                  ELSE UNCHANGED level /\ busy' = [busy EXCEPT ![t].at = "no"]
               /\ UNCHANGED <<out, err>>
SetRet(t, ok) == /\ busy[t].op = "set" /\ busy[t].at = (IF ok THEN "yes" ELSE "no")
                 /\ busy' = [busy EXCEPT ![t] = Idle]
                 /\ UNCHANGED <<level, out, err>>
Get(t, l) == busy[t] = Idle /\ level = l /\ UNCHANGED lvars
Internal == \E t \in DOMAIN busy : Decide(t) \/ Emit(t) \/ SetTakes(t)

-----------------------------------------------------------------------------
(* Design: any threads, any messages *)
CONSTANTS Threads, Messages
LevelOf(m) == m % 4
Used == {out[k] : k \in DOMAIN out} \cup {err[k] : k \in DOMAIN err} \cup
        {busy[t].m : t \in {u \in Threads : busy[u].op = "log"}}
LNext == \/ Internal
         \/ \E t \in Threads : \/ \E m \in Messages \ Used : LogCall(t, m, LevelOf(m))
                               \/ \E b \in BOOLEAN : LogRet(t, b) \/ SetRet(t, b)
                               \/ \E l \in {0, 3, 4, 5} : SetCall(t, l)
LSpec == LInit(Threads) /\ [][LNext]_lvars
RightStream == (\A k \in DOMAIN out : LevelOf(out[k]) # 3) /\ (\A k \in DOMAIN err : LevelOf(err[k]) = 3)
Once == /\ \A a, b \in DOMAIN out : a # b => out[a] # out[b]
        /\ \A a, b \in DOMAIN err : a # b => err[a] # err[b]
LevelValid == level \in Levels
Silence == [][level = 4 /\ (\A t \in Threads : busy[t].op # "log" \/ busy[t].at = "call") => out' = out /\ err' = err]_lvars
=============================================================================
