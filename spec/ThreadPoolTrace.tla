-------------------------- MODULE ThreadPoolTrace --------------------------
(* Recorded executions of the real pool, under schedules chosen by the
   controlled scheduler, against ThreadPool.                                 *)
EXTENDS ThreadPool, Json, IOUtils
VARIABLES t, i
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[t]
Events == C.events
TInit == PInit /\ t \in 1..Len(Cases) /\ i = 0
Ev(e) ==
    CASE e.e = "push" -> PushCall(e.j)
      [] e.e = "pushed" -> PushRet(e.j, e.ok)
      [] e.e = "begin" -> Begin(e.j)
      [] e.e = "end" -> End(e.j, e.ok)
      \* exactly this job's message
      [] e.e = "cb" -> \E j \in owed : C.msg[ToString(j)] = e.m /\ Callback(j)
      [] e.e = "stop" -> StopCall
      [] e.e = "stopped" -> StopRet
      [] e.e = "drop" -> DropCall
      [] e.e = "gone" -> DropRet
Step == /\ i < Len(Events) /\ i' = i + 1 /\ Ev(Events[i']) /\ UNCHANGED t
Quiet == Internal(C.n) /\ UNCHANGED <<t, i>>
Accept == /\ i = Len(Events) /\ i' = i + 1
          /\ C.status = "ok" /\ DOMAIN calls = {}
          /\ PrintT(ToJson([case |-> C.id, failed |-> <<>>]))
          /\ UNCHANGED <<pvars, t>>
\* (PrintT once per accepting state is enough)
TNext == i <= Len(Events) /\ (Step \/ Quiet \/ Accept)
=============================================================================
