----------------------------- MODULE LoggerTrace -----------------------------
(* Recorded executions of the real log: calls with their arguments and returns
   with what they gave back and how much of each stream was there by then; at
   the end the lines of both streams (0: a line that is no message).         *)
EXTENDS Logger, Json, IOUtils
VARIABLES c, i
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[c]
Events == C.events
TInit == c \in 1..Len(Cases) /\ LInit(0..Cases[c].threads) /\ i = 0
\* the line of a message that was emitted must be there when the call returns
There(m, n, lines, ends) == \E k \in DOMAIN lines : lines[k] = m /\ ends[k] <= n
Ev(e) ==
    CASE e.e = "log" -> LogCall(e.t, e.m, e.l)
      [] e.e = "logged" -> /\ LogRet(e.t, e.said)
                           /\ e.good                     \* the emitted text, or nothing
                           /\ e.said => IF busy[e.t].l = 3 THEN There(busy[e.t].m, e.err, C.err, C.errends)
                                        ELSE There(busy[e.t].m, e.out, C.out, C.outends)
      [] e.e = "set" -> SetCall(e.t, e.l)
      [] e.e = "wasset" -> SetRet(e.t, e.ok)
      [] e.e = "get" -> Get(e.t, e.l)
Prefix(s, w) == Len(s) <= Len(w) /\ \A k \in DOMAIN s : s[k] = w[k]
Step == i < Len(Events) /\ i' = i + 1 /\ Ev(Events[i']) /\ UNCHANGED c
Quiet == Internal /\ Prefix(out', C.out) /\ Prefix(err', C.err) /\ UNCHANGED <<c, i>>
Accept == /\ i = Len(Events) /\ i' = i + 1 /\ C.status = "ok" /\ out = C.out /\ err = C.err
          /\ PrintT(ToJson([case |-> C.id, failed |-> <<>>]))
          /\ UNCHANGED <<lvars, c>>
TNext == i <= Len(Events) /\ (Step \/ Quiet \/ Accept)
=============================================================================
