---------------------------- MODULE ConnPoolTrace ----------------------------
(* Recorded executions of the real connection pool and of operations that use
   it. A connection given back may be taken by another before the call that
   gives it back has returned.                                               *)
EXTENDS ConnPool, Sequences, Json, IOUtils
VARIABLES c, i, giving
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[c]
Range(s) == {s[k] : k \in DOMAIN s}
TInit == /\ c \in 1..Len(Cases) /\ i = 0 /\ giving = {}
         /\ free = Range(Cases[c].conns) /\ want = {}
         /\ held = [t \in 0..Cases[c].threads |-> {}]
Ev(e) ==
    CASE e.e = "get" -> Ask(e.t) /\ UNCHANGED giving
      [] e.e = "got" -> Take(e.t, e.c) /\ UNCHANGED giving
      [] e.e = "put" -> /\ e.c \in held[e.t] /\ giving' = giving \cup {<<e.t, e.c>>} /\ UNCHANGED cvars
      [] e.e = "was" -> <<e.t, e.c>> \notin giving /\ UNCHANGED <<cvars, giving>>
      \* an operation of the library on its own: it ends with everything given back
      [] e.e = "op" -> UNCHANGED <<cvars, giving>>
      [] e.e = "done" -> UNCHANGED <<cvars, giving>>
      \* all threads have ended: as many connections as there were can be taken at once
      [] e.e = "end" -> /\ giving = {} /\ e.strength = Cardinality(Range(C.conns)) /\ e.clashes = 0
                        /\ \A t \in DOMAIN held : held[t] = {}
                        /\ UNCHANGED <<cvars, giving>>
Step == i < Len(C.events) /\ i' = i + 1 /\ Ev(C.events[i']) /\ UNCHANGED c
Back == /\ \E g \in giving : Give(g[1], g[2]) /\ giving' = giving \ {g}
        /\ UNCHANGED <<c, i>>
Accept == /\ i = Len(C.events) /\ i' = i + 1 /\ C.status = "ok" /\ C.ended
          /\ PrintT(ToJson([case |-> C.id, failed |-> <<>>]))
          /\ UNCHANGED <<cvars, c, giving>>
TNext == i <= Len(C.events) /\ (Step \/ Back \/ Accept)
=============================================================================
