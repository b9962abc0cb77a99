----------------------------- MODULE ApiTrace -----------------------------
(* Recorded calls of the C interface against Api: [id, ndims, events]; an
   event is a call with its arguments, its result r and what the settings
   looked like after it.                                                    *)
EXTENDS Api, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, i
C == Cases[t]
TInit == Init0 /\ t \in 1..Len(Cases) /\ i = 0
E == C.events[i + 1]
Call == CASE E.op = "set" -> SetLevel(E.n, E.r)
          [] E.op = "get" -> GetLevel(E.r)
          [] E.op = "msg" -> Message(E.n, E.r)
          [] E.op = "newdims" -> NewDims(E.given, E.n, E.n = -1, E.r)
          [] E.op = "dropdims" -> DropDims(E.given)
          [] E.op = "fill" -> Fill(E.good)
          [] E.op = "create" -> Create(E.given, E.r)
          [] E.op = "append" -> Append_(E.given, E.data, E.out, E.n, E.r)
          [] E.op = "destroy" -> Destroy(E.given)
          [] OTHER -> FALSE
Step == /\ i < Len(C.events) /\ Call /\ Settings_(E.s, dims')
        /\ i' = i + 1 /\ UNCHANGED t
Accept == /\ i = Len(C.events) /\ i' = i + 1 /\ UNCHANGED <<vars, t>>
          /\ C.how = "ok"
          /\ PrintT(ToJson([case |-> C.id, failed |-> <<>>]))
TNext == Step \/ Accept
=============================================================================
