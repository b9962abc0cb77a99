----------------------------- MODULE ScarceTrace -----------------------------
(* Recorded calls of real streams against Scarce. A case: id, streams (one
   after the other): events [op, refused, ok], lived, held (descriptors and
   threads more than before the first stream), whole: the store in the end is
   the one the same calls make when nothing is refused - or "" where nobody
   looked.                                                                   *)
EXTENDS Scarce, Sequences, TLC, Json, IOUtils
VARIABLES t, k, i
Cases == JsonDeserialize(IOEnv.CASES)
Streams == Cases[t].streams
Events == Streams[k].events
TInit == SInit /\ t \in 1..Len(Cases) /\ k = 1 /\ i = 0
Ev(e) == CASE e.op = "create" -> CreateRet(e.refused, e.ok)
           [] e.op = "append" -> AppendRet(e.refused, e.ok)
           [] e.op = "destroy" -> DestroyRet(e.refused)
           [] e.op = "dims" -> DimsRet(e.refused, e.ok, e.same)
Step == /\ k <= Len(Streams) /\ i < Len(Events) /\ i' = i + 1 /\ Ev(Events[i']) /\ UNCHANGED <<t, k>>
\* the stream is gone, and with it what it held
Over == /\ k <= Len(Streams) /\ i = Len(Events) /\ phase = "gone" /\ ~heldy
        /\ Streams[k].held <= 0
        /\ MustBeWhole => Streams[k].whole \in {"", "yes"}
        /\ phase' = "new" /\ broken' = FALSE /\ made' = FALSE /\ blind' = FALSE /\ heldy' = FALSE
        /\ k' = k + 1 /\ i' = 0 /\ UNCHANGED t
Accept == /\ k = Len(Streams) + 1 /\ Cases[t].lived /\ k' = k + 1
          /\ PrintT(ToJson([case |-> Cases[t].id, failed |-> <<>>]))
          /\ UNCHANGED <<svars, t, i>>
TNext == Step \/ Over \/ Accept
=============================================================================
