-------------------------------- MODULE Calls --------------------------------
(* C09 at the level of calls: what the return values must be when storage
   operations fail underneath.  Stream's err is this module's broken.

   A call is one event. hit: a storage operation failed while it was carried
   out (creating a directory or file, writing, a request that carries data);
   other: something else underneath failed (a removal, a request that only
   looks), which a call may but need not take for a failure.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES alive,   \* the stream exists
          broken,  \* a storage operation failed
          phase    \* "new", "open", "gone"
cvars == <<alive, broken, phase>>

CallsInit == alive = FALSE /\ broken = FALSE /\ phase = "new"

CreateCall(hit, other, ok) ==
    /\ phase = "new"
    /\ hit => ~ok
    /\ ~ok => hit \/ other          \* not without reason
    /\ alive' = ok /\ broken' = FALSE /\ phase' = (IF ok THEN "open" ELSE "gone")

AppendCall(hit, other, ok) ==
    /\ phase = "open"
    /\ hit \/ broken => ~ok
    /\ ~ok => hit \/ broken \/ other
    /\ broken' = (broken \/ ~ok)
    /\ UNCHANGED <<alive, phase>>

DestroyCall ==
    /\ phase = "open"
    /\ phase' = "gone" /\ alive' = FALSE /\ UNCHANGED broken

\* exhaustively: statuses over all fault histories
CallsNext == \/ \E h, m, ok \in BOOLEAN : CreateCall(h, m, ok)
             \/ \E h, m, ok \in BOOLEAN : AppendCall(h, m, ok)
             \/ DestroyCall
CallsSpec == CallsInit /\ [][CallsNext]_cvars
StickyCalls == [][broken /\ phase' = "open" => broken']_cvars

-----------------------------------------------------------------------------
VARIABLES t, i
MInit == CallsInit /\ t = 0 /\ i = 0
MNext == CallsNext /\ UNCHANGED <<t, i>>
Cases == JsonDeserialize(IOEnv.CASES)
Events == Cases[t].events
TInit == CallsInit /\ t \in 1..Len(Cases) /\ i = 0
Ev(e) ==
    CASE e.op = "create" -> CreateCall(e.hit, e.other, e.ok)
      [] e.op = "append" -> AppendCall(e.hit, e.other, e.ok)
      [] e.op = "destroy" -> DestroyCall
TStep == /\ i < Len(Events) /\ i' = i + 1 /\ Ev(Events[i']) /\ UNCHANGED t
\* every call that was made returned, and the process lived
Accept == /\ i = Len(Events) /\ Cases[t].lived /\ i' = i + 1
          /\ PrintT(ToJson([case |-> Cases[t].id, failed |-> <<>>]))
          /\ UNCHANGED <<cvars, t>>
TNext == TStep \/ Accept
=============================================================================
