------------------------------- MODULE Scarce -------------------------------
(* C27: calls of one stream when memory for a buffer or a thread for the pool
   can be refused at any moment. What a caller sees: whether each call failed,
   and - at the end - what is stored and what is still held. n: how many times
   something was refused while the call was made.                            *)
EXTENDS Integers

VARIABLES phase,   \* "new", "open", "gone"
          broken,  \* an append failed
          made,    \* the stream existed
          blind,   \* something was refused to the call that ends the stream, which cannot say so
          heldy    \* whether the stream holds anything
svars == <<phase, broken, made, blind, heldy>>

SInit == phase = "new" /\ broken = FALSE /\ made = FALSE /\ blind = FALSE /\ heldy = FALSE
\* (what is refused may be got by without)
CreateRet(n, ok) ==
    /\ phase = "new" /\ (~ok => n > 0)
    /\ phase' = (IF ok THEN "open" ELSE "gone") /\ made' = ok /\ heldy' = ok
    /\ UNCHANGED <<broken, blind>>
AppendRet(n, ok) ==
    /\ phase = "open" /\ (broken => ~ok) /\ (~ok => n > 0 \/ broken)
    /\ broken' = (broken \/ ~ok)
    /\ UNCHANGED <<phase, made, blind, heldy>>
DestroyRet(n) ==
    /\ phase = "open" /\ phase' = "gone" /\ heldy' = FALSE
    /\ blind' = (n > 0)
    /\ UNCHANGED <<broken, made>>
\* an array of dimensions for settings that have one (same: they still have it, as it was)
DimsRet(n, ok, same) == (~ok => n > 0 /\ same) /\ (ok => ~same) /\ UNCHANGED svars
\* the store has to be complete if no call had a way to say that it is not
MustBeWhole == phase = "gone" /\ made /\ ~broken /\ ~blind

SNext == \/ \E n \in 0..2, ok \in BOOLEAN : CreateRet(n, ok) \/ AppendRet(n, ok)
         \/ \E n \in 0..2 : DestroyRet(n)
SSpec == SInit /\ [][SNext]_svars
StickyBroken == [][broken => broken']_svars
HoldsNothing == phase # "open" => ~heldy
=============================================================================
