------------------------------ MODULE ConnPool ------------------------------
(* C12: what holders of connections may rely on.                             *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Conns, Threads
VARIABLES free,    \* connections in the pool
          held,    \* thread -> connections it holds (a set)
          want     \* threads asking for one
cvars == <<free, held, want>>
CInit == free = Conns /\ held = [t \in Threads |-> {}] /\ want = {}
Ask(t) == t \notin want /\ want' = want \cup {t} /\ UNCHANGED <<free, held>>
Take(t, c) == /\ t \in want /\ c \in free /\ free' = free \ {c} /\ want' = want \ {t}
              /\ held' = [held EXCEPT ![t] = @ \cup {c}]
Give(t, c) == /\ c \in held[t] /\ t \notin want /\ held' = [held EXCEPT ![t] = @ \ {c}]
              /\ free' = free \cup {c} /\ UNCHANGED want
CNext == \E t \in Threads : Ask(t) \/ \E c \in Conns : Take(t, c) \/ Give(t, c)
Exclusive == /\ \A t, u \in Threads : t # u => held[t] \cap held[u] = {}
             /\ \A t \in Threads : held[t] \cap free = {}
NoneLost == free \cup UNION {held[t] : t \in Threads} = Conns
=============================================================================
