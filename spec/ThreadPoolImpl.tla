--------------------------- MODULE ThreadPoolImpl ---------------------------
(* The pool as it is built - one mutex, one condition variable, a queue and a
   flag - with every interleaving of its steps, spurious wakeups included.
   Checked: it implements ThreadPool, and every wait for stop and destruction
   ends. The constants name the details that matter, so that leaving one out
   can be seen to break it.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Jobs, Workers,
          Main,          \* what the user does: sequence of "push", "wait" (for all its jobs), "stop", "drop"
          NotifyOnPush, NotifyAllOnStop, StopUnderLock, Recheck

VARIABLES lock,      \* holder of the mutex: a thread or none
          queue, accepting,
          waiting,   \* threads in cv.wait, not notified
          pc, cur,   \* per thread; cur: the job a worker holds
          at,        \* where the user is in Main
          finished,  \* jobs whose effects the user has seen
          hist       \* ghost: what PInit.. calls taken, running, owed, done, dropped, calls, stop, drop
ivars == <<lock, queue, accepting, waiting, pc, cur, at, finished, hist>>
U == "user"
Threads == Workers \cup {U}
NoJob == 0

Init == /\ lock = "none" /\ queue = <<>> /\ accepting = TRUE /\ waiting = {}
        /\ pc = [t \in Threads |-> IF t = U THEN "idle" ELSE "lock"]
        /\ cur = [t \in Threads |-> NoJob]
        /\ at = 1 /\ finished = {}
        /\ hist = [taken |-> {}, running |-> {}, owed |-> {}, done |-> {}, dropped |-> {},
                   calls |-> [j \in {} |-> "call"], stop |-> "no", drop |-> "no"]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Free == lock = "none"
Wake(S) == waiting' = waiting \ S

-----------------------------------------------------------------------------
(* The user *)
Op == IF at <= Len(Main) THEN Main[at] ELSE "end"
NextJob == CHOOSE j \in Jobs : /\ \A i \in 1..(at - 1) : TRUE
                               /\ j = Cardinality({i \in 1..at : Main[i] = "push"})
UPush == /\ pc[U] = "idle" /\ Op = "push" /\ Go(U, "pushlock")
         /\ hist' = [hist EXCEPT !.calls = @ @@ (NextJob :> "call")]
         /\ UNCHANGED <<lock, queue, accepting, waiting, cur, at, finished>>
UPushLock == /\ pc[U] = "pushlock" /\ Free /\ lock' = U
             /\ IF accepting
                THEN /\ queue' = Append(queue, NextJob) /\ Go(U, "pushnotify")
                     /\ hist' = [hist EXCEPT !.calls[NextJob] = "yes"]
                ELSE /\ UNCHANGED queue /\ Go(U, "pushunlock")
                     /\ hist' = [hist EXCEPT !.calls[NextJob] = "no"]
             /\ UNCHANGED <<accepting, waiting, cur, at, finished>>
UPushNotify == /\ pc[U] = "pushnotify" /\ Go(U, "pushunlock")
               /\ IF NotifyOnPush /\ waiting # {} THEN \E w \in waiting : Wake({w}) ELSE UNCHANGED waiting
               /\ UNCHANGED <<lock, queue, accepting, cur, at, finished, hist>>
UPushUnlock == /\ pc[U] = "pushunlock" /\ lock' = "none" /\ Go(U, "idle") /\ at' = at + 1
               /\ hist' = [hist EXCEPT !.calls = [j \in DOMAIN @ \ {NextJob} |-> @[j]]]
               /\ UNCHANGED <<queue, accepting, waiting, cur, finished>>
\* the user waits for what it has pushed (a latch in the jobs)
UWait == /\ pc[U] = "idle" /\ Op = "wait"
         /\ \A j \in 1..Cardinality({i \in 1..at : Main[i] = "push"}) : j \in finished
         /\ at' = at + 1
         /\ UNCHANGED <<lock, queue, accepting, waiting, pc, cur, finished, hist>>

UStop == /\ pc[U] = "idle" /\ Op \in {"stop", "drop"}
         /\ IF Op = "stop" THEN /\ Go(U, IF StopUnderLock THEN "stoplock" ELSE "stopset")
                                /\ hist' = [hist EXCEPT !.stop = "call"]
            ELSE Go(U, "clear") /\ hist' = [hist EXCEPT !.drop = "call"]
         /\ UNCHANGED <<lock, queue, accepting, waiting, cur, at, finished>>
UClear == /\ pc[U] = "clear" /\ Free          \* takes the lock, empties, releases
          /\ queue' = <<>> /\ Go(U, IF StopUnderLock THEN "stoplock" ELSE "stopset")
          /\ hist' = [hist EXCEPT !.dropped = @ \cup {queue[k] : k \in DOMAIN queue}]
          /\ UNCHANGED <<lock, accepting, waiting, cur, at, finished>>
UStopLock == /\ pc[U] = "stoplock" /\ Free /\ lock' = U /\ Go(U, "stopset")
             /\ UNCHANGED <<queue, accepting, waiting, cur, at, finished, hist>>
UStopSet == /\ pc[U] = "stopset" /\ accepting' = FALSE /\ Go(U, "stopnotify")
            /\ hist' = IF Op = "stop" THEN [hist EXCEPT !.stop = "set"] ELSE [hist EXCEPT !.drop = "set"]
            /\ UNCHANGED <<lock, queue, waiting, cur, at, finished>>
UStopNotify == /\ pc[U] = "stopnotify" /\ Go(U, "join")
               /\ IF waiting = {} THEN UNCHANGED waiting
                  ELSE IF NotifyAllOnStop THEN waiting' = {} ELSE \E w \in waiting : Wake({w})
               /\ lock' = (IF lock = U THEN "none" ELSE lock)
               /\ UNCHANGED <<queue, accepting, cur, at, finished, hist>>
UJoin == /\ pc[U] = "join" /\ \A w \in Workers : pc[w] = "exit"
         /\ Go(U, "idle") /\ at' = at + 1
         /\ hist' = IF Op = "stop" THEN [hist EXCEPT !.stop = "done"] ELSE [hist EXCEPT !.drop = "done"]
         /\ UNCHANGED <<lock, queue, accepting, waiting, cur, finished>>
User == UPush \/ UPushLock \/ UPushNotify \/ UPushUnlock \/ UWait \/ UStop \/ UClear \/ UStopLock
          \/ UStopSet \/ UStopNotify \/ UJoin

-----------------------------------------------------------------------------
(* A worker *)
Stop == ~accepting /\ queue = <<>>
WLock(w) == /\ pc[w] = "lock" /\ Free /\ lock' = w /\ Go(w, "test")
            /\ UNCHANGED <<queue, accepting, waiting, cur, at, finished, hist>>
WTest(w) == /\ pc[w] = "test" /\ lock = w
            /\ Go(w, IF Stop \/ queue # <<>> THEN "act" ELSE "sleep")
            /\ UNCHANGED <<lock, waiting, queue, accepting, cur, at, finished, hist>>
WSleep(w) == /\ pc[w] = "sleep" /\ Go(w, "asleep") /\ waiting' = waiting \cup {w} /\ lock' = "none"
             /\ UNCHANGED <<queue, accepting, cur, at, finished, hist>>
WWake(w) == /\ pc[w] = "asleep" /\ w \notin waiting /\ Free /\ lock' = w
            /\ Go(w, IF Recheck THEN "test" ELSE "act")
            /\ UNCHANGED <<queue, accepting, waiting, cur, at, finished, hist>>
Spurious(w) == /\ w \in waiting /\ Wake({w})
               /\ UNCHANGED <<lock, queue, accepting, pc, cur, at, finished, hist>>
WAct(w) == /\ pc[w] = "act" /\ lock = w /\ lock' = "none"
           /\ IF Stop THEN Go(w, "exit") /\ UNCHANGED <<queue, cur, hist>>
              ELSE IF queue = <<>> THEN Go(w, "lock") /\ UNCHANGED <<queue, cur, hist>>
              ELSE /\ cur' = [cur EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ Go(w, "begin")
                   /\ hist' = [hist EXCEPT !.taken = @ \cup {Head(queue)}]
           /\ UNCHANGED <<accepting, waiting, at, finished>>
WBegin(w) == /\ pc[w] = "begin" /\ Go(w, "run")
             /\ hist' = [hist EXCEPT !.taken = @ \ {cur[w]}, !.running = @ \cup {cur[w]}]
             /\ UNCHANGED <<lock, queue, accepting, waiting, cur, at, finished>>
WRun(w) == /\ pc[w] = "run" /\ finished' = finished \cup {cur[w]}
           /\ \/ Go(w, "lock") /\ hist' = [hist EXCEPT !.running = @ \ {cur[w]}, !.done = @ \cup {cur[w]}]
              \/ Go(w, "call") /\ hist' = [hist EXCEPT !.running = @ \ {cur[w]}, !.owed = @ \cup {cur[w]}]
           /\ UNCHANGED <<lock, queue, accepting, waiting, cur, at>>
WCall(w) == /\ pc[w] = "call" /\ Go(w, "lock")
            /\ hist' = [hist EXCEPT !.owed = @ \ {cur[w]}, !.done = @ \cup {cur[w]}]
            /\ UNCHANGED <<lock, queue, accepting, waiting, cur, at, finished>>
Worker(w) == WLock(w) \/ WTest(w) \/ WSleep(w) \/ WWake(w) \/ WAct(w) \/ WBegin(w) \/ WRun(w) \/ WCall(w)

Next == User \/ \E w \in Workers : Worker(w) \/ Spurious(w)
Spec == Init /\ [][Next]_ivars /\ SF_ivars(User) /\ \A w \in Workers : SF_ivars(Worker(w))

P == INSTANCE ThreadPool WITH q <- queue, taken <- hist.taken, running <- hist.running, owed <- hist.owed,
       done <- hist.done, dropped <- hist.dropped, calls <- hist.calls, acc <- accepting,
       stop <- hist.stop, drop <- hist.drop
\* emptying the queue drops its jobs one after the other
Many == /\ hist.drop = "call" /\ hist'.drop = "call" /\ queue' = <<>>
        /\ hist' = [hist EXCEPT !.dropped = @ \cup {queue[k] : k \in DOMAIN queue}]
        /\ UNCHANGED accepting
Implements == P!PInit /\ [][P!PNext \/ Many]_(P!pvars)
Invariant == P!Once /\ P!AtOnce /\ P!AllRun /\ P!Silent /\ P!NoDropWithoutDestruction
Ends == <>(at > Len(Main))

MainA == <<"push", "push", "wait", "push", "stop", "push", "drop">>
MainB == <<"push", "push", "push", "drop">>
MainC == <<"push", "wait", "stop", "drop">>
MainD == <<"drop">>
=============================================================================
