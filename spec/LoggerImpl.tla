----------------------------- MODULE LoggerImpl -----------------------------
(* The log as it is built: the level is read without the lock; the lock is
   held while the text is put together and handed to the stream, first the
   text, then the end of the line. Checked: it implements Logger and no line
   is ever broken. Locked = FALSE leaves the lock out; Shared = TRUE unlocks
   between putting the text together in a shared buffer and writing it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Messages, Locked, Shared
VARIABLES level, busy, pc, lock, buf, raw, out, err
vars == <<level, busy, pc, lock, buf, raw, out, err>>
L == INSTANCE Logger
\* raw: per stream, pieces: message numbers and 0 for an end of line
Streams == {"out", "err"}
To(m) == IF L!LevelOf(m) = 3 THEN "err" ELSE "out"
Init == /\ L!LInit(Threads) /\ pc = [t \in Threads |-> "idle"] /\ lock = "none" /\ buf = 0
        /\ raw = [s \in Streams |-> <<>>]
M(t) == busy[t].m
Call(t, m) == /\ pc[t] = "idle" /\ L!LogCall(t, m, L!LevelOf(m)) /\ pc' = [pc EXCEPT ![t] = "test"]
              /\ UNCHANGED <<lock, buf, raw>>
Test(t) == /\ pc[t] = "test" /\ L!Decide(t)
           /\ pc' = [pc EXCEPT ![t] = IF busy'[t].at = "yes" THEN "lock" ELSE "ret"]
           /\ UNCHANGED <<lock, buf, raw>>
Lock(t) == /\ pc[t] = "lock" /\ (Locked => lock = "none") /\ lock' = t
           /\ pc' = [pc EXCEPT ![t] = "text"] /\ UNCHANGED <<level, busy, buf, raw, out, err>>
Text(t) == /\ pc[t] = "text" /\ buf' = M(t) /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ lock' = (IF Shared THEN "none" ELSE lock)
           /\ UNCHANGED <<level, busy, raw, out, err>>
Write(t) == /\ pc[t] = "write" /\ raw' = [raw EXCEPT ![To(M(t))] = Append(@, IF Shared THEN buf ELSE M(t))]
            /\ pc' = [pc EXCEPT ![t] = "eol"] /\ UNCHANGED <<level, busy, lock, buf, out, err>>
Eol(t) == /\ pc[t] = "eol" /\ raw' = [raw EXCEPT ![To(M(t))] = Append(@, 0)]
          /\ L!Emit(t) /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<lock, buf>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = "none" /\ pc' = [pc EXCEPT ![t] = "ret"]
             /\ UNCHANGED <<level, busy, buf, raw, out, err>>
Ret(t) == /\ pc[t] = "ret" /\ \E b \in BOOLEAN : L!LogRet(t, b)
          /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<lock, buf, raw>>
Set(t) == /\ pc[t] = "idle" /\ UNCHANGED <<pc, lock, buf, raw>>
          /\ \/ \E l \in {0, 3, 4, 5} : L!SetCall(t, l)
             \/ L!SetTakes(t)
             \/ \E b \in BOOLEAN : L!SetRet(t, b)
Next == \E t \in Threads : \/ \E m \in Messages \ L!Used : busy[t] = L!Idle /\ Call(t, m)
                           \/ Test(t) \/ Lock(t) \/ Text(t) \/ Write(t) \/ Eol(t) \/ Unlock(t) \/ Ret(t) \/ Set(t)
Spec == Init /\ [][Next]_vars
Implements == L!LSpec
\* every line is one message: text and end of line alternate, and the lines are those of the specification
Whole == \A s \in Streams : \A k \in DOMAIN raw[s] : (raw[s][k] = 0) <=> (k % 2 = 0)
Same == \A s \in Streams : LET ls == [k \in 1..(Len(raw[s]) \div 2) |-> raw[s][2 * k - 1]]
                           IN ls = (IF s = "out" THEN out ELSE err)
=============================================================================
