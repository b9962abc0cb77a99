------------------------------- MODULE S3Sink -------------------------------
(* C13: an object written through a sink. Bytes arrive at the end of what was
   written; Part units make a full part; requests may fail. FailSticks = FALSE
   leaves out that a lost part is remembered.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Part, MaxBytes, FailSticks
VARIABLES given,     \* units handed to the sink so far
          buffered, upload, parts, failed, \* the sink
          object,    \* what is visible: sequence of units, or <<-1>> for none
          told,      \* some call reported failure
          lost,      \* some request failed
          phase      \* "open", "done"
vars == <<given, buffered, upload, parts, failed, object, told, lost, phase>>
None == <<-1>>
Init == /\ given = 0 /\ buffered = <<>> /\ upload = FALSE /\ parts = <<>> /\ failed = FALSE
        /\ object = None /\ told = FALSE /\ lost = FALSE /\ phase = "open"
RECURSIVE Flat(_)
Flat(p) == IF p = <<>> THEN <<>> ELSE Head(p) \o Flat(Tail(p))
\* pushing units into the buffer, a full buffer becomes a part; fail: number of the request that fails, 0 none
RECURSIVE Push(_, _)
Push(s, us) == IF us = <<>> \/ s.failed THEN s
               ELSE LET b == Append(s.b, Head(us))
                    IN IF Len(b) < Part THEN Push([s EXCEPT !.b = b], Tail(us))
                       ELSE IF ~s.up /\ s.fail = 1 THEN [s EXCEPT !.failed = TRUE, !.b = <<>>]
                       ELSE LET f == IF s.up THEN s.fail ELSE s.fail - 1
                            IN IF f = 1 THEN [s EXCEPT !.failed = TRUE, !.b = <<>>, !.up = TRUE, !.fail = 0]
                               ELSE Push([s EXCEPT !.b = <<>>, !.p = Append(@, b), !.up = TRUE, !.fail = f - 1], Tail(us))
Write(n, fail) ==
    /\ phase = "open" /\ given + n <= MaxBytes /\ given' = given + n
    /\ UNCHANGED <<object, phase>>
    /\ IF failed /\ FailSticks THEN told' = TRUE /\ UNCHANGED <<buffered, upload, parts, failed, lost>>
       ELSE LET s == Push([b |-> buffered, up |-> upload, p |-> parts, failed |-> FALSE, fail |-> fail],
                          [k \in 1..n |-> given + k])
            IN /\ buffered' = s.b /\ upload' = s.up /\ parts' = s.p /\ failed' = s.failed
               /\ told' = (told \/ s.failed) /\ lost' = (lost \/ s.failed)
Finish(fail) ==
    /\ phase = "open" /\ phase' = "done" /\ UNCHANGED <<given, failed>>
    /\ IF failed /\ FailSticks THEN told' = TRUE /\ UNCHANGED <<buffered, upload, parts, object, lost>>
       ELSE IF ~upload
       THEN /\ UNCHANGED <<upload, parts>> /\ buffered' = <<>>
            /\ IF buffered = <<>> THEN UNCHANGED <<object, told, lost>>
               ELSE IF fail = 1 THEN told' = TRUE /\ lost' = TRUE /\ UNCHANGED object
               ELSE object' = buffered /\ UNCHANGED <<told, lost>>
       ELSE LET p == IF buffered = <<>> THEN parts ELSE Append(parts, buffered)
                k == IF buffered = <<>> THEN 1 ELSE 2       \* requests needed
            IN /\ UNCHANGED upload /\ buffered' = <<>>
               /\ IF fail \in 1..k THEN told' = TRUE /\ lost' = TRUE /\ UNCHANGED <<object, parts>>
                  ELSE parts' = p /\ object' = Flat(p) /\ UNCHANGED <<told, lost>>
Next == (\E n \in 0..MaxBytes : \E f \in 0..3 : Write(n, f)) \/ \E f \in 0..2 : Finish(f)
Spec == Init /\ [][Next]_vars
Whole == object # None => object = [k \in 1..given |-> k]
Hidden == phase = "open" => object = None
Reported == lost /\ phase = "done" => told
Success == phase = "done" /\ ~told /\ given > 0 => object # None
Legal == \A k \in 1..(Len(parts) - 1) : Len(parts[k]) >= Part
=============================================================================
