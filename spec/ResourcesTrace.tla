-------------------------- MODULE ResourcesTrace --------------------------
(* C24: recorded measurements against Resources: what a stream holds between
   periods of its layout is the same every time, and after every stream the
   process holds what it held before it. A case: id, cycles; a cycle: created,
   failed (calls that failed), samples [at, fds, threads, blocks, bytes, peak];
   base and warm say from which cycle and period on measurements count (the
   first ones set up things that stay), kind and slack what is compared.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, i, failed
C == Cases[t]
Init == t \in 1..Len(Cases) /\ i = 0 /\ failed = {}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Periods(c) == {k \in 1..Len(c.samples) : c.samples[k].at = "period"}
\* of the periods that count, the least in the first and in the last third
Third(S) == Cardinality(S) \div 3
Early(c) == LET P == {k \in Periods(c) : k > C.warm} IN {k \in P : k < MinOf(P) + Third(P)}
Late(c) == LET P == {k \in Periods(c) : k > C.warm} IN {k \in P : k > MaxOf(P) - Third(P)}
Least(c, K, f(_)) == MinOf({f(c.samples[k]) : k \in K})
Most(c, K, f(_)) == MaxOf({f(c.samples[k]) : k \in K})
Fds(s) == s.fds
Threads(s) == s.threads
Blocks(s) == s.blocks
Bytes(s) == s.bytes
Peak(s) == s.peak
Long(c) == Cardinality(Periods(c)) >= C.warm + 6 /\ c.failed = 0
Grows(c, f(_), slack) == Least(c, Late(c), f) > Most(c, Early(c), f) + slack
During(c) == IF ~Long(c) THEN {}
             ELSE (IF Grows(c, Fds, 0) THEN {"open files grow"} ELSE {})
             \cup (IF Grows(c, Threads, 0) THEN {"threads grow"} ELSE {})
             \cup (IF Grows(c, Blocks, 2) THEN {"allocations grow"} ELSE {})
             \cup (IF Grows(c, Bytes, 512) THEN {"memory grows"} ELSE {})
             \cup (IF Least(c, Late(c), Peak) > 2 * Most(c, Early(c), Peak) + 4096 THEN {"memory in use grows"} ELSE {})
End(c) == c.samples[Len(c.samples)]
\* the same stream again and again: nothing is left that was not after the first
Ends == {k \in 1..Len(C.cycles) : k >= C.base}
Leaks(f(_)) == \A a, b \in Ends : a < b => f(End(C.cycles[a])) < f(End(C.cycles[b]))
After == IF Cardinality(Ends) < 3 THEN {}
         ELSE LET f == MinOf(Ends) l == MaxOf(Ends) IN
              (IF Fds(End(C.cycles[l])) > Fds(End(C.cycles[f])) THEN {"files left open"} ELSE {})
         \cup (IF Threads(End(C.cycles[l])) > Threads(End(C.cycles[f])) THEN {"threads left"} ELSE {})
         \cup (IF Leaks(Blocks) THEN {"allocations left"} ELSE {})
         \cup (IF Leaks(Bytes) THEN {"memory left"} ELSE {})
Step == /\ i < Len(C.cycles) /\ failed' = failed \cup During(C.cycles[i + 1]) /\ i' = i + 1 /\ UNCHANGED t
Done == /\ i = Len(C.cycles) /\ i' = i + 1 /\ UNCHANGED <<t, failed>>
        /\ PrintT(ToJson([case |-> C.id, failed |-> failed \cup After]))
Next == Step \/ Done
=============================================================================
