--------------------------- MODULE BindingTrace ---------------------------
(* Judges recorded programs: [id, how (the process ended), steps], a step being
   [o (what the program did), r (what became of it), calls (calls of the C
   interface it caused), back (members read back from a settings object)]   *)
EXTENDS Binding, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, at, live, level, failed, over
vars == <<t, at, live, level, failed, over>>
\* live: number of the program's stream -> number of the C interface's
TInit == t \in 1..Len(Cases) /\ at = 1 /\ live = <<>> /\ level = "INFO" /\ failed = {} /\ over = FALSE
C == Cases[t]
E == C.steps[at]
Only(calls, c) == SelectSeq(calls, LAMBDA x : x.c = c)
Rest(calls, c) == SelectSeq(calls, LAMBDA x : x.c # c)
RECURSIVE All(_)
All(calls) == IF calls = <<>> THEN <<>> ELSE Head(calls).bytes \o All(Tail(calls))
Fail(b, w) == IF b THEN {} ELSE {w}

\* settings read back: every member that was given, and nothing where it is optional and was not
RECURSIVE Back(_, _)
Back(s, b) == \A m \in DOMAIN s :
    m \in DOMAIN b /\ (IF m \in {"s3", "compression"} THEN Back(s[m], b[m])
                       ELSE IF m = "dimensions" THEN Len(b[m]) = Len(s[m]) /\ \A i \in 1..Len(s[m]) : Back(s[m][i], b[m][i])
                       ELSE b[m] = s[m])
Optional == {"custom_metadata", "s3", "compression"}

OnCreate(o) ==
    LET made == Only(E.calls, "create") IN
    /\ failed' = failed
         \cup Fail(Len(made) = 1 /\ Rest(E.calls, "create") = <<>>, "a stream not created by one call")
         \cup Fail(\A i \in 1..Len(made) : \A m \in DOMAIN Request(o.s) : made[i][m] = Request(o.s)[m], "settings not those given")
         \cup Fail(E.r = (IF o.refuse THEN "RuntimeError" ELSE "active"), "creation not answered as it went")
         \cup Fail(Back(o.s, E.back) /\ \A m \in Optional \ DOMAIN o.s : m \notin DOMAIN E.back, "settings not read back")
    /\ live' = IF o.refuse THEN live ELSE Append(live, IF Len(made) > 0 THEN made[1].id ELSE -1)
    /\ level' = level
OnAppend(o) ==
    LET want == TLCEval(Bytes(TLCEval(Elements(o.v)), TypeSize[o.dtype]))
        got == TLCEval(All(Only(E.calls, "append"))) IN
    /\ failed' = failed
         \cup Fail(IF o.fails THEN got = SubSeq(want, 1, Len(got)) ELSE got = want, "not the array's elements in C order")
         \cup Fail(Rest(E.calls, "append") = <<>>, "other calls than appends")
         \cup Fail(\A i \in 1..Len(E.calls) : E.calls[i].id = live[o.k], "another stream")
         \cup Fail(E.r = (IF o.fails THEN "RuntimeError" ELSE "None") \/ (Len(want) = 0 /\ E.calls = <<>> /\ E.r = "None"),
                   "append not answered as it went")
         \cup Fail(E.same, "the array was changed")
    /\ UNCHANGED <<live, level>>
OnDrop(o) ==
    /\ failed' = failed \cup Fail(Len(E.calls) = 1 /\ E.calls[1].c = "destroy" /\ E.calls[1].id = live[o.k], "not destroyed once")
    /\ UNCHANGED <<live, level>>
OnLevel(o) ==
    /\ failed' = failed
         \cup Fail(Len(E.calls) = 1 /\ E.calls[1].c = "set_level" /\ E.calls[1].level = o.l, "log level not passed on")
         \cup Fail(E.r = (IF o.fails THEN "RuntimeError" ELSE "None"), "log level not answered as it went")
    /\ level' = IF o.fails THEN level ELSE o.l
    /\ live' = live
OnGetLevel == failed' = failed \cup Fail(E.r = level /\ E.calls = <<>>, "log level not read") /\ UNCHANGED <<live, level>>
Step == /\ at <= Len(C.steps) /\ at' = at + 1 /\ t' = t /\ over' = over
        /\ CASE E.o.op = "create" -> OnCreate(E.o)
             [] E.o.op = "append" -> OnAppend(E.o)
             [] E.o.op = "drop" -> OnDrop(E.o)
             [] E.o.op = "level" -> OnLevel(E.o)
             [] E.o.op = "getlevel" -> OnGetLevel
Done == /\ at > Len(C.steps) /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([case |-> C.id, failed |-> failed \cup Fail(C.how = "ok", "process: " \o C.how)]))
        /\ UNCHANGED <<t, at, live, level, failed>>
TNext == Step \/ Done
=============================================================================
