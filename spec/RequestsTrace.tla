---------------------------- MODULE RequestsTrace ----------------------------
(* C28: recorded requests of the real connection against Requests. Cases: id,
   ops (the operations), got (per call: told, requests made, the objects after
   it as bucket/name -> sequence of contents)                                *)
EXTENDS Requests, Json, IOUtils
VARIABLES t, i, failed
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[t]
tvars == <<objs, ups, t, i, failed>>
TInit == RInit /\ t \in 1..Len(Cases) /\ i = 1 /\ failed = {}
Key(p) == p[1] \o "/" \o p[2]
There == {p \in DOMAIN objs : objs[p] # None}
Wrong(o, g) ==
    (IF g.told \in Told(o) THEN {} ELSE {o.op \o " tells " \o g.told})
    \cup (IF g.reqs \in Requests(o) THEN {} ELSE {o.op \o ": requests made"})
After(g) == IF /\ DOMAIN g.objs = {Key(p) : p \in There'} \cup {""}
               /\ \A p \in There' : g.objs[Key(p)] = objs'[p]
            THEN {} ELSE {"objects"}
Take == /\ i <= Len(C.got)
        /\ Effect(C.ops[i], i)
        /\ failed' = failed \cup Wrong(C.ops[i], C.got[i]) \cup
             {IF a = "objects" THEN C.ops[i].op \o ": objects" ELSE a : a \in After(C.got[i])}
        /\ i' = i + 1 /\ UNCHANGED t
End == /\ i = Len(C.got) + 1 /\ i' = i + 1 /\ UNCHANGED <<objs, ups, t, failed>>
       /\ PrintT(ToJson([case |-> C.id, failed |-> failed \cup (IF C.status # "ok" THEN {"status " \o C.status} ELSE {})
                                                  \cup (IF C.status = "ok" /\ Len(C.got) # Len(C.ops) THEN {"calls missing"} ELSE {})]))
TNext == Take \/ End
=============================================================================
