---------------------------- MODULE ReplaceTrace ----------------------------
(* C21: what was recorded around a real stream against what Replace allows.
   Cases: id, store (real path of the store, relative to the box), box and s3
   before and after as maps from path to what is there, touched and reqs (what
   was changed in between, in order), ref (paths below the store path of the
   same stream run where nothing was), created, onfs, may (creation may be
   refused), complete (the stream was ended without a failure).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, i, failed
C == Cases[t]
Under(root, p) == \/ p = root
                  \/ /\ Len(p) > Len(root) /\ SubSeq(p, 1, Len(root)) = root
                     /\ SubSeq(p, Len(root) + 1, Len(root) + 1) = "/"
\* where the stream may change things
Mine(p) == C.onfs /\ Under(C.store, p)
MineS3(p) == ~C.onfs /\ Under("bucket/s.zarr", p) /\ p # "bucket/s.zarr"
Writes == {"PutObject", "CreateUpload", "UploadPart", "CompleteUpload", "AbortUpload", "RemoveObject", "RemoveObjects"}
Same(a, b, mine(_)) == /\ {p \in DOMAIN a : ~mine(p)} = {p \in DOMAIN b : ~mine(p)}
                       /\ \A p \in DOMAIN a : ~mine(p) => b[p] = a[p]

Init == t \in 1..Len(Cases) /\ i = 0 /\ failed = {}
\* every single change is within the store
Touch == /\ i < Len(C.touched) + Len(C.reqs)
         /\ LET bad == IF i < Len(C.touched) THEN ~Mine(C.touched[i + 1].path)
                       ELSE LET r == C.reqs[i - Len(C.touched) + 1] IN r.what \in Writes /\ ~MineS3(r.path)
            IN failed' = IF bad THEN failed \cup {"changed something outside the store"} ELSE failed
         /\ i' = i + 1 /\ UNCHANGED t
Verdict == failed
    \cup (IF Same(C.before, C.after, Mine) THEN {} ELSE {"outside of the store differs"})
    \cup (IF Same(C.s3before, C.s3after, MineS3) THEN {} ELSE {"other objects differ"})
    \cup (IF C.created \/ C.may THEN {} ELSE {"creation refused"})
    \cup (IF C.complete => \A p \in DOMAIN C.after : Mine(p) /\ p # C.store => SubSeq(p, Len(C.store) + 2, Len(p)) \in {C.ref[k] : k \in 1..Len(C.ref)}
          THEN {} ELSE {"old content left"})
    \cup (IF C.complete /\ C.onfs => \A k \in 1..Len(C.ref) : C.ref[k] = "." \/ (C.store \o "/" \o C.ref[k]) \in DOMAIN C.after
          THEN {} ELSE {"keys missing"})
End == /\ i = Len(C.touched) + Len(C.reqs) /\ i' = i + 1 /\ UNCHANGED <<t, failed>>
       /\ PrintT(ToJson([case |-> C.id, failed |-> Verdict]))
Next == Touch \/ End
=============================================================================
