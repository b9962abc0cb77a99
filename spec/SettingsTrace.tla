--------------------------- MODULE SettingsTrace ---------------------------
(* Judges recorded creations: [id, s (settings), ok (a stream was returned),
   how the process ended, before, after (what was at and around the store
   path, path -> content)]                                                  *)
EXTENDS Settings, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES t, done
TInit == t \in 1..Len(Cases) /\ done = FALSE
C == Cases[t]
Failed == (IF C.how # "ok" THEN {"process: " \o C.how} ELSE {})
          \cup (IF C.how = "ok" /\ Valid(C.s) /\ ~C.ok THEN {"valid settings refused"} ELSE {})
          \cup (IF C.how = "ok" /\ ~Valid(C.s) /\ C.ok THEN {"invalid settings accepted"} ELSE {})
          \cup (IF ~Valid(C.s) /\ C.before # C.after THEN {"rejection had effects"} ELSE {})
TNext == /\ ~done /\ done' = TRUE /\ t' = t
         /\ PrintT(ToJson([case |-> C.id, failed |-> Failed]))
=============================================================================
