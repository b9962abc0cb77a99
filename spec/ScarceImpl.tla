----------------------------- MODULE ScarceImpl -----------------------------
(* How a stream gets what it needs, one thing at a time, each of which may be
   refused: threads and a metadata sink when it is created; a buffer for every
   chunk with the first frame; for a layer that is full, a job per chunk, each
   of which gets a buffer of its own to compress into, on the workers, while the
   caller waits for all of them to count down; frames are kept in pairs for the
   next level. Implements Scarce, and no refusal ends the process, leaves a call
   waiting, or takes away data that no call reported. Omit: what is forgotten. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Workers, Chunks, PerLayer, Frames, Refusals, Omit

VARIABLES pc,       \* "idle", in a call: "threads", "meta", "frame", "buffers", "copy", "jobs", "wait", "end", "ret"
          call,     \* "create", "append", "destroy", "none"
          threads, meta, buffers,   \* held; buffers: how many chunks have one
          sized,    \* the set of buffers looks complete
          jobs,     \* chunk -> "no", "queued", "ok", "failed" (in this flush)
          inLayer,  \* frames in the layer
          accepted, stored, lost,   \* frames: acknowledged, in the store; whether any was dropped
          err,      \* the stream has failed
          n,        \* refusals in this call
          left,     \* refusals to come, at most
          dead,     \* the process ended
          phase, made, broken, blind
vars == <<pc, call, threads, meta, buffers, sized, jobs, inLayer, accepted, stored, lost, err, n, left, dead,
          phase, made, broken, blind>>
C == 1..Chunks
NoJobs == [c \in C |-> "no"]
Init == /\ pc = "idle" /\ call = "none" /\ threads = 0 /\ meta = 0 /\ buffers = 0 /\ sized = FALSE /\ jobs = NoJobs
        /\ inLayer = 0 /\ accepted = 0 /\ stored = 0 /\ lost = FALSE /\ err = FALSE /\ n = 0 /\ left = Refusals
        /\ dead = FALSE /\ phase = "new" /\ made = FALSE /\ broken = FALSE /\ blind = FALSE
Seen == <<phase, made, broken, blind>>
Data == <<inLayer, accepted, stored, lost>>
Begin(c, p) == pc = "idle" /\ ~dead /\ call' = c /\ pc' = p /\ n' = 0
Refuse == left > 0 /\ left' = left - 1 /\ n' = n + 1

Create == /\ phase = "new" /\ Begin("create", "threads")
          /\ UNCHANGED <<threads, meta, buffers, sized, jobs, Data, err, left, dead, Seen>>
Nothing == threads' = (IF Omit = "threads kept" THEN threads ELSE 0) /\ meta' = 0 /\ buffers' = 0 /\ sized' = FALSE
RetCreate(ok) == /\ pc' = "idle" /\ call' = "none" /\ made' = ok /\ phase' = (IF ok THEN "open" ELSE "gone")
                 /\ UNCHANGED <<broken, blind>>
GetThread == /\ pc = "threads" /\ ~dead
             /\ \/ /\ threads < Workers /\ threads' = threads + 1
                   /\ UNCHANGED <<pc, call, meta, buffers, sized, n, left, dead, Seen>>
                \/ /\ threads < Workers /\ Refuse
                   /\ IF Omit = "threads not joined" /\ threads > 0
                      THEN dead' = TRUE /\ UNCHANGED <<pc, call, threads, meta, buffers, sized, Seen>>
                      ELSE Nothing /\ RetCreate(FALSE) /\ UNCHANGED dead
                \/ /\ threads = Workers /\ pc' = "meta"
                   /\ UNCHANGED <<call, threads, meta, buffers, sized, n, left, dead, Seen>>
             /\ UNCHANGED <<jobs, Data, err>>
GetMeta == /\ pc = "meta" /\ ~dead
           /\ \/ /\ meta' = 1 /\ RetCreate(TRUE) /\ UNCHANGED <<threads, buffers, sized, n, left>>
              \/ /\ Refuse /\ Nothing /\ RetCreate(FALSE)
           /\ UNCHANGED <<jobs, Data, err, dead>>

\* a call of one frame
Append == /\ phase = "open" /\ accepted < Frames /\ Begin("append", "frame")
          /\ UNCHANGED <<threads, meta, buffers, sized, jobs, Data, err, left, dead, Seen>>
RetAppend(ok) == /\ pc' = "idle" /\ call' = "none" /\ broken' = (broken \/ ~ok)
                 /\ UNCHANGED <<phase, made, blind>>
Fails == /\ err' = (Omit # "not sticky") /\ RetAppend(FALSE)
Frame == /\ pc = "frame" /\ ~dead
         /\ IF err THEN RetAppend(FALSE) ELSE pc' = (IF sized THEN "copy" ELSE "buffers") /\ UNCHANGED <<call, Seen>>
         /\ UNCHANGED <<threads, meta, buffers, sized, jobs, Data, err, n, left, dead>>
\* (the number of chunks is there before their memory is)
GetBuffer == /\ pc = "buffers" /\ ~dead /\ sized' = TRUE
             /\ \/ /\ buffers < Chunks /\ buffers' = buffers + 1
                   /\ UNCHANGED <<pc, call, err, n, left, dead, Seen>>
                \/ /\ buffers < Chunks /\ Refuse /\ UNCHANGED buffers
                   /\ IF Omit = "buffers cannot fail" THEN dead' = TRUE /\ UNCHANGED <<pc, call, err, Seen>>
                      ELSE Fails /\ UNCHANGED dead
                \/ /\ buffers = Chunks /\ pc' = "copy" /\ UNCHANGED <<buffers, call, err, n, left, dead, Seen>>
             /\ UNCHANGED <<threads, meta, jobs, Data>>
\* copying into chunks that have no memory ends the process
Copy == /\ pc = "copy" /\ ~dead
        /\ IF buffers < Chunks THEN dead' = TRUE /\ UNCHANGED <<pc, call, Data, Seen>>
           ELSE /\ UNCHANGED dead
                /\ inLayer' = inLayer + 1
                /\ IF inLayer + 1 = PerLayer THEN pc' = "jobs" /\ UNCHANGED <<call, accepted, stored, lost, Seen>>
                   ELSE RetAppend(TRUE) /\ accepted' = accepted + 1 /\ UNCHANGED <<stored, lost>>
        /\ UNCHANGED <<threads, meta, buffers, sized, jobs, err, n, left>>
Push == /\ pc = "jobs" /\ ~dead /\ jobs' = [c \in C |-> "queued"] /\ pc' = "wait"
        /\ UNCHANGED <<call, threads, meta, buffers, sized, Data, err, n, left, dead, Seen>>
Work(c) == /\ pc = "wait" /\ ~dead /\ jobs[c] = "queued"
           /\ \/ jobs' = [jobs EXCEPT ![c] = "ok"] /\ UNCHANGED <<n, left, dead, lost>>
              \/ /\ Refuse
                 /\ CASE Omit = "job throws" -> dead' = TRUE /\ UNCHANGED <<jobs, lost>>
                      [] Omit = "no countdown" -> jobs' = [jobs EXCEPT ![c] = "gone"] /\ UNCHANGED <<dead, lost>>
                      [] Omit = "swallowed" -> jobs' = [jobs EXCEPT ![c] = "ok"] /\ lost' = TRUE /\ UNCHANGED dead
                      [] OTHER -> jobs' = [jobs EXCEPT ![c] = "failed"] /\ UNCHANGED <<dead, lost>>
           /\ UNCHANGED <<pc, call, threads, meta, buffers, sized, inLayer, accepted, stored, err, Seen>>
Flushed == /\ pc = "wait" /\ ~dead /\ \A c \in C : jobs[c] \in {"ok", "failed"}
           /\ jobs' = NoJobs /\ inLayer' = 0 /\ buffers' = 0 /\ sized' = FALSE
           /\ LET ok == \A c \in C : jobs[c] = "ok" IN
              /\ stored' = (IF ok THEN stored + inLayer ELSE stored)
              /\ IF call = "append"
                 THEN IF ok THEN RetAppend(TRUE) /\ accepted' = accepted + 1 /\ UNCHANGED err
                      ELSE Fails /\ UNCHANGED accepted
                 ELSE pc' = "end" /\ err' = (err \/ ~ok) /\ UNCHANGED <<call, accepted, Seen>>
           /\ UNCHANGED <<threads, meta, lost, n, left, dead>>
\* the end: what is in the layer, then everything is let go
Destroy == /\ phase = "open" /\ Begin("destroy", IF err \/ inLayer = 0 THEN "end" ELSE "jobs")
           /\ UNCHANGED <<threads, meta, buffers, sized, jobs, Data, err, left, dead, Seen>>
End == /\ pc = "end" /\ ~dead
       /\ \/ UNCHANGED <<n, left, err>>
          \/ Refuse /\ err' = TRUE      \* documents are written now
       /\ threads' = 0 /\ meta' = 0 /\ sized' = FALSE
       /\ buffers' = (IF Omit = "kept after failure" /\ err' THEN buffers ELSE 0)
       /\ pc' = "idle" /\ call' = "none" /\ phase' = "gone" /\ blind' = (n' > 0) /\ UNCHANGED <<made, broken>>
       /\ UNCHANGED <<jobs, Data, dead>>
Next == Create \/ GetThread \/ GetMeta \/ Append \/ Frame \/ GetBuffer \/ Copy \/ Push \/ (\E c \in C : Work(c)) \/ Flushed
        \/ Destroy \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

S == INSTANCE Scarce WITH heldy <- (phase = "open")
Unchanging == UNCHANGED Seen
\* every return is one of Scarce's
Implements == S!SInit /\ [][
    \/ Unchanging
    \/ \E ok \in BOOLEAN : S!CreateRet(n', ok)
    \/ \E ok \in BOOLEAN : S!AppendRet(n', ok)
    \/ S!DestroyRet(n')]_vars
Alive == ~dead
Released == phase = "gone" => threads = 0 /\ meta = 0 /\ buffers = 0
Whole == S!MustBeWhole => stored = accepted /\ ~lost
Returns == pc # "idle" ~> pc = "idle"
=============================================================================
