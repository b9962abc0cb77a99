----------------------------- MODULE Resources -----------------------------
(* C24: what a stream holds. Frames pass through the levels of the pyramid (each
   level keeps the first frame of a pair until the second comes), each level
   collects frames to chunk layers, keeps a layer's files open for as long as
   shards have layers to come, and lets go of everything when it ends - also
   when something failed on the way, and when creation fails half-way.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Levels,    \* of the pyramid
          Chunk,     \* frames in a chunk layer
          Shard,     \* layers in a shard
          Files,     \* files of a layer
          Workers,   \* threads of the pool
          Streams,   \* how many streams, one after the other
          Omit       \* "none" or what is forgotten

VARIABLES state,     \* "none" | "making" | "live" | "failed" | "gone"
          threads, conns, meta,   \* pool, connections, metadata sinks
          held,      \* level -> frames kept for the next level (0 or 1, unless leaking)
          filled,    \* level -> frames in the layer buffer
          layer,     \* level -> layers in the open shard
          open,      \* level -> files open
          jobs,      \* buffers of jobs that have not ended
          todo,      \* level at which a frame has yet to be delivered, 0: none
          left       \* streams to come
vars == <<state, threads, conns, meta, held, filled, layer, open, jobs, todo, left>>
L == 1..Levels
Zero == [l \in L |-> 0]

Init == state = "none" /\ threads = 0 /\ conns = 0 /\ meta = 0 /\ held = Zero /\ filled = Zero /\ layer = Zero
        /\ open = Zero /\ jobs = 0 /\ todo = 0 /\ left = Streams

\* creation, a part at a time; each may be the one that fails
Make == /\ state = "none" /\ left > 0 /\ left' = left - 1
        /\ state' = "making" /\ threads' = threads + Workers
        /\ UNCHANGED <<conns, meta, held, filled, layer, open, jobs, todo>>
Connect == /\ state = "making" /\ conns = 0 /\ conns' = Workers
           /\ UNCHANGED <<state, threads, meta, held, filled, layer, open, jobs, todo, left>>
OpenMeta == /\ state = "making" /\ meta = 0 /\ meta' = 1
            /\ UNCHANGED <<state, threads, conns, held, filled, layer, open, jobs, todo, left>>
Made == /\ state = "making" /\ meta = 1 /\ state' = "live"
        /\ UNCHANGED <<threads, conns, meta, held, filled, layer, open, jobs, todo, left>>
Release == /\ threads' = IF Omit = "join" /\ state = "failed" THEN threads ELSE 0
           /\ conns' = 0
           /\ meta' = IF Omit = "metadata" /\ state = "making" THEN meta ELSE 0
           /\ held' = IF Omit = "levels" THEN held ELSE Zero
           /\ open' = IF Omit = "failed finish" /\ state = "failed" THEN open ELSE Zero
           /\ filled' = Zero /\ layer' = Zero /\ jobs' = 0 /\ todo' = 0
MakingFails == state = "making" /\ Release /\ state' = "none" /\ UNCHANGED left

\* a frame reaches level l: into its layer, and on to the next level with its pair
Frame == /\ state = "live" /\ todo = 0 /\ todo' = 1
          /\ UNCHANGED <<state, threads, conns, meta, held, filled, layer, open, jobs, left>>
Deliver == /\ state = "live" /\ todo > 0
           /\ filled[todo] < Chunk
           /\ filled' = [filled EXCEPT ![todo] = @ + 1]
           /\ IF todo = Levels THEN UNCHANGED held /\ todo' = 0
              ELSE IF held[todo] % 2 = 0 THEN held' = [held EXCEPT ![todo] = @ + 1] /\ todo' = 0
              ELSE held' = [held EXCEPT ![todo] = IF Omit = "pair" THEN @ + 1 ELSE @ - 1] /\ todo' = todo + 1
           /\ UNCHANGED <<state, threads, conns, meta, layer, open, jobs, left>>
Flush(l) == /\ state = "live" /\ filled[l] = Chunk
            /\ filled' = [filled EXCEPT ![l] = 0]
            /\ LET last == layer[l] + 1 = Shard
               IN  /\ open' = [open EXCEPT ![l] = IF last /\ Omit # "close" THEN 0 ELSE IF Omit = "reopen" THEN @ + Files
                                                  ELSE IF Omit = "close" /\ layer[l] = 0 THEN @ + Files ELSE IF Omit = "close" THEN @ ELSE Files]
                   /\ layer' = [layer EXCEPT ![l] = IF last THEN 0 ELSE @ + 1]
            /\ UNCHANGED <<state, threads, conns, meta, held, jobs, todo, left>>
FlushFails(l) == /\ state = "live" /\ filled[l] = Chunk /\ state' = "failed"
                 /\ \E some \in 0..Files : open' = [open EXCEPT ![l] = IF @ = 0 THEN some ELSE @]
                 /\ UNCHANGED <<threads, conns, meta, held, filled, layer, jobs, todo, left>>
Destroy == /\ state \in {"live", "failed"} /\ Release /\ state' = "none" /\ UNCHANGED left
\* destroying finishes what is open, which may fail too
DestroyFails == /\ state = "live" /\ state' = "failed" /\ UNCHANGED <<threads, conns, meta, held, filled, layer, open, jobs, todo, left>>
Next == \/ Make \/ Connect \/ OpenMeta \/ Made \/ MakingFails \/ Frame \/ Deliver \/ Destroy \/ DestroyFails
        \/ \E l \in L : Flush(l) \/ FlushFails(l)

Bounded == \A l \in L : held[l] <= 1 /\ open[l] <= Files /\ filled[l] <= Chunk
BoundedThreads == threads <= Workers /\ conns <= Workers
Released == state = "none" => threads = 0 /\ conns = 0 /\ meta = 0 /\ held = Zero /\ open = Zero /\ filled = Zero /\ jobs = 0
\* (stops the variants that grow without end)
Small == \A l \in L : held[l] < 4 /\ open[l] <= 3 * Files
=============================================================================
