----------------------------- MODULE Isolation -----------------------------
(* C22: several streams in one process. Each gathers pixels into its own
   layer, flushes the layer with jobs of its own pool and remembers its own
   failure; the process-wide things (the log, the environment) carry nothing
   from one to the other. Alone: what a stream's caller and its store see is
   what the stream run by itself would give.

   Shared names what is (wrongly) common to the streams; with {} the machine
   is the one the library has to be.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Streams, MaxAppends, LayerSize, Failing, Shared
VARIABLES pc,      \* "new" | "idle" | "copy" | "flush" | "done"
          buf,     \* the layer being gathered
          store,   \* what has been written
          error,   \* remembered failure
          calls,   \* results returned so far
          pool     \* is the pool running
vars == <<pc, buf, store, error, calls, pool>>

First == CHOOSE s \in Streams : TRUE
Of(s, what) == IF what \in Shared THEN First ELSE s

Init == /\ pc = [s \in Streams |-> "new"] /\ buf = [s \in Streams |-> <<>>]
        /\ store = [s \in Streams |-> <<>>] /\ error = [s \in Streams |-> FALSE]
        /\ calls = [s \in Streams |-> <<>>] /\ pool = [s \in Streams |-> FALSE]

Create(s) == /\ pc[s] = "new" /\ pc' = [pc EXCEPT ![s] = "idle"]
             /\ pool' = [pool EXCEPT ![Of(s, "pool")] = TRUE]
             /\ UNCHANGED <<buf, store, error, calls>>
Appended(s) == Len(calls[s])
AppendBegin(s) ==
    /\ pc[s] = "idle" /\ Appended(s) < MaxAppends
    /\ IF error[Of(s, "error")]
       THEN calls' = [calls EXCEPT ![s] = Append(@, "refused")] /\ UNCHANGED <<pc>>
       ELSE pc' = [pc EXCEPT ![s] = "copy"] /\ UNCHANGED calls
    /\ UNCHANGED <<buf, store, error, pool>>
Copy(s) ==
    /\ pc[s] = "copy"
    /\ buf' = [buf EXCEPT ![Of(s, "buffer")] = Append(@, <<s, Appended(s)>>)]
    /\ IF Len(buf'[Of(s, "buffer")]) >= LayerSize
       THEN pc' = [pc EXCEPT ![s] = "flush"] /\ UNCHANGED calls
       ELSE pc' = [pc EXCEPT ![s] = "idle"] /\ calls' = [calls EXCEPT ![s] = Append(@, "ok")]
    /\ UNCHANGED <<store, error, pool>>
Flush(s) ==
    /\ pc[s] = "flush" /\ pc' = [pc EXCEPT ![s] = "idle"]
    /\ IF s \in Failing \/ ~pool[Of(s, "pool")]
       THEN /\ error' = [error EXCEPT ![Of(s, "error")] = TRUE]
            /\ calls' = [calls EXCEPT ![s] = Append(@, "failed")]
            /\ UNCHANGED <<store, buf>>
       ELSE /\ store' = [store EXCEPT ![s] = @ \o buf[Of(s, "buffer")]]
            /\ buf' = [buf EXCEPT ![Of(s, "buffer")] = <<>>]
            /\ calls' = [calls EXCEPT ![s] = Append(@, "ok")]
            /\ UNCHANGED error
    /\ UNCHANGED pool
Destroy(s) ==
    /\ pc[s] = "idle" /\ Appended(s) = MaxAppends /\ pc' = [pc EXCEPT ![s] = "done"]
    /\ IF error[Of(s, "error")] THEN UNCHANGED store
       ELSE store' = [store EXCEPT ![s] = @ \o buf[Of(s, "buffer")]]
    /\ buf' = [buf EXCEPT ![Of(s, "buffer")] = <<>>]
    /\ pool' = [pool EXCEPT ![Of(s, "pool")] = FALSE]
    /\ UNCHANGED <<error, calls>>
Next == \E s \in Streams : Create(s) \/ AppendBegin(s) \/ Copy(s) \/ Flush(s) \/ Destroy(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the results and the store of a stream by itself
AloneCalls(s) == [k \in 1..MaxAppends |->
                    IF s \notin Failing \/ k < LayerSize THEN "ok" ELSE IF k = LayerSize THEN "failed" ELSE "refused"]
AloneStore(s) == IF s \in Failing /\ MaxAppends >= LayerSize THEN <<>>
                 ELSE [k \in 1..MaxAppends |-> <<s, k - 1>>]
Alone == \A s \in Streams :
    /\ \A k \in 1..Len(calls[s]) : calls[s][k] = AloneCalls(s)[k]
    /\ pc[s] = "done" => store[s] = AloneStore(s)
Ends == <>(\A s \in Streams : pc[s] = "done")
=============================================================================
