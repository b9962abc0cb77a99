------------------------------ MODULE ApiGen ------------------------------
(* Orders of calls, for the driver. The calls' results are those of Api; the
   model invariants are the contract as a caller would put it. A step first
   chooses the kind of call, so that kinds with few arguments are as likely. *)
EXTENDS Api, Json
CONSTANTS Depth, Emit
Asked == IF Emit THEN (-1)..11 \cup {77} ELSE {-1, 0, 9, 10}   \* status codes asked for
VARIABLES ops, ndims, changed, refused, kind
gvars == <<vars, ops, ndims, changed, refused, kind>>

Kinds == {"set", "get", "msg", "newdims", "huge", "dropdims", "fill", "spoil", "create", "append", "append2", "append3", "destroy", "setup"}
GInit == Init0 /\ ops = <<>> /\ ndims \in {3, 4, 5} /\ changed = FALSE /\ refused = FALSE /\ kind = "setup"

Do(o, act, ref) ==
    /\ act
    /\ ops' = IF Emit THEN Append(ops, o) ELSE ops
    /\ refused' = ref /\ changed' = (vars' # vars) /\ UNCHANGED ndims
Text(c) == ToString(c)
Amounts == {"zero", "one", "part", "frame", "many"}
New(g, n) == Do([op |-> "newdims", n |-> n, given |-> g], NewDims(g, n, FALSE, [st |-> IF g /\ n >= 3 THEN Success ELSE InvalidArgument]),
                ~g \/ n < 3)
App(s, d, o, a) == Do([op |-> "append", given |-> s, data |-> d, out |-> o, amount |-> a],
                      Append_(s, d, o, 0, [st |-> IF s /\ d /\ o THEN Success ELSE InvalidArgument, untouched |-> TRUE, out |-> 0]),
                      ~(s /\ d /\ o))
Call ==
    CASE kind = "set" -> \E l \in {-1, 0, 1, 2, 3, 4, 5, 99} :
            Do([op |-> "set", n |-> l], SetLevel(l, [st |-> IF l \in Levels THEN Success ELSE InvalidArgument]), l \notin Levels)
      [] kind = "get" -> Do([op |-> "get", n |-> 0], GetLevel([level |-> level, version |-> Version]), FALSE)
      [] kind = "msg" -> \E c \in Asked : Do([op |-> "msg", n |-> c], Message(c, [text |-> Text(c)]), FALSE)
      [] kind = "newdims" -> \E n \in {0, 1, 2, 3, ndims, 7}, g \in BOOLEAN : New(g, n)
      [] kind = "huge" -> Do([op |-> "newdims", n |-> -1, given |-> TRUE], NewDims(TRUE, 0, TRUE, [st |-> 6]), TRUE)
      [] kind = "dropdims" -> \E g \in BOOLEAN : Do([op |-> "dropdims", given |-> g], DropDims(g), FALSE)
      [] kind = "fill" -> dims = ndims /\ Do([op |-> "fill", good |-> TRUE], Fill(TRUE), FALSE)
      \* (a dimension array nobody has written to is not for ZarrStream_create)
      [] kind = "spoil" -> dims # None /\ Do([op |-> "fill", good |-> FALSE], Fill(FALSE), FALSE)
      [] kind = "create" -> stream = "none" /\ \E g \in BOOLEAN : Do([op |-> "create", given |-> g], Create(g, [ok |-> g /\ filled]), ~(g /\ filled))
      \* what a caller would normally do
      [] kind = "setup" ->
            IF stream = "live" THEN \E a \in Amounts : App(TRUE, TRUE, TRUE, a)
            ELSE IF dims # ndims THEN New(TRUE, ndims)
            ELSE IF ~filled THEN Do([op |-> "fill", good |-> TRUE], Fill(TRUE), FALSE)
            ELSE Do([op |-> "create", given |-> TRUE], Create(TRUE, [ok |-> TRUE]), FALSE)
      [] kind \in {"append", "append2", "append3"} ->
            \E s, d, o \in BOOLEAN, a \in Amounts : (s => stream = "live") /\ App(s, d, o, a)
      [] kind = "destroy" -> \E g \in BOOLEAN : (g => stream = "live") /\ Do([op |-> "destroy", given |-> g], Destroy(g), FALSE)
      [] OTHER -> FALSE
GNext ==
    /\ Len(ops) < Depth
    /\ \/ kind = "" /\ kind' \in Kinds /\ UNCHANGED <<vars, ops, ndims, changed, refused>>
       \/ kind # "" /\ Call /\ kind' = ""
       \/ kind \in {"fill", "spoil", "create"} /\ ~ENABLED Call /\ kind' = "setup" /\ UNCHANGED <<vars, ops, ndims, changed, refused>>
Stop == /\ Emit /\ Len(ops) = Depth
        /\ PrintT("CASE" \o ToJson([ndims |-> ndims, ops |-> ops]))
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<vars, ndims, changed, refused, kind>>
GSpecNext == GNext \/ Stop
RefusedUnchanged == refused => ~changed
Sane == /\ filled => dims = ndims
        /\ level \in Levels
        /\ dims = None \/ dims >= 3
=============================================================================
