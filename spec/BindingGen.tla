---------------------------- MODULE BindingGen ----------------------------
(* Programs that use the Python binding: views made step by step and appended,
   streams created and dropped, the log level set. The model holds what each
   stream was given and what the C interface received, by a binding that hands
   over a view's elements in C order (Mode = "exact"), or the memory that
   begins where the view does ("raw"), or that memory where the view is one
   piece of memory in some order ("dense").                                 *)
EXTENDS Binding, Json
CONSTANTS Mode, Depth, Emit, MaxExtent, MaxAxes, MaxElements, MaxSteps

VARIABLES streams, given, received, ops, view, block, steps, level, kind
vars == <<streams, given, received, ops, view, block, steps, level, kind>>
None == [off |-> -1, shape |-> <<>>, strides |-> <<>>]

Init == /\ streams = <<>> /\ given = <<>> /\ received = <<>> /\ ops = <<>> /\ view = None /\ block = 0
        /\ steps = 0 /\ level = "INFO" /\ kind = ""
Log(o) == ops' = IF Emit THEN Append(ops, o) ELSE Append(ops, o.op)

\* ---- settings to choose from
Pick(S) == IF Emit THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Coin(p) == Emit /\ RandomElement(1..100) <= p
Some(s, p) == [m \in {m \in DOMAIN s : Coin(p)} |-> s[m]]
Texts == {"", "a", "store.zarr", "unicode", "with space", "http://localhost:9000", "x\\y", "quo\"te", "long-" \o "0123456789012345678901234567890123456789"}
Sizes == {"0", "1", "2", "64", "65536", "2147483648", "4294967295"}
Small == {"0", "1", "5", "9", "128", "255"}
ADimension(x) == Some([name |-> Pick(Texts), kind |-> Pick(Kinds), array_size_px |-> Pick(Sizes),
                    chunk_size_px |-> Pick(Sizes), shard_size_chunks |-> Pick(Sizes)], 80)
Settings(x) ==
    Some([store_path |-> Pick(Texts), custom_metadata |-> Pick(Texts),
          s3 |-> Some([endpoint |-> Pick(Texts), bucket_name |-> Pick(Texts), access_key_id |-> Pick(Texts),
                       secret_access_key |-> Pick(Texts)], 80),
          compression |-> Some([compressor |-> Pick(Compressors), codec |-> Pick(Codecs), level |-> Pick(Small),
                                shuffle |-> Pick(Small)], 80),
          dimensions |-> [i \in 1..Pick(0..5) |-> ADimension(i)],
          multiscale |-> Pick(BOOLEAN), data_type |-> Pick(DataTypes), version |-> Pick(Versions)], 75)

Create(refuse) ==
    /\ LET s == Settings(ops) IN
       Log([op |-> "create", s |-> s, refuse |-> refuse,
            how |-> Pick({"keywords", "properties", "later", "vector"})])
    /\ IF refuse THEN UNCHANGED <<streams, given, received>>
       ELSE /\ streams' = Append(streams, "live") /\ given' = Append(given, <<>>)
            /\ received' = Append(received, <<>>)
    /\ UNCHANGED <<view, block, steps, level>>
Drop(k) ==
    /\ streams[k] = "live" /\ streams' = [streams EXCEPT ![k] = "dropped"] /\ Log([op |-> "drop", k |-> k])
    /\ UNCHANGED <<given, received, view, block, steps, level>>
SetLevel(l, fails) ==
    /\ Log([op |-> "level", l |-> l, fails |-> fails]) /\ level' = IF fails THEN level ELSE l
    /\ UNCHANGED <<streams, given, received, view, block, steps>>
GetLevel == Log([op |-> "getlevel"]) /\ UNCHANGED <<streams, given, received, view, block, steps, level>>

\* ---- views
Shapes == UNION {[1..n -> 1..MaxExtent] : n \in 1..MaxAxes}
Start == /\ view = None /\ steps' = 0
         /\ \E n \in 1..MaxAxes : \E sh \in (IF Emit THEN {[i \in 1..n |-> Pick(1..MaxExtent)]} ELSE [1..n -> 1..MaxExtent]) :
              /\ Product(sh) <= MaxElements /\ view' = Whole(sh) /\ block' = Product(sh)
         /\ UNCHANGED <<streams, given, received, ops, level>>
\* (all in a check, one in a program)
One(S) == IF Emit /\ S # {} THEN {RandomElement(S)} ELSE S
Slices == {<<a, b, st, n>> \in Axes(view) \X (0..(MaxExtent - 1)) \X {1, 2, 3, -1, -2} \X (0..MaxExtent) :
              /\ n <= view.shape[a] /\ b < view.shape[a]
              /\ n > 0 => b + st * (n - 1) \in 0..(view.shape[a] - 1)
              /\ n = 0 => b = 0 /\ st = 1}
Change == /\ view # None /\ steps < MaxSteps /\ steps' = steps + 1
          /\ \/ \E x \in One(Slices) : view' = Slice(view, x[1], x[2], x[3], x[4])
             \/ \E x \in One(Axes(view) \X Axes(view)) : x[1] < x[2] /\ view' = Swap(view, x[1], x[2])
             \/ \E a \in One(Axes(view)) : \E i \in One(0..(view.shape[a] - 1)) : view' = Select(view, a, i)
             \/ \E a \in One(1..(Len(view.shape) + 1)) : Len(view.shape) < MaxAxes + 1 /\ view' = NewAxis(view, a)
             \/ \E a \in One(1..(Len(view.shape) + 1)), n \in {2, 3} : Len(view.shape) < MaxAxes + 1 /\ view' = Repeat(view, a, n)
             \/ \E a \in One(1..(Len(view.shape) - 1)) : view' = Diagonal(view, a)
          /\ Size(view') <= MaxElements
          /\ UNCHANGED <<streams, given, received, ops, block, level>>
Dense(v) == \* its elements are Size consecutive ones, in some order, beginning with the first
    LET e == Elements(v) IN {e[k] : k \in DOMAIN e} = v.off..(v.off + Size(v) - 1)
Sent(v) == CASE Mode = "exact" -> Elements(v) [] Mode = "raw" -> Raw(v)
             [] Mode = "dense" -> IF Dense(v) THEN Raw(v) ELSE Elements(v)
Give(k, fails) ==
    /\ view # None /\ streams[k] = "live"
    /\ LET t == Pick(DataTypes) IN
       Log([op |-> "append", k |-> k, v |-> view, block |-> block, dtype |-> t, fails |-> fails])
    /\ IF fails \/ Emit THEN UNCHANGED <<given, received>>
       ELSE given' = [given EXCEPT ![k] = @ \o Elements(view)] /\ received' = [received EXCEPT ![k] = @ \o Sent(view)]
    /\ view' = None /\ block' = 0 /\ steps' = 0 /\ UNCHANGED <<streams, level>>

Live == {k \in 1..Len(streams) : streams[k] = "live"}
Do(w) == CASE w = "create" -> Cardinality(Live) < (IF Emit THEN 3 ELSE 1) /\ view = None /\ \E r \in BOOLEAN : Create(r)
           [] w = "drop" -> \E k \in One(Live) : Drop(k)
           [] w = "level" -> \E l \in One(Levels), f \in One(BOOLEAN) : SetLevel(l, f)
           [] w = "getlevel" -> GetLevel
           [] w = "change" -> Start \/ Change
           [] w = "append" -> \E k \in One(Live), f \in One(BOOLEAN) : Give(k, f)
\* a program first chooses the kind of step, often one of those named twice
Choices == IF Live = {} THEN <<"create", "create", "create", "level">>
           ELSE IF view = None THEN <<"change", "change", "change", "change", "change", "change", "create", "drop", "level", "getlevel">>
           ELSE IF steps < MaxSteps THEN <<"change", "change", "change", "append">> ELSE <<"append">>
Next == /\ Len(ops) < Depth
        /\ IF Emit
           THEN IF kind = "" THEN \E i \in DOMAIN Choices : kind' = Choices[i] /\ UNCHANGED <<streams, given, received, ops, view, block, steps, level>>
                ELSE \/ Do(kind) /\ kind' = ""
                     \/ kind' = "" /\ UNCHANGED <<streams, given, received, ops, view, block, steps, level>>
           ELSE \E w \in {"create", "change", "append"} : Do(w) /\ UNCHANGED kind
Stop == /\ Emit /\ Len(ops) = Depth /\ PrintT("CASE" \o ToJson([ops |-> ops]))
        /\ ops' = Append(ops, [op |-> "end"])
        /\ UNCHANGED <<streams, given, received, view, block, steps, level, kind>>
SpecNext == Next \/ Stop

\* ---- what holds
\* (the last appended are compared through the view at hand, before it is given)
Exact == received = given
InBlock == view # None => LET e == TLCEval(Elements(view)) IN \A k \in DOMAIN e : e[k] \in 0..(block - 1)
ContiguousIsRaw == view # None /\ Contiguous(view) => Elements(view) = Raw(view)
View == <<view, block, steps, received = given, Len(ops), Len(streams)>>
=============================================================================
