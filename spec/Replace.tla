------------------------------ MODULE Replace ------------------------------
(* C21: a file system, a store path in it with whatever is there already, and
   the steps by which a stream takes the path over: it removes what is there
   entry by entry, makes the directory and writes its keys.

   A path is a sequence of names. fs maps paths to nodes:
     [t |-> "dir", ..], [t |-> "file", i |-> inode], [t |-> "link", to |-> path]
   and data maps inodes to contents, so that two paths can be the same file. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Emit,        \* print the initial file systems
          MaxInside,   \* entries in what is at the store path
          Variant      \* "none", or a detail left out: "follow", "inplace", "keep", "sweep"

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Under(p, q) == IsPrefix(p, q)           \* q is p or below it
Last(p) == p[Len(p)]
Up(p) == SubSeq(p, 1, Len(p) - 1)

Dir == [t |-> "dir", i |-> 0, to |-> <<>>, locked |-> FALSE]
Locked == [Dir EXCEPT !.locked = TRUE]
File(i) == [t |-> "file", i |-> i, to |-> <<>>, locked |-> FALSE]
Link(p) == [t |-> "link", i |-> 0, to |-> p, locked |-> FALSE]

\* around the store path: siblings, some with similar names, and ways to the path
Around == << <<"adir">>, Dir, <<"adir", "f">>, File(1), <<"adir", "sub">>, Dir, <<"adir", "sub", "f">>, File(2),
             <<"adir", "zarr.json">>, File(6), <<"sib">>, File(3), <<"s.zarr2">>, Dir, <<"s.zarr2", "zarr.json">>, File(4),
             <<"s.zar">>, File(5), <<"alink">>, Link(<<"adir">>) >>
AroundPaths == {Around[2 * k - 1] : k \in 1..Len(Around) \div 2}
AroundAt(p) == CHOOSE n \in {Around[2 * k] : k \in {k \in 1..Len(Around) \div 2 : Around[2 * k - 1] = p}} : TRUE

\* where the store path leads and how it is given
Places == { [store |-> <<"s.zarr">>, given |-> "s.zarr", relative |-> FALSE],
            [store |-> <<"s.zarr">>, given |-> "s.zarr", relative |-> TRUE],
            [store |-> <<"s.zarr">>, given |-> "./s.zarr", relative |-> TRUE],
            [store |-> <<"s.zarr">>, given |-> "adir/../s.zarr", relative |-> FALSE],
            [store |-> <<"s.zarr">>, given |-> "s.zarr/", relative |-> TRUE],
            [store |-> <<"s.zarr">>, given |-> " ./s.zarr ", relative |-> TRUE],
            [store |-> <<"adir", "s.zarr">>, given |-> "adir/s.zarr", relative |-> FALSE],
            [store |-> <<"adir", "s.zarr">>, given |-> "adir//s.zarr// ", relative |-> FALSE],
            [store |-> <<"adir", "s.zarr">>, given |-> "alink/s.zarr", relative |-> FALSE],
            [store |-> <<"adir", "s.zarr">>, given |-> "alink/s.zarr", relative |-> TRUE] }

E(p, t, to) == [p |-> p, t |-> t, to |-> to]
\* what may be inside (p is a path below the store path)
Menu == { E(<<"0", ".zarray">>, "file", "stale"), E(<<"zarr.json">>, "file", "stale"), E(<<"0">>, "file", "in the way"),
          E(<<"c", "0", "0">>, "file", "stray"), E(<<"empty", "er">>, "dir", ""), E(<<".hidden">>, "file", "h"),
          E(<<"deep", "er", "est", "f">>, "file", "x"), E(<<"ld">>, "link", "adir"), E(<<"lf">>, "link", "sib"),
          E(<<"0">>, "link", "adir"), E(<<"meta">>, "link", "adir"), E(<<"zarr.json">>, "link", "adir/zarr.json"),
          E(<<"zarr.json">>, "hard", "sib"), E(<<"0", ".zarray">>, "hard", "adir/f"), E(<<"0", "c">>, "link", "adir"),
          E(<<"gone">>, "link", "nowhere"), E(<<"zarr.json">>, "readonly", ""), E(<<"self">>, "link", "s.zarr"),
          E(<<"locked">>, "locked", "") }
At == { [t |-> "none", to |-> ""], [t |-> "file", to |-> "plain"], [t |-> "hard", to |-> "sib"], [t |-> "link", to |-> "adir"],
        [t |-> "link", to |-> "sib"], [t |-> "link", to |-> "nowhere"], [t |-> "dir", to |-> ""], [t |-> "old", to |-> ""] }

Split(s) == CASE s = "adir" -> <<"adir">> [] s = "sib" -> <<"sib">> [] s = "adir/f" -> <<"adir", "f">>
              [] s = "adir/zarr.json" -> <<"adir", "zarr.json">> [] s = "nowhere" -> <<"nowhere">> [] s = "s.zarr" -> <<"s.zarr">>
NodeOf(e, fresh) == CASE e.t = "link" -> Link(Split(e.to))
                      [] e.t = "hard" -> AroundAt(Split(e.to))
                      [] e.t \in {"dir"} -> Dir
                      [] e.t = "locked" -> Locked
                      [] OTHER -> File(fresh)

VARIABLES place, at, inside,       \* the initial situation, chosen
          fs, data, fs0, data0,
          pc, left,                \* keys still to be written
          moves, here              \* does the process change its working directory; is it where it was
vars == <<place, at, inside, fs, data, fs0, data0, pc, left, moves, here>>

Store == place.store
\* what a stream writes (as far as this model cares)
Keys == {<<"zarr.json">>, <<"0", ".zarray">>, <<"meta", "0.json">>, <<"0", "c", "0">>}

\* one after the other, an entry replacing what is in its way; directories as needed
RECURSIVE Prefixes(_)
Prefixes(p) == IF Len(p) <= 1 THEN {} ELSE {Up(p)} \cup Prefixes(Up(p))
Place_(f, p, n) == LET kept == {q \in DOMAIN f : ~Under(p, q) /\ \A a \in Prefixes(p) : q # a}
                       mk == {a \in Prefixes(p) : Len(a) > 0}
                   IN  [q \in kept \cup mk \cup {p} |-> IF q = p THEN n ELSE IF q \in mk THEN Dir ELSE f[q]]
\* entries do not go below one another
Fits(es) == \A a \in es, b \in es : a # b => ~Under(a.p, b.p) /\ ~Under(b.p, a.p)
Start == [p \in AroundPaths |-> AroundAt(p)]
Content(i) == "content " \o ToString(i)

RECURSIVE WithAll(_, _, _)
WithAll(f, es, n) == IF es = {} THEN f
                     ELSE LET e == CHOOSE e \in es : TRUE
                          IN  WithAll(Place_(f, place.store \o e.p, NodeOf(e, n)), es \ {e}, n + 1)
OldKeys == {<<"zarr.json">>, <<"0", "c", "7">>, <<"1", "zarr.json">>}
WithOld(f) == LET s == place.store IN
    Place_(Place_(Place_(Place_(f, s, Dir), s \o <<"zarr.json">>, File(20)), s \o <<"0", "c", "7">>, File(21)), s \o <<"1", "zarr.json">>, File(22))

Init ==
    /\ place \in Places /\ at \in At
    /\ inside \in {x \in SUBSET Menu : Cardinality(x) <= MaxInside /\ Fits(x)}
    /\ at.t \notin {"dir", "old"} => inside = {}
    /\ LET base == CASE at.t = "none" -> Start
                     [] at.t = "dir" -> WithAll(Place_(Start, place.store, Dir), inside, 30)
                     [] at.t = "old" -> WithAll(WithOld(Start), inside, 30)
                     [] OTHER -> Place_(Start, place.store, NodeOf([p |-> <<>>] @@ at, 30))
       IN fs = base
    /\ data = [i \in 0..60 |-> Content(i)]
    /\ fs0 = fs /\ data0 = data /\ pc = "begin" /\ left = Keys
    /\ here = TRUE /\ moves \in (IF place.relative /\ inside = {} THEN BOOLEAN ELSE {FALSE})
    /\ Emit => PrintT("CASE" \o ToJson([place |-> place, at |-> at, inside |-> inside, moves |-> moves,
                                        around |-> {[p |-> p, node |-> AroundAt(p)] : p \in AroundPaths}]))

Inside(f) == {p \in DOMAIN f : Under(Store, p)}
\* with links followed: everything below what the links lead to is taken to be below them
Followed(f) == Inside(f) \cup UNION {{q \in DOMAIN f : f[p].to # <<>> /\ Under(f[p].to, q) /\ q # f[p].to} : p \in Inside(f)}
Doomed(f) == IF Variant = "follow" THEN Followed(f)
             ELSE IF Variant = "sweep"      \* everything whose name begins like the store's
             THEN {p \in DOMAIN f : /\ Len(p) >= Len(Store) /\ IsPrefix(Up(Store), p)
                                    /\ LET n == p[Len(Store)] m == Last(Store) IN Len(n) >= Len(m) /\ SubSeq(n, 1, Len(m)) = m}
             ELSE IF Variant = "keep" THEN {p \in Inside(f) : f[p].t # "dir"}
             ELSE Inside(f)
Leaf(f, p) == ~\E q \in DOMAIN f : q # p /\ Under(p, q)
Dangling == Store \in DOMAIN fs0 /\ fs0[Store].t = "link" /\ fs0[Store].to \notin DOMAIN fs0
LockedIn(f) == \E p \in Inside(f) : f[p].locked

Begin == /\ pc = "begin"
         /\ pc' = IF Dangling THEN "refused" ELSE IF Variant = "inplace" /\ Store \in DOMAIN fs /\ fs[Store].t = "dir" THEN "open" ELSE "clear"
         /\ UNCHANGED <<place, at, inside, fs, data, fs0, data0, left, moves, here>>
Remove == /\ pc = "clear"
          /\ \E p \in Doomed(fs) : Leaf(fs, p) /\ ~fs[p].locked
                /\ fs' = [q \in DOMAIN fs \ {p} |-> fs[q]]
          /\ UNCHANGED <<place, at, inside, data, fs0, data0, pc, left, moves, here>>
\* (what is in a directory without write permission cannot be removed)
Stuck == /\ pc = "clear" /\ LockedIn(fs) /\ {p \in Doomed(fs) : Leaf(fs, p) /\ ~fs[p].locked} = {}
         /\ pc' = "failed" /\ UNCHANGED <<place, at, inside, fs, data, fs0, data0, left, moves, here>>
Cleared == /\ pc = "clear" /\ Doomed(fs) = {}
           /\ pc' = "open" /\ fs' = (IF Store \in DOMAIN fs THEN fs ELSE fs @@ (Store :> Dir))
           /\ UNCHANGED <<place, at, inside, data, fs0, data0, left, moves, here>>
\* the place a path leads to, following links
RECURSIVE Real(_, _)
Real(f, p) == IF p = <<>> THEN p
              ELSE LET up == Real(f, Up(p)) q == Append(up, Last(p))
                   IN  IF q \in DOMAIN f /\ f[q].t = "link" THEN f[q].to ELSE q
\* (the path means what it meant when the stream was created)
Root == IF Variant = "late" /\ ~here THEN <<"adir">> \o Store ELSE Store
Write == /\ pc = "open"
         /\ \E k \in left :
              LET p == Real(fs, Root \o k)
                  dirs == {a \in Prefixes(p) : a \notin DOMAIN fs}
              IN  /\ left' = left \ {k}
                  /\ IF p \in DOMAIN fs /\ fs[p].t = "file"
                     THEN data' = [data EXCEPT ![fs[p].i] = "new"] /\ UNCHANGED fs
                     ELSE IF p \in DOMAIN fs THEN UNCHANGED <<fs, data>>
                     ELSE /\ fs' = [q \in DOMAIN fs \cup dirs \cup {p} |->
                                      IF q \in DOMAIN fs THEN fs[q] ELSE IF q = p THEN File(40 + Cardinality(left)) ELSE Dir]
                          /\ UNCHANGED data
         /\ pc' = IF left' = {} THEN "ready" ELSE pc
         /\ UNCHANGED <<place, at, inside, fs0, data0, moves, here>>
Move == /\ moves /\ here /\ pc = "open" /\ here' = FALSE
        /\ UNCHANGED <<place, at, inside, fs, data, fs0, data0, pc, left, moves>>
Next == Begin \/ Remove \/ Stuck \/ Cleared \/ Write \/ Move

\* nothing outside the store path changes, at any instant
See(f, d, p) == <<f[p].t, f[p].to, IF f[p].t = "file" THEN d[f[p].i] ELSE "">>
Outside(f) == {p \in DOMAIN f : ~Under(Store, p)}
Contained == /\ Outside(fs) = Outside(fs0)
             /\ \A p \in Outside(fs) : See(fs, data, p) = See(fs0, data0, p)
\* and what is inside then is new
AllNew == pc = "ready" => /\ Inside(fs) = UNION {{Store \o k} \cup {a \in Prefixes(Store \o k) : Under(Store, a)} : k \in Keys}
                          /\ \A p \in Inside(fs) : fs[p].t = "file" => fs[p].i >= 40
                          /\ \A p \in Inside(fs) : fs[p].t # "link"
NeverHalf == pc = "refused" => fs = fs0
=============================================================================
