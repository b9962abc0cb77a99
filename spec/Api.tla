-------------------------------- MODULE Api --------------------------------
(* C20: the C interface as a machine: what each call returns and what it
   changes, for any order of calls and any missing or invalid argument.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES level,   \* log level
          dims,    \* entries of the settings' dimension array; -1: none
          filled,  \* the array holds dimensions that make valid settings
          stream,  \* "none" | "live"
          bytes,   \* bytes the live stream has accepted
          msgs     \* status messages seen so far: pairs of code and text
vars == <<level, dims, filled, stream, bytes, msgs>>

None == -1
Levels == 0..4
Codes == 0..9
Success == 0
InvalidArgument == 1

Init0 == /\ level = 4 /\ dims = None /\ filled = FALSE /\ stream = "none" /\ bytes = 0 /\ msgs = {}

\* each call: the state after it, and the result r it may have
SetLevel(l, r) ==
    /\ IF l \in Levels THEN r.st = Success /\ level' = l ELSE r.st = InvalidArgument /\ UNCHANGED level
    /\ UNCHANGED <<dims, filled, stream, bytes, msgs>>
Version == "0.0.1"      \* what the library is built with
GetLevel(r) == r.level = level /\ r.version = Version /\ UNCHANGED vars
Message(c, r) ==
    /\ r.text # ""
    /\ IF c \in Codes
       THEN /\ \A m \in msgs : (m[1] = c) <=> (m[2] = r.text)
            /\ msgs' = msgs \cup {<<c, r.text>>}
       ELSE UNCHANGED msgs
    /\ UNCHANGED <<level, dims, filled, stream, bytes>>
\* huge: more than can be allocated
NewDims(settings, n, huge, r) ==
    /\ IF ~settings \/ (n < 3 /\ ~huge)
       THEN r.st = InvalidArgument /\ UNCHANGED <<dims, filled>>
       ELSE IF huge THEN r.st # Success /\ UNCHANGED <<dims, filled>>
       ELSE r.st = Success /\ dims' = n /\ filled' = FALSE
    /\ UNCHANGED <<level, stream, bytes, msgs>>
DropDims(settings) ==
    /\ IF settings THEN dims' = None /\ filled' = FALSE ELSE UNCHANGED <<dims, filled>>
    /\ UNCHANGED <<level, stream, bytes, msgs>>
\* the caller writes dimensions into the array
Fill(good) == /\ dims # None /\ filled' = good /\ UNCHANGED <<level, dims, stream, bytes, msgs>>
Create(settings, r) ==
    /\ stream = "none"
    /\ r.ok = (settings /\ filled)
    /\ IF r.ok THEN stream' = "live" /\ bytes' = 0 ELSE UNCHANGED <<stream, bytes>>
    /\ UNCHANGED <<level, dims, filled, msgs>>
\* bytes_out is written only by a call that succeeds
Append_(given, data, out, n, r) ==
    /\ IF ~given \/ ~data \/ ~out
       THEN r.st = InvalidArgument /\ r.untouched /\ UNCHANGED bytes
       ELSE /\ stream = "live"
            /\ r.st = Success /\ r.out = n /\ bytes' = bytes + n
    /\ UNCHANGED <<level, dims, filled, stream, msgs>>
Destroy(given) ==
    /\ IF given THEN stream = "live" /\ stream' = "none" /\ UNCHANGED bytes ELSE UNCHANGED <<stream, bytes>>
    /\ UNCHANGED <<level, dims, filled, msgs>>
\* what the settings look like after any call; arrays: blocks of memory held
\* for dimension arrays, -1 where they are not counted
Settings_(s, d) == /\ s.null = (d = None) /\ s.count = (IF d = None THEN 0 ELSE d)
                   /\ s.arrays \in {-1, IF d = None THEN 0 ELSE 1}
=============================================================================
