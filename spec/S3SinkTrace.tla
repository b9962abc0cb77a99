----------------------------- MODULE S3SinkTrace -----------------------------
(* C13 on recorded uses of the real sink: its calls, the requests the server
   received, and what was visible.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE t
Cases == JsonDeserialize(IOEnv.CASES)
MinPart == 5242880
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total(c) == Sum([k \in DOMAIN c.writes |-> c.writes[k].n])
AllOk(c) == c.fin /\ \A k \in DOMAIN c.writes : c.writes[k].ok
Data(c) == SelectSeq(c.log, LAMBDA r : r.op \in {"PutObject", "CreateUpload", "UploadPart", "CompleteUpload"})
Lost(c) == \E k \in DOMAIN c.log : ~c.log[k].ok /\ ~c.log[k].refused
\* requests against the rules of the service, without a failure to excuse them
Illegal(c) == ~Lost(c) /\ \E k \in DOMAIN c.log : c.log[k].refused
Put(c) == Len(Data(c)) = 1 /\ Data(c)[1].op = "PutObject" /\ Data(c)[1].size = Total(c)
Multi(c) == LET d == Data(c) n == Len(d) - 2
            IN /\ n >= 1 /\ d[1].op = "CreateUpload" /\ d[n + 2].op = "CompleteUpload" /\ d[n + 2].part = n
               /\ \A k \in 1..n : /\ d[k + 1].op = "UploadPart" /\ d[k + 1].part = k
                                  /\ k < n => d[k + 1].size >= MinPart
               /\ Sum([k \in 1..n |-> d[k + 1].size]) = Total(c)
Failed(c) == {a \in {"status", "unreported", "refused", "early", "object", "upload", "papered", "illegal"} :
    CASE a = "status" -> c.status # "ok"
      [] a = "unreported" -> c.status = "ok" /\ Lost(c) /\ AllOk(c)
      [] a = "refused" -> c.status = "ok" /\ ~Lost(c) /\ ~AllOk(c)
      [] a = "illegal" -> c.status = "ok" /\ Illegal(c)
      [] a = "early" -> \E k \in DOMAIN c.writes : c.writes[k].seen
      [] a = "object" -> /\ c.status = "ok" /\ AllOk(c)
                         /\ ~(IF Total(c) = 0 THEN c.size <= 0 ELSE c.size = Total(c) /\ c.same)
      [] a = "upload" -> /\ c.status = "ok" /\ AllOk(c) /\ ~Lost(c) /\ Total(c) > 0 /\ ~(Put(c) \/ Multi(c))
      [] a = "papered" -> /\ c.status = "ok" /\ (c.others > 0 \/ (c.size >= 0 /\ ~(c.size = Total(c) /\ c.same)))}
Init == t \in 1..Len(Cases) /\ PrintT(ToJson([case |-> Cases[t].id, failed |-> Failed(Cases[t])]))
Next == FALSE /\ UNCHANGED t
=============================================================================
