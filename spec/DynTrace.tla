------------------------------ MODULE DynTrace ------------------------------
(* Validates what was recorded from bodies with dynamic blocks.            *)
(* What = "val": [spec, body, got: [v, e, pe]], the decoded expansion      *)
(* What = "vars": [spec, body, got: [walk, expand, after]]                 *)
EXTENDS Dec, Json, IOUtils, CSV
CONSTANT What

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

SeqSet(q) == {q[k] : k \in 1..Len(q)}
JudgeVal(r) ==
  LET h == DOpen(r.body)
      d == DecodeBody(h, r.spec, "content", <<>>, TRUE)
      p == DecodeBody(h, r.spec, "partial", <<>>, TRUE)
  IN IF d.any THEN [st |-> "any", want |-> <<>>]
     ELSE IF d.e # r.got.e \/ p.e # r.got.pe THEN [st |-> "bad", want |-> <<d.e, p.e, d.v>>]
     ELSE IF Fix(d.v) = Fix(r.got.v) THEN [st |-> "ok", want |-> <<>>]
     ELSE [st |-> "bad", want |-> d.v]
JudgeVars(r) ==
  LET h == Open(r.body)
      w == WalkBody(h, r.spec, {}, TRUE)
      x == WalkBody(h, r.spec, {}, FALSE)
      a == BodyVars(DOpen(r.body), r.spec)
  IN IF w.any \/ x.any \/ "?" \in w.n \cup a THEN [st |-> "any", want |-> <<>>]
     ELSE IF w.n # SeqSet(r.got.walk) \/ x.n # SeqSet(r.got.expand) \/ a # SeqSet(r.got.after) THEN [st |-> "bad", want |-> [walk |-> w.n, expand |-> x.n, after |-> a]]
     ELSE [st |-> "ok", want |-> <<>>]

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET c == IF What = "val" THEN JudgeVal(Recs[i]) ELSE JudgeVars(Recs[i]) IN
           IF c.st = "ok" THEN TRUE
           ELSE IF c.st = "any" THEN Emit([i |-> i, st |-> "any"])
           ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> c.want])
=============================================================================
