------------------------------ MODULE DecTrace ------------------------------
(* Validates recorded decodings against Dec.                               *)
(* Record: [spec, body, got: [v, e, pe, ty, left, vars]]                   *)
EXTENDS Dec, Json, IOUtils, CSV
CONSTANT What   \* "val" or "vars"

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

SameVal(a, b) == Fix(a) = Fix(b)

SeqSet(q) == {q[k] : k \in 1..Len(q)}
Judge(r, pin) ==
  LET h == Open(r.body)
      d == DecodeBody(h, r.spec, "content", <<>>, pin)
      p == DecodeBody(h, r.spec, "partial", <<>>, pin)
      l == Left(h, r.spec)
  IN IF What = "vars" THEN
       (IF "?" \in BodyVars(h, r.spec) THEN [st |-> "any", want |-> <<>>]
        ELSE IF BodyVars(h, r.spec) = SeqSet(r.got.vars) THEN [st |-> "ok", want |-> <<>>] ELSE [st |-> "bad", want |-> BodyVars(h, r.spec)])
     ELSE IF d.any THEN [st |-> "any", want |-> <<>>]
     ELSE IF d.e # r.got.e \/ p.e # r.got.pe THEN [st |-> "bad", want |-> <<d.e, p.e, d.v>>]
     ELSE IF ~l.amb /\ (l.attrs # SeqSet(r.got.left.attrs) \/ l.rest # r.got.left.rest) THEN [st |-> "bad", want |-> l]
     ELSE IF SameVal(d.v, r.got.v) THEN [st |-> "ok", want |-> <<>>]
     ELSE [st |-> "bad", want |-> d.v]
Check(r) == LET c == Judge(r, FALSE) IN
            IF c.st = "bad" /\ r.pinned /\ Judge(r, TRUE).st # "bad" THEN [c EXCEPT !.st = "known"] ELSE c

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET c == Check(Recs[i]) IN
           IF c.st = "ok" THEN TRUE
           ELSE IF c.st = "any" THEN Emit([i |-> i, st |-> "any"])
           ELSE IF c.st = "known" THEN Emit([i |-> i, k |-> 1, st |-> "bad", key |-> "empty block map with several key labels", want |-> c.want])
           ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> c.want])
=============================================================================
