---------------------------- MODULE TypeExprTrace ----------------------------
(* Records: [kind: "text", chars, got] and [kind: "type", t, got].           *)
EXTENDS TypeExpr, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Ok(w, g) == w[1] = "any" \/ (w[1] = "err" /\ g[1] = "err") \/ (w[1] = g[1] /\ SameType(w[2], g[2]))
Validate ==
  done => LET r == Recs[i] g == r.got IN
    IF r.kind = "type" THEN (IF g.text = Printed(r.t) /\ g.back THEN TRUE ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> Printed(r.t)]))
    ELSE LET w == TLCEval([type |-> Native(r.chars, TRUE), cons |-> Native(r.chars, FALSE), jtype |-> InJson(r.chars, TRUE), jcons |-> InJson(r.chars, FALSE)])
         IN IF w.cons[1] = "any" THEN Emit([i |-> i, st |-> "any"])
            ELSE IF Ok(w.type, g.type) /\ Ok(w.cons, g.cons) /\ Ok(w.jtype, g.jtype) /\ Ok(w.jcons, g.jcons) THEN TRUE
            ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
