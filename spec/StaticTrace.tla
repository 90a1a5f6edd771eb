----------------------------- MODULE StaticTrace ----------------------------
(* Records: [kind: "text", chars, ctx, got] and [kind: "json", node, ctx, got] *)
EXTENDS Static, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Set(q) == {q[k] : k \in 1..Len(q)}
Ok(w, g) == w = <<"any">> \/ w = g
Validate ==
  done => LET r == Recs[i] IN
    IF r.kind = "text"
    THEN LET w == TextSeen(r.chars, r.ctx) g == r.got IN
         IF w.st = "any" THEN Emit([i |-> i, st |-> "any"])
         ELSE IF w.path = g.path /\ w.an = g.an /\ Ok(w.pval, g.pval) /\ Ok(w.val, g.val) THEN TRUE
         ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
    ELSE IF ~JOpen(r.node) THEN Emit([i |-> i, st |-> "any"])
         ELSE LET w == JSeen(r.node, r.ctx) g == r.got IN
              IF Ok(w.lit, g.lit) /\ Ok(w.val, g.val) /\ w.an = g.an /\ Set(w.vars) = Set(g.vars) THEN TRUE
              ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
