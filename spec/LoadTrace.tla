------------------------------- MODULE LoadTrace ----------------------------
(* Record: [chars, got]: a configuration and what the loaded file lists      *)
EXTENDS Load, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Set(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Eq(_, _)
Eq(w, g) ==
  /\ {<<w.attrs[k][1], Set(w.attrs[k][2])>> : k \in 1..Len(w.attrs)} = {<<g.attrs[k][1], Set(g.attrs[k][2])>> : k \in 1..Len(g.attrs)}
  /\ Len(w.blocks) = Len(g.blocks) /\ \A k \in 1..Len(w.blocks) : Eq(w.blocks[k], g.blocks[k])
Validate ==
  done => LET r == Recs[i] w == Loaded(r.chars) IN
          IF w[1] = "any" THEN Emit([i |-> i, st |-> "any"])
          ELSE IF w[1] = "ok" /\ r.valid THEN (IF Eq(w[2], r.got) THEN TRUE ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w]))
          ELSE IF w[1] = "err" /\ ~r.valid THEN TRUE
          ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
