---------------------------- MODULE DecToolTrace ----------------------------
(* Validates recorded runs of the decoding command.                          *)
(* got: [fail, out: the document printed or <<"none">>, refs: names printed, *)
(*       vals: <<name, value>> printed with them,                            *)
(*       quiet: nothing wrong was written next to it]                        *)
EXTENDS DecTool, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Set(q) == {q[k] : k \in 1..Len(q)}
Agrees(w, r, g) ==
  /\ g.fail = w.fail /\ g.quiet
  /\ IF w.fail THEN g.out = <<"none">>
     ELSE IF r.refs THEN Set(g.refs) = w.refs /\ DOMAIN w.vals = {g.vals[k][1] : k \in 1..Len(g.vals)}
                         /\ \A k \in 1..Len(g.vals) : SameJ(w.vals[g.vals[k][1]], g.vals[k][2])
     ELSE SameJ(w.out, g.out)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i].run
               w == TLCEval(Run(r))
           IN IF w.any THEN Emit([i |-> i, st |-> "any"])
              ELSE ~ Agrees(w, r, Recs[i].got) => Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
