---------------------------- MODULE UserFuncTrace ----------------------------
(* Validates recorded definitions and calls. Record: [ds, base, vars,        *)
(* caller, calls, got: [err, names, headers, outs]].                         *)
EXTENDS UserFunc, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Set(q) == {q[k] : k \in 1..Len(q)}
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i] IN
           IF Open(r.ds) THEN Emit([i |-> i, st |-> "any"])
           ELSE LET outs == TLCEval([k \in 1..Len(r.calls) |-> Out(CallIn(r.ds, r.base, r.vars, r.caller, r.calls[k]))]) IN
                IF r.got.err = Fails(r.ds) /\ Set(r.got.names) = Names(r.ds) /\ Len(r.got.outs) = Len(outs)
                   /\ \A k \in 1..Len(outs) : outs[k] = <<"any">> \/ outs[k] = r.got.outs[k]
                THEN TRUE
                ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> [err |-> Fails(r.ds), names |-> Names(r.ds), outs |-> outs]])
=============================================================================
