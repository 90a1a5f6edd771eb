---------------------------- MODULE GrammarTrace ----------------------------
(* Validates what the real parser made of recorded token sequences.          *)
(* Record: [mode, toks, got: <<"ok", tree>> | <<"err">>]                     *)
EXTENDS Grammar, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Want(r) == LET x == Parse(r.mode, r.toks) IN IF x[1] THEN <<"ok", x[2]>> ELSE <<"err">>
Validate == done => LET r == Recs[i] w == Want(r) IN
                    IF w[1] = r.got[1] /\ (w[1] = "err" \/ w[2] = r.got[2]) THEN TRUE
                    ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
