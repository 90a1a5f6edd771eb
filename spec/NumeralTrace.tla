---------------------------- MODULE NumeralTrace ----------------------------
(* Validates recorded comparisons and texts of numbers against Numeral.    *)
(* Record: [a, b: characters, eq, lt, gt: booleans, text: characters]      *)
EXTENDS Numeral, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i]
               x == TLCEval(NumOf(r.a))
               y == TLCEval(NumOf(r.b))
               c == CmpNum(x, y)
               w == [eq |-> c = 0, lt |-> c < 0, gt |-> c > 0, text |-> TextOf(x)]
           IN IF w = [eq |-> r.eq, lt |-> r.lt, gt |-> r.gt, text |-> r.text] THEN TRUE
              ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
