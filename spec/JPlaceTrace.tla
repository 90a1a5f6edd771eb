----------------------------- MODULE JPlaceTrace -----------------------------
(* Validates where the parts of JSON documents were read.                    *)
(* Record: [doc, fill, text, nl, got: [vals, names, refs, stat, args,         *)
(*   missing, blocks], ctx: <<<<position, text>>..>>]                                 *)
EXTENDS JPlace, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i]
               l == TLCEval(Laid(r.doc, r.fill))
               w == TLCEval(Seen(l.v, r.nl))
               off == {k \in 1..Len(r.ctx) : Context(l.v, r.ctx[k][1]) # r.ctx[k][2]}
           IN IF l.text # r.text THEN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> l.text])
              ELSE IF w # r.got THEN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> [x \in {x \in DOMAIN w : x \notin DOMAIN r.got \/ w[x] # r.got[x]} |-> w[x]]])
              ELSE off # {} => LET k == CHOOSE k \in off : TRUE IN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> <<r.ctx[k], Context(l.v, r.ctx[k][1])>>])
=============================================================================
