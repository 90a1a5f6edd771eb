------------------------------ MODULE PackTrace ------------------------------
(* Validates the positions of packed configurations.                         *)
(* Record: [items, fill, text, at: offset of the start, got: nodes]          *)
EXTENDS Place, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Times(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Times(s, s[j]) = Times(t, s[j])
Kept(ns) ==
  LET as == SelectSeq(ns, LAMBDA n : n[1] = "Attribute") IN
  SelectSeq(ns, LAMBDA n : n[1] \in {"Attribute", "name", "type", "label", "def"}) \o
  [k \in 1..Len(as) |-> LET e == ExprOf(ns, as[k]) IN <<"expr", e[2], e[3]>>]
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i]
               pl == TLCEval(Placed(r.items, r.fill))
               w == TLCEval(LET k == Kept(pl.nodes) IN [j \in 1..Len(k) |-> <<k[j][1], k[j][2] + r.at, k[j][3] + r.at>>])
           IN (pl.text # r.text \/ ~ SameBag(w, r.got)) => Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
