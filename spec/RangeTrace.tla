------------------------------ MODULE RangeTrace ------------------------------
(* Validates recorded scans and range operations: one step per piece.       *)
EXTENDS Range, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, at, pos
vars == <<i, k, at, pos>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Init == i \in 1..Len(Recs) /\ k = 0 /\ at = 1 /\ pos = Recs[i].start
Next ==
  LET R == Recs[i] IN
  \* R.pieces: characters to advance and characters in the piece; R.got: ranges
  /\ k < Len(R.pieces)
  /\ LET d == R.pieces[k + 1]
         e == Walk(R.chars, at, at + d[2], pos)
     IN IF k + 1 <= Len(R.got) /\ R.got[k + 1] = <<pos, e>> /\ (k + 1 = Len(R.pieces) => Len(R.got) = Len(R.pieces))
        THEN k' = k + 1 /\ at' = at + d[1] /\ pos' = Walk(R.chars, at, at + d[1], pos) /\ UNCHANGED i
        ELSE Emit([i |-> i, k |-> k + 1, st |-> "bad", want |-> <<pos, e>>]) /\ FALSE /\ UNCHANGED vars
=============================================================================
