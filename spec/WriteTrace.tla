------------------------------ MODULE WriteTrace ----------------------------
(* Record: [file, ops, got]: got[k + 1] is [text, view] after k edits.       *)
EXTENDS Write, TLC, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, cur
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ k = 0 /\ cur = Recs[i].file
Next == k < Len(Recs[i].ops) /\ k' = k + 1 /\ cur' = Edit(cur, Recs[i].ops[k + 1]) /\ UNCHANGED i
Validate ==
  LET g == Recs[i].got[k + 1] w == [text |-> Text(cur), view |-> View(cur)] IN
  IF g = w THEN TRUE ELSE Emit([i |-> i, k |-> k, st |-> "bad", want |-> w])
=============================================================================
