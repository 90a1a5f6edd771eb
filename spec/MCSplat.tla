------------------------------- MODULE MCSplat -------------------------------
(* Every interleaving of a few evaluations; each becomes a schedule.         *)
EXTENDS Splat, Json, IOUtils, CSV
CONSTANT Shape
Rows == CASE Shape = "R22" -> <<2, 2>> [] Shape = "R2" -> <<2>> [] Shape = "R12" -> <<1, 2>> [] OTHER -> <<1>>
\* the rows of thread t are numbered so that all items differ, or all
\* threads have the same value (inherited from a common parent)
Val(t, same) == [r \in 1..Len(Rows) |-> [k \in 1..Rows[r] |-> (IF same THEN 0 ELSE 100 * t) + 10 * r + k]]
Init == \E same \in BOOLEAN : Init0([t \in Threads |-> Val(t, same)])
EmitCase == Done => CSVWrite("%1$s", <<ToJson([inner |-> Inner, sched |-> sched, vals |-> [t \in 1..Cardinality(Threads) |-> vals[t]], same |-> vals[1] = vals[2]])>>, IOEnv.OUT)
=============================================================================
