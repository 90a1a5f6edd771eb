--------------------------------- MODULE Load -------------------------------
(* What a configuration text lists: names of arguments, each with the        *)
(* references of its expression, and blocks in order.                        *)
EXTENDS Static
RECURSIVE Lists(_)
Lists(b) ==
  [attrs |-> [i \in 1..Len(b[1]) |-> <<b[1][i][1], SetSeq(RF!Refs(Ast(b[1][i][2]), {}))>>],
   blocks |-> [i \in 1..Len(b[2]) |-> Lists(b[2][i][3])]]
Loaded(S) == LET f == FrontEnd(S, "body") IN IF f[1] # "ok" THEN <<f[1]>> ELSE <<"ok", Lists(f[2])>>
=============================================================================
