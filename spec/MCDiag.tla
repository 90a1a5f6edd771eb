------------------------------- MODULE MCDiag -------------------------------
(***************************************************************************)
(* What = "print": every text up to N characters with every subject and    *)
(* context in it; "list": every history of N additions to a collection.    *)
(*   Kept: a collection keeps everything added, in order.                  *)
(*   Whole: joining the printed lines without marks gives source lines.    *)
(***************************************************************************)
EXTENDS Diag, Json, IOUtils, CSV
CONSTANTS What, N

Chars == {"a", "\n", "\r\n", "<e2>", "\r"}
D(sev, sum, det, subj, ctx) == [sev |-> sev, sum |-> sum, det |-> det, subj |-> subj, ctx |-> ctx]
ListPool == {D("error", "one", <<<<"x", "y">>>>, <<1, 2>>, <<>>), D("warning", "two", <<>>, <<2, 5>>, <<>>), D("error", "three", <<<<"z">>, <<"w">>>>, <<>>, <<>>)}
ListText == <<"a", "b", "\n", "c", "d">>

VARIABLES s, ops
vars == <<s, ops>>
Init == ops = <<>> /\ s = IF What = "list" THEN ListText ELSE <<>>
Next == IF What = "list"
        THEN /\ Len(ops) < N /\ UNCHANGED s
             /\ \/ \E d \in ListPool : ops' = Append(ops, <<d>>)
                \/ \E d, e \in ListPool : ops' = Append(ops, <<d, e>>)
                \/ ops' = Append(ops, <<>>)
        ELSE /\ Len(s) < N /\ UNCHANGED ops
             /\ \E c \in Chars : ~(Len(s) > 0 /\ s[Len(s)] = "\r" /\ c = "\n") /\ s' = Append(s, c)

Pairs == {<<i, j>> : i \in 1..(Len(s) + 1), j \in 1..(Len(s) + 1)}
Subjects == {p \in Pairs : p[1] <= p[2]}
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Opt(b) == [color |-> b, width |-> IF b THEN 12 ELSE 0, known |-> TRUE, nav |-> b, refs |-> <<>>]
Det == <<<<"aa", "bbbb", "c">>, <<"dddddddddddddd", "e">>>>
EmitCase ==
  IF What = "list" THEN Emit([what |-> What, chars |-> s, ops |-> ops, want |-> Seen(s, Cat(ops))])
  ELSE \A p \in Subjects, c \in Subjects \cup {<<>>}, b \in BOOLEAN :
         (c # <<>> /\ ~(c[1] <= p[1] /\ p[2] <= c[2]))
         \/ LET d == D(IF b THEN "error" ELSE "warning", "sum", Det, p, c)
            IN Emit([what |-> What, chars |-> s, d |-> d, opt |-> Opt(b), open |-> Unmarked(s, d), want |-> Printed(s, d, Opt(b))])

Kept == What = "list" => /\ Seen(s, Cat(ops)).sums = [k \in 1..Len(Cat(ops)) |-> Cat(ops)[k].sum]
                         /\ Seen(s, Cat(ops)).has <=> Seen(s, Cat(ops)).errs # <<>>
\* the lines of a text tile it, and every subject inside the text touches one
Whole == What = "print" =>
  LET ls == LinesFrom(s, 1) IN
  /\ \A k \in 1..(Len(ls) - 1) : ls[k][3] = ls[k + 1][1]
  /\ \A p \in Subjects : p[1] <= Len(s) => \E k \in 1..Len(ls) : Touched(s, ls[k], Touch(p))
=============================================================================
