------------------------------ MODULE StructOps ------------------------------
(* How observations of structures are written down for comparison.           *)
EXTENDS Struct

\* empty functions and sequences read from records are the same thing
RECURSIVE FixGo(_), FixItems(_)
FixPairs(ps) == TLCEval([j \in 1..Len(ps) |-> <<ps[j][1], Fix(ps[j][2])>>])
FixGo(x) ==
  CASE x[1] \in {"cty", "expr"} -> <<x[1], Fix(x[2])>>
    [] x[1] = "attr" -> <<"attr", x[2], Fix(x[3])>>
    [] x[1] = "attrs" -> <<"attrs", FixPairs(x[2])>>
    [] x[1] = "body" -> <<"body", FixPairs(x[2]), x[3], x[4]>>
    [] x[1] = "block" -> <<"block", x[2], x[3], FixGo(x[4])>>
    [] x[1] = "ptr" -> <<"ptr", FixGo(x[2])>>
    [] x[1] = "map" -> <<"map", TLCEval([j \in 1..Len(x[2]) |-> <<x[2][j][1], FixGo(x[2][j][2])>>])>>
    [] x[1] \in {"slice", "obj", "rec"} -> <<x[1], TLCEval([j \in 1..Len(x[2]) |-> FixGo(x[2][j])])>>
    [] OTHER -> x
FixItems(its) ==
  TLCEval([j \in 1..Len(its) |-> IF its[j][1] = "a" THEN <<"a", its[j][2], Fix(its[j][3])>> ELSE <<"b", its[j][2], its[j][3], FixItems(its[j][4])>>])

\* the implied schema by order of names
SchemaObs(sh) ==
  IF sh[1] # "struct" THEN [attrs |-> <<>>, blocks |-> <<>>]
  ELSE LET as == FieldsOf(sh[2], "attr")
           bs == FieldsOf(sh[2], "block")
           an == SortStrs({as[j][2] : j \in 1..Len(as)})
           bn == SortStrs({bs[j][2] : j \in 1..Len(bs)})
           f(fs, n) == fs[CHOOSE j \in 1..Len(fs) : fs[j][2] = n]
           ls(b) == LET q == LabelsIn(b[4]) IN TLCEval([j \in 1..Len(q) |-> q[j][2]])
       IN [attrs |-> TLCEval([j \in 1..Len(an) |-> <<an[j], Required(f(as, an[j]))>>]),
           blocks |-> TLCEval([j \in 1..Len(bn) |-> <<bn[j], ls(f(bs, bn[j]))>>])]
PartialObs(sh) == sh[1] = "struct" /\ IsPartial(sh[2])
=============================================================================
