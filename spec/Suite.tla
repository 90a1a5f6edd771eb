------------------------------- MODULE Suite -------------------------------
(***************************************************************************)
(* The runner of the specification suite: which tests of a directory it    *)
(* runs, in which order, and which of them an implementation passes.       *)
(*                                                                         *)
(* A test: [path: <<directories.., name>>, file: "ok" / "broken", spec:    *)
(*   BOOLEAN, ty: <<>> or <<type>>, res: <<>> or <<value>>, refs: <<>> or  *)
(*   <<list>>, diags: list, runs: <<run..>>]                               *)
(* with refs of the form [path, rng] and diags of the form [sev, rng].     *)
(* A run is what the implementation answers for one input file:            *)
(*   [refs: [fail: diags, list: <<[path, rng, own]>>],                     *)
(*    out:  [fail: diags, val]]                                            *)
(* where fail # <<>> means that it failed with these diagnostics, each     *)
(* [sev, rng, at], at telling whether it is in the input ("own"), another  *)
(* file ("other") or nowhere ("none").                                     *)
(***************************************************************************)
EXTENDS Dec

Elems(q) == {q[k] : k \in 1..Len(q)}
All3(S) == IF "bad" \in S THEN "bad" ELSE IF "any" \in S THEN "any" ELSE "ok"
Is(b) == IF b THEN "ok" ELSE "bad"

\* the references found must be those expected, at their places
RefsPass(t, run) ==
  IF t.refs = <<>> THEN "ok"
  ELSE IF run.refs.fail # <<>> THEN "bad"
  ELSE LET want == Elems(t.refs[1])
           got == Elems(run.refs.list)
           paths == {r.path : r \in want}
       IN IF {r.path : r \in got} # paths THEN "bad"
          ELSE IF Cardinality(paths) # Len(t.refs[1]) THEN "any"   \* a path expected at two places
          ELSE Is(\A r \in got : r.own /\ [path |-> r.path, rng |-> r.rng] \in want)

\* with diagnostics expected these and no others must come, otherwise the result
OutPass(t, run) ==
  LET f == Elems(run.out.fail) IN
  IF t.diags # <<>> THEN
    Is((\A d \in f : d.at = "own") /\ {[sev |-> d.sev, rng |-> d.rng] : d \in f} = Elems(t.diags))
  ELSE IF f # {} THEN "bad"
  ELSE LET ty == IF t.ty = <<>> THEN Dyn ELSE t.ty[1]
           c == IF t.res = <<>> THEN <<"none">> ELSE Convert(t.res[1], ty)
       IN All3({Is(Conforms(run.out.val, ty)),
                IF c[1] = "none" THEN "ok" ELSE IF c[1] = "any" THEN "any" ELSE Is(c[1] = "ok" /\ Fix(c[2]) = Fix(run.out.val))})

\* a test file that contradicts itself fails whatever the implementation does
Sound(t) ==
  IF t.file = "broken" \/ (t.res # <<>> /\ t.diags # <<>>) THEN "bad"
  ELSE IF t.ty # <<>> /\ t.res # <<>> THEN
    LET c == Convert(t.res[1], t.ty[1]) IN IF c[1] = "any" THEN "any" ELSE Is(c[1] = "ok")
  ELSE "ok"

Passes(t) ==
  LET s == Sound(t) IN
  IF s # "ok" THEN s
  ELSE IF ~t.spec THEN "bad"
  ELSE All3(UNION {{RefsPass(t, t.runs[k]), OutPass(t, t.runs[k])} : k \in 1..Len(t.runs)})

------------------------------------------------- (* directories *)
Hidden(t) == \E k \in 1..Len(t.path) : Ch(t.path[k], 1) = "."
\* tests of a directory come by name, then its directories by name
RECURSIVE Before(_, _)
Before(p, q) ==
  IF Len(p) = 1 /\ Len(q) = 1 THEN StrLess(p[1] \o ".t", q[1] \o ".t")
  ELSE IF Len(p) = 1 THEN TRUE
  ELSE IF Len(q) = 1 THEN FALSE
  ELSE IF p[1] = q[1] THEN Before(Tail(p), Tail(q))
  ELSE StrLess(p[1], q[1])
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Before(x.path, y.path) IN <<m>> \o Ordered(S \ {m})
Visited(ts) == Ordered({t \in Elems(ts) : ~Hidden(t)})

Verdicts(ts) == LET v == Visited(ts) IN [k \in 1..Len(v) |-> <<v[k].path, Passes(v[k])>>]
ExitOf(vs) == LET a == All3({vs[k][2] : k \in 1..Len(vs)}) IN IF a = "ok" THEN 0 ELSE IF a = "bad" THEN 2 ELSE -1
=============================================================================
