------------------------------ MODULE UserFunc ------------------------------
(***************************************************************************)
(* Blocks that define functions. A definition is                           *)
(*   [name, labels, params, var, res, extra]                               *)
(* params: <<"list", names>> (the name "!" standing for an element that is *)
(* not a name), <<"bad">> or <<"none">>; var: <<"name", n>>, <<"bad">> or  *)
(* <<"none">>; res: <<"ast", e>> or <<"none">>; labels: how many there are *)
(* on the block; extra: an argument that is not allowed.                   *)
(* Calls are evaluated by module Expr.                                     *)
(***************************************************************************)
EXTENDS Expr

Valid(d) ==
  /\ d.labels = 1 /\ ~d.extra
  /\ d.params[1] = "list" /\ \A i \in 1..Len(d.params[2]) : d.params[2][i] # "!"
  /\ d.var[1] # "bad" /\ d.res[1] = "ast"
\* a block with a wrong header makes the whole set fail
Headers(ds) == \A i \in 1..Len(ds) : ds[i].labels = 1
Repeats(ds) == \E i, j \in 1..Len(ds) : i < j /\ ds[i].name = ds[j].name
\* repeated parameter names are left open
Twice(d) == LET ns == d.params[2] \o (IF d.var[1] = "name" THEN <<d.var[2]>> ELSE <<>>)
            IN \E i, j \in 1..Len(ns) : i < j /\ ns[i] = ns[j]
Open(ds) == Repeats(ds) \/ \E i \in 1..Len(ds) : Valid(ds[i]) /\ Twice(ds[i])
Fails(ds) == \E i \in 1..Len(ds) : ~Valid(ds[i])
Names(ds) == IF Headers(ds) THEN {ds[i].name : i \in {j \in 1..Len(ds) : Valid(ds[j])}} ELSE {}
Defs(ds) ==
  [n \in Names(ds) |-> LET d == ds[CHOOSE i \in 1..Len(ds) : ds[i].name = n /\ Valid(ds[i])] IN
     [params |-> d.params[2], var |-> IF d.var[1] = "name" THEN <<d.var[2]>> ELSE <<>>, body |-> d.res[2]]]
\* base: "nil" (no context), "vars" (variables and the functions of the
\* application) or "rec" (also the defined functions)
Fns(ds, base, vars) == [defs |-> Defs(ds), vars |-> IF base = "nil" THEN <<>> ELSE <<vars>>, rec |-> base = "rec", builtin |-> base # "nil"]
CallIn(ds, base, vars, caller, e) == Eval(e, <<caller, [x \in {"(fns)"} |-> Fns(ds, base, vars)]>>)
Out(r) == IF r[2] = "any" THEN <<"any">> ELSE IF r[2] = "err" THEN <<"err">> ELSE <<"ok", r[1]>>
=============================================================================
