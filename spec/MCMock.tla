------------------------------- MODULE MCMock -------------------------------
(* Every hand-made expression over small operands.                           *)
(*   Free: evaluation depends on the reported variables only.                *)
(*   Alike: a path means what the parsed reference means.                    *)
EXTENDS Mock, Json, IOUtils, CSV
Obj == <<"obj", [b |-> <<"tuple", <<Str("p"), NumI(2)>>>>, k |-> <<"map", Number, [k |-> NumI(1), b |-> NumI(2)]>>]>>
Frames == << [b |-> Obj, c |-> Str("in")], [a |-> Obj, c |-> NumI(1), n |-> <<"null", String>>, u |-> <<"unk", <<"dyn">>>>], [a |-> NumI(3), d |-> Str("out")] >>
Ctxs == {<<>>, Frames, Tail(Frames)}
Steps == {<<"a", "b">>, <<"a", "k">>, <<"i", NumI(0)>>, <<"i", Str("k")>>}
Ways == {<<>>} \cup {<<s>> : s \in Steps} \cup {<<s, t>> : s \in Steps, t \in Steps}
Vals == {NumI(1), Str("s"), BoolV(TRUE), <<"null", String>>, <<"unk", Number>>, DynVal, DynNull, <<"list", Number, <<NumI(1), NumI(2)>>>>, <<"list", String, <<>>>>,
         <<"tuple", <<Str("x"), NumI(1)>>>>, <<"tuple", <<>>>>, Obj, <<"map", Number, [k |-> NumI(1)]>>, <<"set", Number, <<NumI(1)>>>>,
         <<"null", <<"list", Number>>>>, <<"unk", <<"list", Number>>>>}
Leaves == {<<"lit", v>> : v \in Vals} \cup {<<"var", x>> : x \in {"a", "b", "c", "d", "n", "u", "zz"}}
          \cup {<<"path", x, w>> : x \in {"a", "b", "c", "zz"}, w \in Ways}
Few == {<<"lit", NumI(1)>>, <<"lit", Str("s")>>, <<"lit", <<"list", Number, <<NumI(1)>>>>>>, <<"var", "c">>, <<"var", "zz">>, <<"path", "a", <<<<"a", "k">>, <<"i", Str("k")>>>>>>, <<"list", <<>>>>, <<"list", <<<<"var", "d">>>>>>}
Mocks == Leaves \cup {<<"list", q>> : q \in {<<>>} \cup {<<x>> : x \in Leaves} \cup {<<x, y>> : x \in Few, y \in Few} \cup {<<x, y, z>> : x \in Few, y \in Few, z \in Few}}
VARIABLES m, ctx
Init == m \in Mocks /\ ctx \in Ctxs
Next == UNCHANGED <<m, ctx>>
W == MSeen(m, ctx)
Cut(c) == [i \in 1..Len(c) |-> [x \in DOMAIN c[i] \cap {p[1] : p \in MVars(m)} |-> c[i][x]]]
Free == MSeen(m, Cut(ctx)) = W
Alike == m[1] = "path" => MVal(m, ctx) = Eval(Way(<<"var", m[2]>>, m[3]), ctx)
EmitCase == CSVWrite("%1$s", <<ToJson([mock |-> m, ctx |-> ctx, want |-> W])>>, IOEnv.OUT)
=============================================================================
