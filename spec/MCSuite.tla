------------------------------ MODULE MCSuite ------------------------------
(***************************************************************************)
(* Single tests with every answer of pools, and small directory trees.     *)
(*   Faithful: an implementation that answers what is expected passes.     *)
(*   Strict: an answer with one more diagnostic or reference fails.        *)
(***************************************************************************)
EXTENDS Suite, Json, IOUtils, CSV
CONSTANT What

VARIABLES ts, done
vars == <<ts, done>>

R1 == <<1, 1, 0, 1, 3, 2>>
R2 == <<1, 1, 0, 2, 1, 4>>
R3 == <<1, 2, 0, 1, 3, 2>>
D(s, r) == [sev |-> s, rng |-> r]
G(s, r, a) == [sev |-> s, rng |-> r, at |-> a]
Ref(p, r) == [path |-> p, rng |-> r]
Seen1(p, r, o) == [path |-> p, rng |-> r, own |-> o]
PA == <<<<"root", "a">>>>
PAB == <<<<"root", "a">>, <<"attr", "b">>>>
PA0 == <<<<"root", "a">>, <<"index", NumI(0)>>>>
PA1 == <<<<"root", "a">>, <<"index", NumI(1)>>>>
PAK == <<<<"root", "a">>, <<"index", Str("b")>>>>
X1 == [x \in {"x"} |-> NumI(1)]
XN == [x \in {"x"} |-> Number]

Tuple12 == <<"tuple", <<NumI(1), NumI(2)>>>>
Vals == {Str("5"), NumI(5), BoolV(TRUE), Tuple12, <<"list", Number, <<NumI(1), NumI(2)>>>>, <<"obj", X1>>, <<"map", Number, X1>>, <<"list", Number, <<>>>>, <<"tuple", <<>>>>}
Types == {<<>>} \cup {<<t>> : t \in {String, Number, <<"list", Number>>, <<"map", Number>>, <<"object", XN>>, <<"list", Dyn>>}}
Results == {<<>>} \cup {<<v>> : v \in {Str("5"), NumI(5), NumI(6), Tuple12, <<"obj", X1>>, <<"tuple", <<>>>>}}

NoRefs == [fail |-> <<>>, list |-> <<>>]
Val(v) == [fail |-> <<>>, val |-> v]
Fail(ds) == [fail |-> ds, val |-> NumI(0)]
Run(r, o) == [refs |-> r, out |-> o]
Test(p, ty, res, refs, diags, runs) == [path |-> p, file |-> "ok", spec |-> TRUE, ty |-> ty, res |-> res, refs |-> refs, diags |-> diags, runs |-> runs]

ByVal == {Test(<<"t">>, ty, res, <<>>, <<>>, <<Run(NoRefs, o)>>) : ty \in Types, res \in Results, o \in {Val(v) : v \in Vals} \cup {Fail(<<G("error", R1, "own")>>)}}
Wanted == {<<>>, <<D("error", R1)>>, <<D("warning", R1)>>, <<D("error", R1), D("error", R2)>>, <<D("error", R2), D("warning", R2)>>}
Said == {<<>>, <<G("error", R1, "own")>>, <<G("error", R2, "own")>>, <<G("error", R3, "own")>>, <<G("warning", R1, "own")>>, <<G("error", R1, "other")>>, <<G("error", R1, "none")>>,
         <<G("error", R1, "own"), G("error", R2, "own")>>, <<G("error", R2, "own"), G("error", R1, "own")>>, <<G("error", R1, "own"), G("error", R1, "own")>>,
         <<G("warning", R2, "own"), G("error", R2, "own")>>, <<G("error", R1, "own"), G("error", R2, "none")>>, <<G("error", R1, "own"), G("warning", R2, "other")>>}
ByDiag == {Test(<<"t">>, <<>>, res, <<>>, w, <<Run(NoRefs, IF s = <<>> THEN Val(NumI(5)) ELSE Fail(s))>>) : res \in {<<>>, <<NumI(5)>>}, w \in Wanted, s \in Said}
WantRefs == {<<>>, <<<<>>>>, <<<<Ref(PA, R1)>>>>, <<<<Ref(PAB, R1)>>>>, <<<<Ref(PA0, R1)>>>>, <<<<Ref(PA, R1), Ref(PAB, R2)>>>>, <<<<Ref(PAB, R2), Ref(PAK, R1)>>>>}
SaidRefs == {[fail |-> <<G("error", R1, "own")>>, list |-> <<>>], [fail |-> <<G("warning", R1, "own")>>, list |-> <<>>]} \cup
            {[fail |-> <<>>, list |-> l] : l \in {<<>>, <<Seen1(PA, R1, TRUE)>>, <<Seen1(PA, R2, TRUE)>>, <<Seen1(PA, R3, TRUE)>>, <<Seen1(PA, R1, FALSE)>>, <<Seen1(PAB, R1, TRUE)>>, <<Seen1(PA0, R1, TRUE)>>, <<Seen1(PA1, R1, TRUE)>>, <<Seen1(<<<<"root", "b">>>>, R1, TRUE)>>,
                   <<Seen1(PAK, R1, TRUE)>>, <<Seen1(PA, R1, TRUE), Seen1(PAB, R2, TRUE)>>, <<Seen1(PAB, R2, TRUE), Seen1(PA, R1, TRUE)>>, <<Seen1(PA, R1, TRUE), Seen1(PA, R2, TRUE)>>,
                   <<Seen1(PAK, R1, TRUE), Seen1(PAB, R2, TRUE)>>}}
ByRefs == {Test(<<"t">>, <<>>, <<>>, w, <<>>, <<Run(s, Val(NumI(5)))>>) : w \in WantRefs, s \in SaidRefs}
Good == Run([fail |-> <<>>, list |-> <<Seen1(PA, R1, TRUE)>>], Val(NumI(5)))
Bads == {Run([fail |-> <<>>, list |-> <<>>], Val(NumI(5))), Run(Good.refs, Val(Str("5"))), Run(Good.refs, Fail(<<G("error", R1, "own")>>))}
\* no input, the native one, or both; one of them may fail; broken files, no specification
Forms == {[Test(<<"t">>, <<>>, <<NumI(5)>>, <<<<Ref(PA, R1)>>>>, <<>>, rs) EXCEPT !.file = f, !.spec = s] :
            rs \in {<<>>, <<Good>>, <<Good, Good>>} \cup {<<b>> : b \in Bads} \cup {<<b, Good>> : b \in Bads} \cup {<<Good, b>> : b \in Bads}, f \in {"ok", "broken"}, s \in BOOLEAN}

Simple(p, good, s) == [Test(p, <<>>, <<NumI(IF good THEN 5 ELSE 6)>>, <<>>, <<>>, <<Run(NoRefs, Val(NumI(5)))>>) EXCEPT !.spec = s]
Paths == {<<"a">>, <<"ab">>, <<"d">>, <<"d", "a">>, <<"d", "b">>, <<"c", "b">>, <<".h">>, <<".h", "a">>, <<"d", ".h", "a">>, <<"d", "e", "a">>}
Trees == {<<>>} \cup {<<Simple(p, g, TRUE), Simple(q, h, TRUE)>> : p \in Paths, q \in Paths, g, h \in BOOLEAN}
         \cup {<<Simple(p, TRUE, TRUE), Simple(q, TRUE, FALSE), Simple(r, TRUE, TRUE)>> : p \in Paths, q \in Paths, r \in Paths}
Proper(q) == \A k, l \in 1..Len(q) : k < l => q[k].path # q[l].path /\ Before(q[k].path, q[l].path)

Init == ts \in (IF What = "one" THEN {<<t>> : t \in ByVal \cup ByDiag \cup ByRefs \cup Forms} ELSE {q \in Trees : Proper(q)}) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED ts

EmitCase == done => LET v == Verdicts(ts) IN CSVWrite("%1$s", <<ToJson([ts |-> ts, want |-> [seen |-> v, exit |-> ExitOf(v)]])>>, IOEnv.OUT)

------------------------------------------------- (* laws *)
\* the answer a test asks for
Answer(t) ==
  LET refs == [fail |-> <<>>, list |-> IF t.refs = <<>> THEN <<>> ELSE [k \in 1..Len(t.refs[1]) |-> Seen1(t.refs[1][k].path, t.refs[1][k].rng, TRUE)]] IN
  IF t.diags # <<>> THEN Run(refs, Fail([k \in 1..Len(t.diags) |-> G(t.diags[k].sev, t.diags[k].rng, "own")]))
  ELSE Run(refs, Val(IF t.res = <<>> THEN NumI(5) ELSE Convert(t.res[1], IF t.ty = <<>> THEN Dyn ELSE t.ty[1])[2]))
Asking == What = "one" /\ Sound(ts[1]) = "ok" /\ ts[1].spec /\ ts[1].runs # <<>> /\ (ts[1].res # <<>> \/ ts[1].ty = <<>>)
Faithful == (~done /\ Asking) => Passes([ts[1] EXCEPT !.runs = <<Answer(ts[1])>>]) \in {"ok", "any"}
Strict == (~done /\ Asking) =>
  LET a == Answer(ts[1])
      more == [a EXCEPT !.out.fail = Append(a.out.fail, G("error", R3, "own"))]
      ref == [a EXCEPT !.refs.list = Append(a.refs.list, Seen1(<<<<"root", "zz">>>>, R1, TRUE))]
  IN Passes([ts[1] EXCEPT !.runs = <<more>>]) = "bad" /\ (ts[1].refs # <<>> => Passes([ts[1] EXCEPT !.runs = <<a, ref>>]) = "bad")
=============================================================================
