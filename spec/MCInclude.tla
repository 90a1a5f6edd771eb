----------------------------- MODULE MCInclude -----------------------------
(***************************************************************************)
(* Every root body of a pool, under every transformation and resolver, with *)
(* every history of reads.                                                 *)
(*   MarkOnce: while nothing fails, every body opened below a deep        *)
(*   transformation is transformed (its mark is found, exactly once).       *)
(*   Warned: a warning given by a deep transformation is seen everywhere.  *)
(*   Gone: no inclusion block is delivered by a transformed body.           *)
(***************************************************************************)
EXTENDS Include, Json, IOUtils, CSV
CONSTANTS MaxItems, MaxOps

At(n, i) == <<"a", n, NumI(i)>>
Blk(t, items) == <<"b", t, <<>>, items>>
Inc(v) == Blk("include", <<<<"a", "path", v>>>>)
P(s) == Str(s)
JO(ps) == <<"o", ps>>
JPath(s) == JO(<<<<"path", <<"s", s>>>>>>)
FS == [x \in {"x.hcl", "d/y.hcl", "z.json", "bad.hcl", "nil", "d/x.hcl", "again.hcl"} |->
        CASE x = "x.hcl" -> <<"native", <<At("a", 11), Blk("b", <<At("a", 12)>>)>>>>
          [] x = "d/y.hcl" -> <<"native", <<At("b", 21), Blk("b", <<Inc(P("x.hcl")), At("b", 22)>>)>>>>
          [] x = "d/x.hcl" -> <<"native", <<At("a", 31)>>>>
          [] x = "z.json" -> <<"json", JO(<<<<"b", JO(<<<<"include", <<"a", <<JPath("d/x.hcl")>>>>>>, <<"b", <<"n", 41>>>>>>)>>>>)>>
          [] x = "again.hcl" -> <<"native", <<Inc(P("x.hcl"))>>>>
          [] x = "bad.hcl" -> <<"bad">> [] OTHER -> <<"nil">>]
Items == {At("a", 1), Inc(P("x.hcl")), Inc(P("d/y.hcl")), Inc(P("z.json")), Inc(P("nosuch")), Inc(P("bad.hcl")), Inc(P("nil")), Inc(P("d")),
          Inc(P("./d/../x.hcl")), Inc(<<"ref", "p">>), Inc(<<"ref", "zz">>), Inc(<<"tuple", <<>>>>), Inc(P("again.hcl")),
          Blk("include", <<>>), <<"b", "include", <<"l">>, <<>>>>, Blk("b", <<Inc(P("x.hcl"))>>), Blk("b", <<Inc(P("bad.hcl"))>>),
          Blk("b", <<At("b", 2), Blk("b", <<Inc(P("d/y.hcl")), At("a", 3)>>)>>)}
Distinct(items) == \A i, j \in 1..Len(items) : (i # j /\ items[i][1] = "a" /\ items[j][1] = "a") => items[i][2] # items[j][2]
Bodies == {<<"native", s>> : s \in {t \in UNION {[1..k -> Items] : k \in 0..MaxItems} : Distinct(t)}}
          \cup {<<"json", JO(<<<<"include", v>>, <<"b", JO(<<<<"include", JPath("x.hcl")>>>>)>>>>)>> :
                v \in {<<"z">>, <<"n", 1>>, JPath("z.json"), JPath("${p}"), JPath("${zz}"), <<"a", <<JPath("x.hcl"), JO(<<>>)>>>>, <<"a", <<JPath("x.hcl"), JPath("d/y.hcl")>>>>}}
Worlds == {[tr |-> tr, deep |-> d, res |-> r, fs |-> FS, vars |-> [p |-> "x.hcl"], wn |-> <<"x.hcl">>] :
           tr \in {<<"inc">>, <<"mark">>, <<"inc", "mark">>, <<"mark", "inc">>}, d \in BOOLEAN, r \in {"map", "func", "file"}}
          \cup {[tr |-> tr, deep |-> d, res |-> "map", fs |-> FS, vars |-> [p |-> "x.hcl"], wn |-> <<>>] :
           tr \in {<<"warn">>, <<"warn", "inc">>, <<"inc", "warn">>, <<"none", "mark", "none">>, <<"fail", "mark">>, <<"warn", "fail">>, <<"errbody">>, <<"mark", "errbody", "mark">>}, d \in BOOLEAN}

Sch(as, bs) == [attrs |-> as, blocks |-> bs]
SA(n) == [n |-> n, req |-> FALSE]
SB(t) == [t |-> t, nl |-> 0]
Reads == {<<"content", Sch(<<SA("a"), SA("b"), SA("mark")>>, <<SB("b")>>)>>, <<"partial", Sch(<<SA("a")>>, <<>>)>>, <<"partial", Sch(<<[n |-> "mark", req |-> TRUE]>>, <<SB("b")>>)>>,
          <<"partial", Sch(<<SA("b")>>, <<SB("include")>>)>>, <<"just", Sch(<<>>, <<>>)>>}

VARIABLES w, body, hs, seen, hist
vars == <<w, body, hs, seen, hist>>
Init == /\ w \in Worlds /\ body \in Bodies
        /\ LET x == Start(w, body, "main.hcl") IN hs = <<x.h>> /\ seen = x.seen
        /\ hist = <<>>
\* reading on from something unspecified is not looked at
Next == /\ Len(hist) < MaxOps
        /\ \E h \in 1..Len(hs), rd \in Reads :
             LET r == Step(w, hs[h], rd[1], rd[2], seen) IN
             /\ r.want # <<"any">>
             /\ hs' = hs \o r.opened /\ seen' = r.seen
             /\ hist' = Append(hist, [h |-> h, op |-> rd[1], schema |-> rd[2], want |-> r.want, n |-> Len(r.opened)])
        /\ UNCHANGED <<w, body>>
EmitCase == (Len(hist) < MaxOps \/ hist = <<>>)
  \/ CSVWrite("%1$s", <<ToJson([w |-> w, body |-> body, ops |-> hist])>>, IOEnv.OUT)

Quiet(h) == ~Unspecified(h) /\ ~Failing(h)
MarkOnce == (w.deep /\ "mark" \in {w.tr[i] : i \in 1..Len(w.tr)}) =>
  \A h \in 1..Len(hs) : (Quiet(hs[h]) /\ (h = 1 \/ \A i \in 1..Len(hist) : hist[i].op # "partial")) =>
     LET r == ReadX(hs[h], "partial", Sch(<<SA("mark")>>, <<>>)) IN "mark" \in DOMAIN r.attrs /\ ~r.err
Warned == (w.deep /\ "warn" \in {w.tr[i] : i \in 1..Len(w.tr)}) =>
  \A h \in 1..Len(hs) : (Quiet(hs[h]) /\ (h = 1 \/ \A i \in 1..Len(hist) : hist[i].op # "partial")) => Warns(hs[h]) >= 1
Gone == (w.deep /\ w.tr[1] = "inc") => \A h \in 1..Len(hs) : Quiet(hs[h]) =>
     ReadX(hs[h], "partial", IncSchema).blocks = <<>>
=============================================================================
