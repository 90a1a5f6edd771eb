------------------------------ MODULE Include ------------------------------
(***************************************************************************)
(* Transforming bodies as they are read, and inclusion of other bodies.    *)
(* Handles of Body are extended with                                       *)
(*   <<"f", file, h>>  content of a file, for paths relative to it         *)
(*   <<"deep", h>>     reads h and transforms every body it opens          *)
(*   <<"d">>           reading it reports an error; the rest is open       *)
(*   <<"w", h>>        every read of it also gives a warning               *)
(*   <<"x">>           not specified                                       *)
(* A world says what a transformation does:                                *)
(*   [tr: sequence of "inc", "mark", "warn", "fail", "errbody", "none",    *)
(*    deep, res: "map"/"func"/"file", wn: paths resolved with a warning,   *)
(*    fs: path -> <<"native"|"json", ..>> | <<"bad">> | <<"nil">>,         *)
(*    vars: name -> string]                                                *)
(* "mark" adds an argument "mark", so doing it twice gives an error.       *)
(* seen: unparsable files read before, which are reported only once.       *)
(***************************************************************************)
EXTENDS Body

RECURSIVE HasTag(_, _)
HasTag(h, t) ==
  CASE h[1] = t -> TRUE
    [] h[1] = "m" -> \E i \in 1..Len(h[2]) : HasTag(h[2][i], t)
    [] h[1] = "f" -> HasTag(h[3], t)
    [] h[1] \in {"deep", "w"} -> HasTag(h[2], t)
    [] OTHER -> FALSE
Unspecified(h) == HasTag(h, "x")
Failing(h) == HasTag(h, "d")
RECURSIVE Warns(_)
\* warnings that a read gives at least; what remains may give them or not
Warns(h) ==
  CASE h[1] = "w" -> 1 + Warns(h[2])
    [] h[1] = "m" -> SumF([i \in 1..Len(h[2]) |-> Warns(h[2][i])], Len(h[2]))
    [] h[1] = "f" -> Warns(h[3])
    [] h[1] = "deep" -> Warns(h[2])
    [] OTHER -> 0
RECURSIVE Warning(_, _)
Warning(n, h) == IF n = 0 THEN h ELSE <<"w", Warning(n - 1, h)>>

Wrapped(r, F(_)) == [r EXCEPT !.remain = F(r.remain), !.blocks = TLCEval([i \in 1..Len(r.blocks) |-> [r.blocks[i] EXCEPT !.h = F(r.blocks[i].h)]])]
RECURSIVE ReadX(_, _, _)
\* of a handle that is neither failing nor unspecified; blocks below "deep"
\* come as <<"todo", h>>: still to be transformed
ReadX(h, op, s) ==
  CASE h[1] = "h" -> Read(h, op, s)
    [] h[1] = "m" -> MergeReads(TLCEval([i \in 1..Len(h[2]) |-> ReadX(h[2][i], op, Optional(s))]), op, s)
    [] h[1] = "w" -> ReadX(h[2], op, s)
    [] h[1] = "f" -> Wrapped(ReadX(h[3], op, s), LAMBDA x : <<"f", h[2], x>>)
    [] h[1] = "deep" -> LET r == ReadX(h[2], op, s) IN
         [r EXCEPT !.remain = <<"deep", r.remain>>, !.blocks = TLCEval([i \in 1..Len(r.blocks) |-> [r.blocks[i] EXCEPT !.h = <<"todo", r.blocks[i].h>>]])]

------------------------------------------------------------- (* paths *)
RECURSIVE Comps(_, _), Norm(_, _), JoinP(_)
Comps(s, acc) == IF s = "" THEN <<acc>> ELSE IF SubSeq(s, 1, 1) = "/" THEN <<acc>> \o Comps(SubSeq(s, 2, Len(s)), "")
                 ELSE Comps(SubSeq(s, 2, Len(s)), acc \o SubSeq(s, 1, 1))
\* above the base there are no files: <<"^">>
Norm(done, todo) == IF todo = <<>> THEN done
                    ELSE IF Head(todo) \in {"", "."} THEN Norm(done, Tail(todo))
                    ELSE IF Head(todo) = ".." THEN (IF done = <<>> \/ done[1] = "^" THEN <<"^">> ELSE Norm(SubSeq(done, 1, Len(done) - 1), Tail(todo)))
                    ELSE Norm(Append(done, Head(todo)), Tail(todo))
JoinP(cs) == IF cs = <<>> THEN "" ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o "/" \o JoinP(Tail(cs))
DirOf(file) == LET cs == Comps(file, "") IN SubSeq(cs, 1, Len(cs) - 1)
Target(file, path) == JoinP(Norm(Norm(<<>>, DirOf(file)), Comps(path, "")))

------------------------------------------------------------- (* transformations *)
\* a handle that may lie in a file
RECURSIVE FileOf(_)
FileOf(h) == CASE h[1] = "f" -> h[2] [] h[1] = "m" /\ h[2] # <<>> -> FileOf(h[2][1]) [] h[1] \in {"deep", "w"} -> FileOf(h[2]) [] OTHER -> ""
PathText(w, v) ==
  LET ref(n) == IF n \in DOMAIN w.vars THEN <<w.vars[n]>> ELSE <<>> IN
  CASE v = Str("${p}") -> ref("p") [] v = Str("${zz}") -> ref("zz")
    [] v[1] = "ref" -> ref(v[2])
    [] v[1] = "str" -> <<v[2]>>
    [] v[1] = "num" -> <<"5">>
    [] OTHER -> <<>>
IncSchema == [attrs |-> <<>>, blocks |-> <<[t |-> "include", nl |-> 0]>>]
PathSchema == [attrs |-> <<[n |-> "path", req |-> TRUE]>>, blocks |-> <<>>]
HasIncludes(b) == LET r == Read(Open(b), "partial", IncSchema) IN r.err \/ r.amb \/ r.blocks # <<>>
\* the part of one include block; [h, seen]; h = <<>>: nothing to add
Part(w, b, seen) ==
  LET c == ReadX(b.h, "content", PathSchema)
      p == IF c.err THEN <<>> ELSE PathText(w, c.attrs["path"])
  IN IF c.amb THEN [h |-> <<"x">>, seen |-> seen]
     ELSE IF c.err \/ p = <<>> THEN [h |-> <<"d">>, seen |-> seen]
     ELSE LET t == IF w.res = "file" THEN Target(FileOf(b.h), p[1]) ELSE p[1]
              found == t \in DOMAIN w.fs /\ (w.res = "file" => w.fs[t][1] # "nil") /\ (w.res = "map" => w.fs[t][1] \notin {"nil", "bad"})
          IN IF ~found THEN [h |-> <<"d">>, seen |-> seen]
             ELSE CASE w.fs[t][1] = "nil" -> [h |-> <<>>, seen |-> seen]
                    [] w.fs[t][1] = "bad" -> IF t \in seen THEN [h |-> <<"x">>, seen |-> seen]
                                             ELSE [h |-> <<"d">>, seen |-> IF w.res = "file" THEN seen \cup {t} ELSE seen]
                    \* whether an included body has its own inclusions replaced is left open
                    [] OTHER -> [h |-> IF HasIncludes(w.fs[t]) THEN <<"x">> ELSE Warning(IF w.res = "func" /\ \E i \in 1..Len(w.wn) : w.wn[i] = t THEN 1 ELSE 0, <<"f", t, Open(w.fs[t])>>), seen |-> seen]
RECURSIVE Parts(_, _, _)
Parts(w, bs, seen) ==
  IF bs = <<>> THEN [hs |-> <<>>, seen |-> seen]
  ELSE LET x == Part(w, bs[1], seen) y == Parts(w, Tail(bs), x.seen)
       IN [hs |-> (IF x.h = <<>> THEN <<>> ELSE <<x.h>>) \o y.hs, seen |-> y.seen]
Mark == <<"h", <<"native", <<<<"a", "mark", NumI(1)>>>>>>, {}, {}>>
RECURSIVE Apply(_, _, _, _)
Apply(w, tr, h, seen) ==
  IF tr = <<>> \/ Unspecified(h) \/ Failing(h) THEN [h |-> IF Failing(h) /\ ~Unspecified(h) THEN <<"d">> ELSE h, seen |-> seen]
  ELSE IF tr[1] = "mark" THEN Apply(w, Tail(tr), <<"m", <<h, Mark>>>>, seen)
  ELSE IF tr[1] = "warn" THEN Apply(w, Tail(tr), <<"w", h>>, seen)
  ELSE IF tr[1] = "none" THEN Apply(w, Tail(tr), h, seen)
  ELSE IF tr[1] \in {"fail", "errbody"} THEN Apply(w, Tail(tr), <<"d">>, seen)
  ELSE LET r == ReadX(h, "partial", IncSchema) ps == Parts(w, r.blocks, seen) IN
       Apply(w, Tail(tr), IF r.amb THEN <<"x">> ELSE IF r.err THEN <<"d">> ELSE Warning(Warns(h), <<"m", <<r.remain>> \o ps.hs>>), ps.seen)
Transform(w, h, seen) == LET x == Apply(w, w.tr, h, seen) IN
  [h |-> IF w.deep THEN <<"deep", x.h>> ELSE x.h, seen |-> x.seen]
RECURSIVE TransformAll(_, _, _)
TransformAll(w, hs, seen) ==
  IF hs = <<>> THEN [hs |-> <<>>, seen |-> seen]
  ELSE LET x == IF hs[1][1] = "todo" THEN Transform(w, hs[1][2], seen) ELSE [h |-> hs[1], seen |-> seen]
           y == TransformAll(w, Tail(hs), x.seen)
       IN [hs |-> <<x.h>> \o y.hs, seen |-> y.seen]

------------------------------------------------------------- (* reads *)
\* the observer evaluates arguments without variables
Plain(as) == [n \in DOMAIN as |-> IF as[n][1] = "ref" THEN <<"evalerr">> ELSE as[n]]
\* [want: <<"any">> | <<"fails">> | <<"ok", obs>>, opened, seen]
Step(w, h, op, s, seen) ==
  IF Unspecified(h) THEN [want |-> <<"any">>, opened |-> <<>>, seen |-> seen]
  ELSE IF Failing(h) THEN [want |-> <<"fails">>, opened |-> <<>>, seen |-> seen]
  ELSE LET r == ReadX(h, op, s) t == TransformAll(w, Opened(r, op), seen) IN
       IF r.amb THEN [want |-> <<"any">>, opened |-> <<>>, seen |-> seen]
       ELSE [want |-> <<"ok", [attrs |-> Plain(r.attrs), blocks |-> Obs(r).blocks, err |-> r.err, warn |-> Warns(h)]>>, opened |-> t.hs, seen |-> t.seen]
Start(w, b, file) == Transform(w, <<"f", file, Open(b)>>, {})
=============================================================================
