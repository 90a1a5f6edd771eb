-------------------------------- MODULE Diag --------------------------------
(***************************************************************************)
(* Collections of diagnostics and the text printed for a diagnostic.       *)
(* A diagnostic is [sev, sum, det, subj, ctx] with subj and ctx either     *)
(* <<>> or a pair of character indexes <<first, end>> of the source text;  *)
(* det is a sequence of lines, each a sequence of words.                   *)
(* A printed text is a sequence of pieces that are joined.                 *)
(***************************************************************************)
EXTENDS Range

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

-----------------------------------------------------------------------------
(* Collections *)

IsErr(d) == d.sev = "error"
HasErr(ds) == \E k \in 1..Len(ds) : IsErr(ds[k])
Errs(ds) == SelectSeq(ds, IsErr)
\* the compact text of a range given as two positions
RangeText(file, s, e) ==
  IF s[1] = e[1] THEN <<file, ":", ToString(s[1]), ",", ToString(s[2]), "-", ToString(e[2])>>
  ELSE <<file, ":", ToString(s[1]), ",", ToString(s[2]), "-", ToString(e[1]), ",", ToString(e[2])>>

At0 == <<1, 1, 0>>
PosOf(s, i) == Walk(s, 1, i, At0)
RECURSIVE Joined(_, _)
Joined(ws, sep) == IF Len(ws) <= 1 THEN ws ELSE <<Head(ws), sep>> \o Joined(Tail(ws), sep)
Plain(det) == Cat(Joined([k \in 1..Len(det) |-> Joined(det[k], " ")], <<"\n">>))
OneText(s, d) ==
  (IF d.subj = <<>> THEN <<"<nil>">> ELSE RangeText("t.hcl", PosOf(s, d.subj[1]), PosOf(s, d.subj[2])))
  \o <<": ", d.sum, "; ">> \o Plain(d.det)
AllText(s, ds) ==
  IF ds = <<>> THEN <<"no diagnostics">>
  ELSE IF Len(ds) = 1 THEN OneText(s, ds[1])
  ELSE OneText(s, ds[1]) \o <<", and ", ToString(Len(ds) - 1), " other diagnostic(s)">>

Seen(s, ds) == [n |-> Len(ds), has |-> HasErr(ds), sums |-> [k \in 1..Len(ds) |-> ds[k].sum],
                errs |-> [k \in 1..Len(Errs(ds)) |-> Errs(ds)[k].sum], text |-> AllText(s, ds)]

-----------------------------------------------------------------------------
(* Printing *)

Esc(on, code) == IF on THEN <<"<esc>[" \o code \o "m">> ELSE <<>>
Pad4(n) == LET t == ToString(n) IN SubSeq("    ", 1, IF Len(t) >= 4 THEN 0 ELSE 4 - Len(t)) \o t

\* lines as character indexes: <<first, end of the content, start of the next>>
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) == IF i > Len(s) THEN <<>>
                   ELSE LET d == Piece(s, i, <<"lines">>) IN <<<<i, i + d[2], i + d[1]>>>> \o LinesFrom(s, i + d[1])

\* the offsets a range touches: an empty one is taken to touch what follows
Touch(r) == IF r[1] = r[2] THEN r[1]..r[1] ELSE r[1]..(r[2] - 1)
Snip(d) == IF d.ctx = <<>> \/ d.ctx[1] = d.ctx[2] THEN Touch(d.subj)
           ELSE IF d.subj[1] = d.subj[2] THEN Touch(d.ctx)
           ELSE MinI(d.subj[1], d.ctx[1])..(IF d.subj[2] > d.ctx[2] THEN d.subj[2] - 1 ELSE d.ctx[2] - 1)
\* a line is touched by its characters, its terminator and, when it has none,
\* the end of the text
Touched(s, ln, S) == S \cap (ln[1]..(IF ln[3] = ln[2] THEN ln[2] ELSE ln[3] - 1)) # {}
\* whether it is left open where the marks are: the mark of an empty subject
\* is one byte long
Unmarked(s, d) == d.subj # <<>> /\ d.subj[1] = d.subj[2] /\ d.subj[1] <= Len(s) /\ Size(s[d.subj[1]]) > 1 /\ ~Ends(s[d.subj[1]])
LineText(s, no, ln, hl, color) ==
  LET h == hl \cap (ln[1]..(ln[2] - 1))
      Sub(a, b) == SubSeq(s, a, b - 1)
  IN <<Pad4(no), ": ">>
     \o (IF h = {} THEN Sub(ln[1], ln[2])
         ELSE Sub(ln[1], Min(h)) \o Esc(color, "1;4") \o Sub(Min(h), Max(h) + 1) \o Esc(color, "0") \o Sub(Max(h) + 1, ln[2]))
     \o <<"\n">>
SourceText(s, d, color) ==
  LET ls == LinesFrom(s, 1)
      sn == Snip(d)
  IN Cat([k \in 1..Len(ls) |-> IF Touched(s, ls[k], sn) THEN LineText(s, k, ls[k], Touch(d.subj), color) ELSE <<>>])

\* words are placed on a line as long as they fit
RECURSIVE Wrapped(_, _, _)
Wrapped(ws, cur, w) ==
  IF ws = <<>> THEN <<>>
  ELSE IF cur = 0 THEN <<Head(ws)>> \o Wrapped(Tail(ws), Len(Head(ws)), w)
  ELSE IF cur + 1 + Len(Head(ws)) <= w THEN <<" ", Head(ws)>> \o Wrapped(Tail(ws), cur + 1 + Len(Head(ws)), w)
  ELSE <<"\n", Head(ws)>> \o Wrapped(Tail(ws), Len(Head(ws)), w)
Detail(det, w) ==
  IF w = 0 THEN Plain(det) ELSE Cat(Joined([k \in 1..Len(det) |-> Wrapped(det[k], 0, w)], <<"\n">>))

\* the variables of the expression, in the order they are printed
RefTable == <<
  <<"boz", "boz as 5">>, <<"foo", "foo as \"foo value\"">>, <<"lst", "lst as list of string with 2 elements">>,
  <<"lst[0]", "lst[0] as \"x\"">>, <<"missing", "">>, <<"nul", "nul set to null">>,
  <<"obj", "obj as object with 1 attribute \"baz\"">>, <<"obj.baz", "obj.baz as true">>, <<"one", "one as tuple with 1 element">>, <<"unk", "">> >>
With(refs) ==
  LET P(x) == x[2] # "" /\ \E k \in 1..Len(refs) : refs[k] = x[1]
      ss == SelectSeq(RefTable, P)
  IN IF ss = <<>> THEN <<>>
     ELSE Cat([k \in 1..Len(ss) |-> <<IF k = 1 THEN "with " ELSE "     ", ss[k][2], IF k = Len(ss) THEN ".\n\n" ELSE ",\n">>])

\* opt: [color, width, known, nav, refs]
Printed(s, d, opt) ==
  Esc(opt.color, IF IsErr(d) THEN "31" ELSE "33") \o <<IF IsErr(d) THEN "Error" ELSE "Warning">> \o Esc(opt.color, "0")
  \o <<": ", d.sum, "\n\n">>
  \o (IF d.subj = <<>> THEN <<>>
      ELSE LET no == ToString(PosOf(s, d.subj[1])[1]) IN
           (IF ~opt.known THEN <<"  on t.hcl line ", no, ":\n  (source code not available)\n\n">>
            ELSE <<"  on t.hcl line ", no>> \o (IF opt.nav THEN <<", in offset ", ToString(PosOf(s, d.subj[1])[3])>> ELSE <<>>)
                 \o <<":\n">> \o SourceText(s, d, opt.color) \o <<"\n">>)
           \o With(opt.refs))
  \o (IF d.det = <<>> THEN <<>> ELSE Detail(d.det, opt.width) \o <<"\n\n">>)
=============================================================================
