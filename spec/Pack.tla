-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* How source positions are kept in the portable form of a configuration.  *)
(* A position is <<line, column, byte>>, a range [file, s, e]. The distinct *)
(* positions of each file are listed in the order of their bytes, each as   *)
(* differences from the one before: lines, columns (from the start of the   *)
(* line when the line differs), bytes. The list is a sequence of bytes:     *)
(* whole numbers with a sign in the lowest bit, in groups of seven bits     *)
(* with the highest group first, and 59 between the positions of one file   *)
(* and the next. Ranges are pairs of numbers of positions, starting at one. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == <<0, 0, 0>>
NoRange == [file |-> "", s |-> Zero, e |-> Zero]

------------------------------------------------------------- (* numbers *)
RECURSIVE Groups(_)
Groups(u) == IF u < 128 THEN <<u>> ELSE Append(Groups(u \div 128), u % 128)
Vlq(n) == LET g == Groups(IF n < 0 THEN (-n) * 2 - 1 ELSE n * 2) IN [i \in 1..Len(g) |-> IF i < Len(g) THEN g[i] + 128 ELSE g[i]]
\* <<number, rest>> or <<>> when there is no complete number
RECURSIVE UVlq(_, _)
UVlq(bs, acc) ==
  IF bs = <<>> THEN <<>>
  ELSE LET a == (acc * 128) + (bs[1] % 128) IN IF bs[1] < 128 THEN <<a, Tail(bs)>> ELSE UVlq(Tail(bs), a)
ReadVlq(bs) == LET r == UVlq(bs, 0) IN IF r = <<>> THEN <<>> ELSE <<IF r[1] % 2 = 0 THEN r[1] \div 2 ELSE -((r[1] + 1) \div 2), r[2]>>

------------------------------------------------------------- (* writing *)
\* positions of a file in the order of bytes; positions at the same byte come
\* in either order
RECURSIVE Ordered(_, _)
Ordered(S, up) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE p \in S : \A q \in S : p[3] < q[3] \/ (p[3] = q[3] /\ (IF up THEN p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2]) ELSE p[1] > q[1] \/ (p[1] = q[1] /\ p[2] >= q[2])))
       IN <<m>> \o Ordered(S \ {m}, up)
PosOf(rs, f) == UNION {{r.s, r.e} : r \in {x \in rs : x.file = f}}
Delta(p, q) == <<q[1] - p[1], q[2] - (IF q[1] # p[1] THEN 0 ELSE p[2]), q[3] - p[3]>>
Deltas(ps) == [i \in 1..Len(ps) |-> Delta(IF i = 1 THEN Zero ELSE ps[i - 1], ps[i])]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Bytes(ds) == Cat([i \in 1..Len(ds) |-> Vlq(ds[i][1]) \o Vlq(ds[i][2]) \o Vlq(ds[i][3])])
\* files: in the order of names
Written(files, rs, up) ==
  LET byf == [i \in 1..Len(files) |-> Ordered(PosOf(rs, files[i]), up)] IN
  [files |-> files, all |-> Cat([i \in 1..Len(files) |-> [k \in 1..Len(byf[i]) |-> <<files[i], byf[i][k]>>]]),
   bytes |-> Cat([i \in 1..Len(files) |-> (IF i > 1 THEN <<59>> ELSE <<>>) \o Bytes(Deltas(byf[i]))])]
IndexOf(w, f, p) == CHOOSE i \in 1..Len(w.all) : w.all[i] = <<f, p>>

------------------------------------------------------------- (* reading *)
\* sequence of <<file number, dline, dcol, dbyte>>, or <<"err">>
RECURSIVE Entries(_, _)
Entries(bs, fi) ==
  IF bs = <<>> THEN <<>>
  ELSE IF bs[1] = 59 THEN Entries(Tail(bs), fi + 1)
  ELSE LET a == ReadVlq(bs) IN
       IF a = <<>> THEN <<<<"err">>>>
       ELSE LET b == ReadVlq(a[2]) IN
            IF b = <<>> THEN <<<<"err">>>>
            ELSE LET c == ReadVlq(b[2]) IN
                 IF c = <<>> THEN <<<<"err">>>> ELSE <<<<fi, a[1], b[1], c[1]>>>> \o Entries(c[2], fi)
Broken(es) == es # <<>> /\ es[Len(es)] = <<"err">>
RECURSIVE Unpacked(_, _, _)
\* <<file number, position>> of every entry
Unpacked(es, fi, p) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es)
           b == IF e[1] # fi THEN Zero ELSE p
           q == <<b[1] + e[2], (IF e[2] # 0 THEN 0 ELSE b[2]) + e[3], b[3] + e[4]>>
       IN <<<<e[1], q>>>> \o Unpacked(Tail(es), e[1], q)
FileName(files, i) == IF i + 1 <= Len(files) THEN files[i + 1] ELSE ""
\* a range given by the numbers of its positions; absent when there are no such
RangeAt(files, ps, s, e) ==
  IF s \notin 1..Len(ps) \/ e \notin 1..Len(ps) THEN NoRange
  ELSE [file |-> FileName(files, ps[s][1]), s |-> ps[s][2], e |-> ps[e][2]]
Restored(w, r) ==
  LET ps == Unpacked(Entries(w.bytes, 0), 0, Zero) IN RangeAt(w.files, ps, IndexOf(w, r.file, r.s), IndexOf(w, r.file, r.e))
=============================================================================
