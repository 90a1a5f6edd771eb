-------------------------------- MODULE Cty --------------------------------
(***************************************************************************)
(* Types and values of the HCL type system, conversion and unification.    *)
(*                                                                         *)
(* Types are tagged tuples:                                                *)
(*   <<"string">> <<"number">> <<"bool">> <<"dyn">>                        *)
(*   <<"list",T>> <<"set",T>> <<"map",T>> <<"tuple",<<T..>>>>              *)
(*   <<"object",[name |-> T]>>                                             *)
(* Values:                                                                 *)
(*   <<"str",s>> <<"bool",b>> <<"num",p,q>> (q = 0: infinity)              *)
(*   <<"null",T>> <<"unk",T>> <<"list",T,seq>> <<"set",T,seq>>             *)
(*   <<"map",T,fn>> <<"tuple",seq>> <<"obj",fn>>                           *)
(* Results that may fail are <<"ok",v>>, <<"err">> or <<"any">>; "any"     *)
(* means the specification does not fix the outcome.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

---------------------------------------------------------------- (* strings *)
AsciiChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ch(s, i) == SubSeq(s, i, i)
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}
OrdTable == [c \in CharSet(AsciiChars) |-> CHOOSE i \in 1..Len(AsciiChars) : Ch(AsciiChars, i) = c]
Ord(c) == IF c \in DOMAIN OrdTable THEN OrdTable[c]
          ELSE IF c = "\n" THEN -1 ELSE IF c = "\t" THEN -2 ELSE 1000

RECURSIVE StrLessFrom(_, _, _)
StrLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN StrLessFrom(a, b, i + 1)
  ELSE Ord(Ch(a, i)) < Ord(Ch(b, i))
StrLess(a, b) == StrLessFrom(a, b, 1)

RECURSIVE SortStrs(_)
SortStrs(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ StrLess(x, y)
       IN <<m>> \o SortStrs(S \ {m})

RECURSIVE ConcatStrs(_)
ConcatStrs(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o ConcatStrs(Tail(ss))

DigitChars == "0123456789"
IsDigit(c) == c \in CharSet(DigitChars)
DigitVal(c) == (CHOOSE i \in 1..10 : Ch(DigitChars, i) = c) - 1
DigitStr(d) == Ch(DigitChars, d + 1)

RECURSIVE NatToStr(_)
NatToStr(n) == IF n < 10 THEN DigitStr(n) ELSE NatToStr(n \div 10) \o DigitStr(n % 10)

---------------------------------------------------------------- (* numbers *)
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

\* The numbers the specification follows exactly: dyadic and small.
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))
Limit == 1000000
NumOK(p, q) == q = 0 \/ (Abs(p) < Limit /\ q < 1024 /\ IsPow2(q))

MkNum(p, q) ==
  IF q = 0 THEN <<"num", IF p > 0 THEN 1 ELSE -1, 0>>
  ELSE LET s == IF q < 0 THEN -1 ELSE 1
           g == GCD(Abs(p), Abs(q))
       IN IF p = 0 THEN <<"num", 0, 1>> ELSE <<"num", (s * p) \div g, (s * q) \div g>>
NumI(n) == <<"num", n, 1>>
IsInf(v) == v[3] = 0
ResNum(p, q) == LET v == MkNum(p, q) IN IF NumOK(v[2], v[3]) THEN <<"ok", v>> ELSE <<"any">>

RECURSIVE FracDigits(_, _)
FracDigits(r, q) == IF r = 0 THEN "" ELSE DigitStr((r * 10) \div q) \o FracDigits((r * 10) % q, q)

NumToStr(v) ==
  LET p == v[2] q == v[3] IN
  IF q = 0 THEN (IF p > 0 THEN "+Inf" ELSE "-Inf")
  ELSE LET a == Abs(p)
           ip == NatToStr(a \div q)
           fp == IF a % q = 0 THEN "" ELSE "." \o FracDigits(a % q, q)
       IN (IF p < 0 THEN "-" ELSE "") \o ip \o fp

\* Text of a number. The specification decides plain decimal forms and texts
\* with a character no number can contain; it leaves exotic forms open.
ExoticChars == CharSet("0123456789.+-eEpPxXoObB_iInNfFtTyYaA")
RECURSIVE AllDigits(_)
AllDigits(s) == s = "" \/ (IsDigit(Ch(s, 1)) /\ AllDigits(SubSeq(s, 2, Len(s))))
RECURSIVE DigitsVal(_)
DigitsVal(s) == IF s = "" THEN 0 ELSE 10 * DigitsVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
DotPos(s) == IF "." \in CharSet(s) THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = "." /\ \A j \in 1..(i-1) : Ch(s, j) # "." ELSE 0

StrToNum(s) ==
  LET neg == s # "" /\ Ch(s, 1) = "-"
      b == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      d == DotPos(b)
      ip == IF d = 0 THEN b ELSE SubSeq(b, 1, d - 1)
      fp == IF d = 0 THEN "" ELSE SubSeq(b, d + 1, Len(b))
      sg == IF neg THEN -1 ELSE 1
  IN IF b # "" /\ ip # "" /\ AllDigits(ip) /\ AllDigits(fp) /\ (d = 0 \/ fp # "")
     THEN IF Len(ip) > 6 \/ Len(fp) > 3 THEN <<"any">>
          ELSE IF neg /\ DigitsVal(ip \o fp) = 0 THEN <<"any">>   \* negative zero
          ELSE ResNum(sg * DigitsVal(ip \o fp), Pow10(Len(fp)))
     ELSE IF s = "" \/ ~(CharSet(s) \subseteq ExoticChars) THEN <<"err">>
     ELSE <<"any">>

NumLess(a, b) ==  \* a < b with infinities
  IF IsInf(a) \/ IsInf(b)
  THEN (IF IsInf(a) THEN a[2] * 2 ELSE 0) < (IF IsInf(b) THEN b[2] * 2 ELSE 0)
  ELSE a[2] * b[3] < b[2] * a[3]

---------------------------------------------------------------- (* types   *)
String == <<"string">>
Number == <<"number">>
Bool == <<"bool">>
Dyn == <<"dyn">>
IsPrim(t) == t[1] \in {"string", "number", "bool"}

NoFn == [x \in {} |-> 0]

Unk(t) == <<"unk", t>>
Null(t) == <<"null", t>>
DynVal == Unk(Dyn)
DynNull == Null(Dyn)
Str(s) == <<"str", s>>
BoolV(b) == <<"bool", b>>

RECURSIVE TypeOf(_)
TypeOf(v) ==
  CASE v[1] = "str" -> String
    [] v[1] = "bool" -> Bool
    [] v[1] = "num" -> Number
    [] v[1] \in {"null", "unk"} -> v[2]
    [] v[1] \in {"list", "set", "map"} -> <<v[1], v[2]>>
    [] v[1] = "tuple" -> <<"tuple", [i \in 1..Len(v[2]) |-> TypeOf(v[2][i])]>>
    [] v[1] = "obj" -> <<"object", [k \in DOMAIN v[2] |-> TypeOf(v[2][k])]>>

IsNull(v) == v[1] = "null"
IsKnown(v) == v[1] # "unk"

RECURSIVE HasDyn(_)
HasDyn(t) ==
  CASE t[1] = "dyn" -> TRUE
    [] t[1] \in {"list", "set", "map"} -> HasDyn(t[2])
    [] t[1] = "tuple" -> \E i \in 1..Len(t[2]) : HasDyn(t[2][i])
    [] t[1] = "object" -> \E k \in DOMAIN t[2] : HasDyn(t[2][k])
    [] OTHER -> FALSE

RECURSIVE WhollyKnown(_)
WhollyKnown(v) ==
  CASE v[1] = "unk" -> FALSE
    [] v[1] \in {"list", "set"} -> \A i \in 1..Len(v[3]) : WhollyKnown(v[3][i])
    [] v[1] = "tuple" -> \A i \in 1..Len(v[2]) : WhollyKnown(v[2][i])
    [] v[1] = "map" -> \A k \in DOMAIN v[3] : WhollyKnown(v[3][k])
    [] v[1] = "obj" -> \A k \in DOMAIN v[2] : WhollyKnown(v[2][k])
    [] OTHER -> TRUE

---------------------------------------------------------------- (* unify *)
\* Preference between two types as the target of a unification: -1 the first,
\* 1 the second, 0 no preference.
RECURSIVE CmpTypes(_, _)
CmpTypes(a, b) ==
  IF a = Dyn \/ b = Dyn THEN (IF a # Dyn THEN -1 ELSE IF b # Dyn THEN 1 ELSE 0)
  ELSE IF IsPrim(a) /\ IsPrim(b)
       THEN (IF a = b THEN 0 ELSE IF a = String THEN -1 ELSE IF b = String THEN 1 ELSE 0)
  ELSE IF a[1] = b[1] /\ a[1] \in {"list", "set", "map"} THEN CmpTypes(a[2], b[2])
  ELSE IF a[1] = "tuple" /\ b[1] = "list" THEN 1
  ELSE IF a[1] = "list" /\ b[1] = "tuple" THEN -1
  ELSE IF a[1] = "object" /\ b[1] = "map" THEN 1
  ELSE IF a[1] = "map" /\ b[1] = "object" THEN -1
  ELSE IF a[1] = "set" /\ b[1] \in {"tuple", "list"} THEN 1
  ELSE IF b[1] = "set" /\ a[1] \in {"tuple", "list"} THEN -1
  ELSE 0

RECURSIVE UnifyN(_), Unify2(_, _), HasConv(_, _)

\* Unification of many element types: <<"ok",T>>, <<"none">> or <<"any">>.
UnifyN(ts) ==
  LET S == {ts[i] : i \in 1..Len(ts)} IN
  IF Len(ts) = 0 THEN <<"none">>
  ELSE IF Len(ts) = 2 THEN Unify2(ts[1], ts[2])
  ELSE IF Cardinality(S) = 1 THEN (IF IsPrim(ts[1]) \/ ts[1] = Dyn \/ ~HasDyn(ts[1]) THEN <<"ok", ts[1]>> ELSE <<"any">>)
  ELSE IF \A t \in S : IsPrim(t) \/ t = Dyn
       THEN LET nd == S \ {Dyn} IN
            IF Cardinality(nd) = 1 THEN <<"ok", CHOOSE t \in nd : TRUE>>
            ELSE IF String \in nd THEN <<"ok", String>>
            ELSE IF Dyn \in S THEN <<"any">> ELSE <<"none">>
  ELSE <<"any">>

\* Is there an unsafe conversion (one that may fail on values)? Three-valued:
\* "yes", "no", "any".
And3(S) == IF "any" \in S THEN "any" ELSE IF "no" \in S THEN "no" ELSE "yes"
ElemConv(a, b) == IF a = b THEN "yes" ELSE HasConv(a, b)
HasConv(in, out) ==
  IF out = Dyn THEN "yes"
  ELSE IF in = Dyn THEN "yes"
  ELSE IF IsPrim(in) /\ IsPrim(out) THEN
       (IF in = String /\ out \in {Number, Bool} THEN "yes"
        ELSE IF out = String /\ in # String THEN "yes" ELSE "no")
  ELSE IF in[1] = "object" /\ out[1] = "object" THEN
       (IF \E k \in DOMAIN out[2] : k \notin DOMAIN in[2] THEN "no"
        ELSE And3({ElemConv(in[2][k], out[2][k]) : k \in DOMAIN out[2]}))
  ELSE IF in[1] = "tuple" /\ out[1] = "tuple" THEN
       (IF Len(in[2]) # Len(out[2]) THEN "no"
        ELSE And3({ElemConv(in[2][i], out[2][i]) : i \in 1..Len(in[2])}))
  ELSE IF out[1] \in {"list", "set"} /\ in[1] \in {"list", "set"} THEN ElemConv(in[2], out[2])
  ELSE IF out[1] = "map" /\ in[1] = "map" THEN HasConv(in[2], out[2])
  ELSE IF out[1] \in {"list", "set"} /\ in[1] = "tuple" THEN
       (IF Len(in[2]) = 0 THEN "yes"
        ELSE LET u == IF out[2] = Dyn THEN UnifyN(in[2]) ELSE <<"ok", out[2]>> IN
             IF u[1] = "any" THEN "any" ELSE IF u[1] = "none" THEN "no"
             ELSE And3({ElemConv(in[2][i], u[2]) : i \in 1..Len(in[2])}))
  ELSE IF out[1] = "map" /\ in[1] = "object" THEN
       (IF DOMAIN in[2] = {} THEN "yes"
        ELSE IF out[2] = Dyn THEN
             LET S == {in[2][k] : k \in DOMAIN in[2]}
                 u == IF Cardinality(S) = 1 THEN <<"ok", CHOOSE t \in S : TRUE>>
                      ELSE LET ks == SortStrs(DOMAIN in[2]) IN UnifyN([i \in 1..Len(ks) |-> in[2][ks[i]]])
             IN IF u[1] = "any" THEN "any" ELSE IF u[1] = "none" THEN "no"
                ELSE And3({ElemConv(in[2][k], u[2]) : k \in DOMAIN in[2]})
        ELSE And3({ElemConv(in[2][k], out[2]) : k \in DOMAIN in[2]}))
  ELSE "no"

Unify2(a, b) ==
  IF a[1] = "object" /\ b[1] = "object" THEN
    LET toMap == LET ks1 == SortStrs(DOMAIN a[2])
                     ks2 == SortStrs(DOMAIN b[2])
                     u == UnifyN([i \in 1..Len(ks1) |-> a[2][ks1[i]]] \o [i \in 1..Len(ks2) |-> b[2][ks2[i]]])
                 IN IF u[1] # "ok" THEN u
                    ELSE LET m == <<"map", u[2]>>
                             c == And3({HasConv(a, m), HasConv(b, m)})
                         IN IF c = "any" THEN <<"any">> ELSE IF c = "no" THEN <<"none">> ELSE <<"ok", m>>
    IN IF DOMAIN a[2] # DOMAIN b[2] THEN toMap
       ELSE LET us == [k \in DOMAIN a[2] |-> Unify2(a[2][k], b[2][k])] IN
            IF \E k \in DOMAIN us : us[k][1] = "any" THEN <<"any">>
            ELSE IF \E k \in DOMAIN us : us[k][1] = "none" THEN <<"none">>
            ELSE LET r == <<"object", [k \in DOMAIN us |-> us[k][2]]>>
                     c == And3({ElemConv(a, r), ElemConv(b, r)})
                 IN IF c = "any" THEN <<"any">> ELSE IF c = "no" THEN toMap ELSE <<"ok", r>>
  ELSE IF a[1] = "tuple" /\ b[1] = "tuple" THEN
    LET toList == LET u == UnifyN(a[2] \o b[2]) IN
                  IF u[1] # "ok" THEN u
                  ELSE LET m == <<"list", u[2]>>
                           c == And3({HasConv(a, m), HasConv(b, m)})
                       IN IF c # "yes" THEN <<"any">> ELSE <<"ok", m>>
    IN IF Len(a[2]) # Len(b[2]) THEN toList
       ELSE LET us == [k \in 1..Len(a[2]) |-> Unify2(a[2][k], b[2][k])] IN
            IF \E k \in DOMAIN us : us[k][1] = "any" THEN <<"any">>
            ELSE IF \E k \in DOMAIN us : us[k][1] = "none" THEN <<"none">>
            ELSE LET r == <<"tuple", [k \in 1..Len(a[2]) |-> us[k][2]]>>
                     c == And3({ElemConv(a, r), ElemConv(b, r)})
                 IN IF c = "any" THEN <<"any">> ELSE IF c = "no" THEN toList ELSE <<"ok", r>>
  ELSE IF a = b THEN <<"ok", a>>
  ELSE IF {a[1], b[1]} \in {{"object", "dyn"}, {"tuple", "dyn"}} THEN <<"any">>  \* collapses to unknown
  ELSE IF {a[1], b[1]} = {"object", "tuple"} THEN <<"none">>
  ELSE LET first == IF CmpTypes(a, b) > 0 THEN b ELSE a
           second == IF CmpTypes(a, b) > 0 THEN a ELSE b
           c1 == HasConv(second, first)
           c2 == HasConv(first, second)
       IN IF c1 = "yes" THEN <<"ok", first>>
          ELSE IF c1 = "any" THEN <<"any">>
          ELSE IF c2 = "yes" THEN <<"ok", second>>
          ELSE IF c2 = "any" THEN <<"any">> ELSE <<"none">>

---------------------------------------------------------------- (* convert *)
RECURSIVE ConvApply(_, _)
RECURSIVE MinOf(_)

\* Combine a sequence of results into one: any > err > ok.
ResSeq(rs) ==
  IF \E i \in 1..Len(rs) : rs[i][1] = "any" THEN <<"any">>
  ELSE IF \E i \in 1..Len(rs) : rs[i][1] = "err" THEN <<"err">>
  ELSE <<"ok", [i \in 1..Len(rs) |-> rs[i][2]]>>
ResFn(rs) ==
  IF \E k \in DOMAIN rs : rs[k][1] = "any" THEN <<"any">>
  ELSE IF \E k \in DOMAIN rs : rs[k][1] = "err" THEN <<"err">>
  ELSE <<"ok", [k \in DOMAIN rs |-> rs[k][2]]>>

\* Iteration order of a set of primitive values.
ValLess(a, b) ==
  CASE a[1] = "str" -> StrLess(a[2], b[2])
    [] a[1] = "num" -> NumLess(a, b)
    [] a[1] = "bool" -> (a[2] = FALSE /\ b[2] = TRUE)
MinOf(S) == CHOOSE x \in S : \A y \in S : x = y \/ ValLess(x, y)
RECURSIVE SortVals(_)
SortVals(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortVals(S \ {m})

MkSet(t, seq) ==
  LET S == {seq[i] : i \in 1..Len(seq)} IN
  IF IsPrim(t) /\ \A v \in S : v[1] \notin {"unk", "null"}
  THEN <<"ok", <<"set", t, SortVals(S)>>>>
  ELSE IF Cardinality(S) <= 1 /\ \A v \in S : v[1] # "unk" THEN <<"ok", <<"set", t, SubSeq(seq, 1, Cardinality(S))>>>>
  ELSE <<"any">>

ElemApply(v, t) == IF TypeOf(v) = t THEN <<"ok", v>> ELSE ConvApply(v, t)

ConvApply(v, out) ==
  IF out = Dyn THEN <<"ok", v>>
  ELSE IF v[1] = "unk" THEN <<"ok", Unk(out)>>
  ELSE IF v[1] = "null" THEN <<"ok", Null(out)>>
  ELSE LET in == TypeOf(v) IN
  IF IsPrim(in) /\ IsPrim(out) THEN
     (IF out = String THEN <<"ok", Str(IF v[1] = "num" THEN NumToStr(v) ELSE IF v[2] THEN "true" ELSE "false")>>
      ELSE IF out = Number THEN StrToNum(v[2])
      ELSE IF v[2] \in {"true", "1"} THEN <<"ok", BoolV(TRUE)>>
      ELSE IF v[2] \in {"false", "0"} THEN <<"ok", BoolV(FALSE)>>
      ELSE <<"err">>)
  ELSE IF out[1] = "object" THEN
     LET r == ResFn([k \in DOMAIN out[2] |-> ElemApply(v[2][k], out[2][k])]) IN
     IF r[1] = "ok" THEN <<"ok", <<"obj", r[2]>>>> ELSE r
  ELSE IF out[1] = "tuple" THEN
     LET r == ResSeq([i \in 1..Len(v[2]) |-> ElemApply(v[2][i], out[2][i])]) IN
     IF r[1] = "ok" THEN <<"ok", <<"tuple", r[2]>>>> ELSE r
  ELSE IF out[1] \in {"list", "set"} THEN
     LET elems == IF v[1] = "tuple" THEN v[2] ELSE v[3]
         ety == IF out[2] # Dyn THEN out[2]
                ELSE IF v[1] # "tuple" THEN v[2]
                ELSE IF Len(elems) = 0 THEN Dyn
                ELSE LET u == UnifyN(TypeOf(v)[2]) IN IF u[1] = "ok" THEN u[2] ELSE Dyn
         r == ResSeq([i \in 1..Len(elems) |-> ElemApply(elems[i], ety)])
     IN IF r[1] # "ok" THEN r
        ELSE IF HasDyn(ety) /\ Len(elems) > 0 THEN <<"any">>
        ELSE IF out[1] = "list" THEN <<"ok", <<"list", ety, r[2]>>>> ELSE MkSet(ety, r[2])
  ELSE IF out[1] = "map" THEN
     LET fn == IF v[1] = "obj" THEN v[2] ELSE v[3]
         ks == SortStrs(DOMAIN fn)
         ety == IF out[2] # Dyn THEN out[2]
                ELSE IF v[1] = "map" THEN v[2]
                ELSE IF Len(ks) = 0 THEN Dyn
                ELSE LET S == {TypeOf(fn[k]) : k \in DOMAIN fn}
                         u == IF Cardinality(S) = 1 THEN <<"ok", CHOOSE t \in S : TRUE>>
                              ELSE UnifyN([i \in 1..Len(ks) |-> TypeOf(fn[ks[i]])]) IN IF u[1] = "ok" THEN u[2] ELSE Dyn
         r == ResFn([k \in DOMAIN fn |-> ElemApply(fn[k], ety)])
     IN IF r[1] # "ok" THEN r
        ELSE IF HasDyn(ety) /\ Len(ks) > 0 THEN <<"any">>
        ELSE <<"ok", <<"map", ety, r[2]>>>>
  ELSE <<"err">>

\* Conversion of a value to a wanted type.
Convert(v, want) ==
  LET in == TypeOf(v) IN
  IF in = want THEN <<"ok", v>>
  ELSE LET c == HasConv(in, want) IN
       IF c = "any" THEN <<"any">> ELSE IF c = "no" THEN <<"err">> ELSE ConvApply(v, want)

---------------------------------------------------------------- (* equality *)
\* The == operation: <<"bool",b>>, unknown bool, or <<"any">> when the result
\* depends on the unspecified order in which attributes are compared.
RECURSIVE EqVal(_, _)
EqSeq(rs) ==  \* left to right: the first undecided or false element decides
  LET hits == {i \in 1..Len(rs) : rs[i] # BoolV(TRUE)} IN
  IF \E i \in 1..Len(rs) : rs[i] = <<"any">> THEN <<"any">>
  ELSE IF hits = {} THEN BoolV(TRUE)
  ELSE rs[CHOOSE i \in hits : \A j \in hits : i <= j]
EqFn(rs) ==
  LET S == {rs[k] : k \in DOMAIN rs} \ {BoolV(TRUE)} IN
  IF S = {} THEN BoolV(TRUE)
  ELSE IF Cardinality(S) > 1 THEN <<"any">> ELSE CHOOSE r \in S : TRUE

EqVal(a, b) ==
  IF ~IsKnown(a) /\ ~IsKnown(b) THEN Unk(Bool)
  ELSE IF ~IsKnown(a) \/ ~IsKnown(b) THEN
    LET k == IF IsKnown(a) THEN a ELSE b
        u == IF IsKnown(a) THEN b ELSE a
    IN IF IsNull(k) \/ HasDyn(TypeOf(u)) THEN Unk(Bool)
       ELSE IF TypeOf(k) # TypeOf(u) THEN BoolV(FALSE) ELSE Unk(Bool)
  ELSE IF IsNull(a) /\ IsNull(b) THEN BoolV(TRUE)
  ELSE IF IsNull(a) \/ IsNull(b) THEN BoolV(FALSE)
  ELSE LET ta == TypeOf(a) tb == TypeOf(b) IN
  IF HasDyn(ta) \/ HasDyn(tb) THEN Unk(Bool)
  ELSE IF ta # tb THEN BoolV(FALSE)
  ELSE CASE a[1] \in {"str", "bool", "num"} -> BoolV(a = b)
         [] a[1] = "obj" -> EqFn([k \in DOMAIN a[2] |-> EqVal(a[2][k], b[2][k])])
         [] a[1] = "tuple" -> EqSeq([i \in 1..Len(a[2]) |-> EqVal(a[2][i], b[2][i])])
         [] a[1] = "list" -> IF Len(a[3]) # Len(b[3]) THEN BoolV(FALSE)
                             ELSE EqSeq([i \in 1..Len(a[3]) |-> EqVal(a[3][i], b[3][i])])
         [] a[1] = "map" -> IF DOMAIN a[3] # DOMAIN b[3] THEN
                                (IF Cardinality(DOMAIN a[3]) # Cardinality(DOMAIN b[3]) THEN BoolV(FALSE)
                                 ELSE IF WhollyKnown(a) /\ WhollyKnown(b) THEN BoolV(FALSE) ELSE <<"any">>)
                            ELSE EqFn([k \in DOMAIN a[3] |-> EqVal(a[3][k], b[3][k])])
         [] a[1] = "set" -> IF WhollyKnown(a) /\ WhollyKnown(b)
                            THEN BoolV({a[3][i] : i \in 1..Len(a[3])} = {b[3][i] : i \in 1..Len(b[3])})
                            ELSE <<"any">>

---------------------------------------------------------------- (* refinement *)
\* TypeRefines(t, u): u is what t may become once unknown types are known.
RECURSIVE TypeRefines(_, _)
TypeRefines(t, u) ==
  IF t = Dyn THEN TRUE
  ELSE IF t[1] # u[1] THEN FALSE
  ELSE CASE t[1] \in {"list", "set", "map"} -> TypeRefines(t[2], u[2])
         [] t[1] = "tuple" -> Len(t[2]) = Len(u[2]) /\ \A i \in 1..Len(t[2]) : TypeRefines(t[2][i], u[2][i])
         [] t[1] = "object" -> DOMAIN t[2] = DOMAIN u[2] /\ \A k \in DOMAIN t[2] : TypeRefines(t[2][k], u[2][k])
         [] OTHER -> TRUE

\* Refines(v, w): w is a possible later, more known, version of v.
RECURSIVE Refines(_, _)
Refines(v, w) ==
  IF v[1] = "unk" THEN TypeRefines(v[2], TypeOf(w))
  ELSE IF v[1] # w[1] THEN FALSE
  ELSE CASE v[1] = "list" -> Len(v[3]) = Len(w[3]) /\ TypeRefines(v[2], w[2]) /\ \A i \in 1..Len(v[3]) : Refines(v[3][i], w[3][i])
         [] v[1] = "set" -> TypeRefines(v[2], w[2]) /\ (WhollyKnown(v) => v = w)
         [] v[1] = "tuple" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : Refines(v[2][i], w[2][i])
         [] v[1] = "map" -> DOMAIN v[3] = DOMAIN w[3] /\ TypeRefines(v[2], w[2]) /\ \A k \in DOMAIN v[3] : Refines(v[3][k], w[3][k])
         [] v[1] = "obj" -> DOMAIN v[2] = DOMAIN w[2] /\ \A k \in DOMAIN v[2] : Refines(v[2][k], w[2][k])
         [] v[1] = "null" -> TypeRefines(v[2], w[2])
         [] OTHER -> v = w

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
=============================================================================
