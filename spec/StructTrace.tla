----------------------------- MODULE StructTrace -----------------------------
(* Validates recorded decodings into structures and encodings of structures. *)
(* Record: [op |-> "decode", shape, body, got: [v, e, n, schema, partial,     *)
(*          prior: what a second place holds, again: the same afterwards]]     *)
(*         [op |-> "encode", shape, val, got: [items, block, back, e]]        *)
EXTENDS StructOps, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

JudgeDecode(r) ==
  LET x == TLCEval(IntoShape(Open(r.body), r.shape)) IN
  IF r.got.schema # SchemaObs(r.shape) \/ r.got.partial # PartialObs(r.shape) THEN [st |-> "bad", want |-> <<SchemaObs(r.shape), PartialObs(r.shape)>>]
  ELSE IF x.any THEN [st |-> "any", want |-> <<>>]
  ELSE IF x.e # r.got.e \/ r.got.n < x.n THEN [st |-> "bad", want |-> <<x.e, x.n, x.v>>]
  ELSE IF x.e THEN [st |-> "ok", want |-> <<>>]
  ELSE IF FixGo(x.v) # FixGo(r.got.v) THEN [st |-> "bad", want |-> x.v]
  \* the same decoding into a place that was in use before
  ELSE IF r.got.prior = <<>> THEN [st |-> "ok", want |-> <<>>]
  ELSE LET y == TLCEval(IntoShapeP(Open(r.body), r.shape, r.got.prior)) IN
       IF FixGo(y.v) = FixGo(r.got.again) THEN [st |-> "ok", want |-> <<>>] ELSE [st |-> "bad", want |-> <<"again", y.v>>]
JudgeEncode(r) ==
  LET items == EncodeRec(r.val, r.shape[2])
      block == <<EncodeBlock("top", r.val, r.shape)>>
  IN IF FixItems(r.got.items) # FixItems(items) \/ FixItems(r.got.block) # FixItems(block) THEN [st |-> "bad", want |-> <<items, block>>]
     ELSE IF FullShape(r.shape) /\ FullVal(r.val, r.shape) /\ (r.got.e \/ FixGo(r.got.back) # FixGo(r.val)) THEN [st |-> "bad", want |-> r.val]
     ELSE [st |-> "ok", want |-> <<>>]
Check(r) == IF r.op = "decode" THEN JudgeDecode(r) ELSE JudgeEncode(r)

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET c == Check(Recs[i]) IN
           IF c.st = "ok" THEN TRUE
           ELSE IF c.st = "any" THEN Emit([i |-> i, st |-> "any"])
           ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> c.want])
=============================================================================
