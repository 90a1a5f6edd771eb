----------------------------- MODULE MCDecPlace -----------------------------
(***************************************************************************)
(* The places of values and problems for the specifications and the native *)
(* bodies of MCDec.                                                        *)
(*   Wrong: a decoding that fails has a problem, a decoding that has a     *)
(*   sure problem fails.                                                   *)
(***************************************************************************)
EXTENDS MCDec, DecPlace

Placed == body[1] = "native" /\ ~PMixed(spec)
EmitPlace ==
  (done /\ Placed) => LET q == BodyProbs(spec, body[2], <<>>) IN
          CSVWrite("%1$s", <<ToJson([spec |-> spec, body |-> body, probs |-> q,
                                     place |-> IF q = {} /\ PExact(spec, body[2]) THEN PPlace(spec, body[2], <<>>, 0) ELSE <<"any">>])>>, IOEnv.OUT)
Wrong == (~done /\ Placed) =>
  LET q == BodyProbs(spec, body[2], <<>>)
      d == DecodeBody(H, spec, "content", <<>>, FALSE)
  IN d.any \/ ((d.e => q # {}) /\ ((\E x \in q : x[3]) => d.e))
=============================================================================
