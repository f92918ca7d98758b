-------------------------------- MODULE Conv ---------------------------------
(***************************************************************************)
(* Conversions between formats and to and from integers.                   *)
(***************************************************************************)
EXTENDS Arith

(* NaN payloads stay aligned at the quiet bit.  A payload-free source NaN    *)
(* contributes its all-ones field.                                           *)
NaNPayloadMoved(F, G, m) ==
  LET d == G.p - F.p
  IN IF d >= 0 THEN m ** ZPow2(d) ELSE IF F.payload THEN m // ZPow2(-d) ELSE m
NaNPayloadDropped(F, G, m) ==
  LET d == G.p - F.p IN d < 0 /\ F.payload /\ m %% ZPow2(-d) # Z0

(* [v, st, loses] *)
Convert(F, G, rm, a) ==
  CASE IsNaN(a) ->
         LET q == Quieted(F, a)
         IN [v  |-> WithSign(QNaNWith(G, TRUE, NaNPayloadMoved(F, G, q.m)), a.s),
             st |-> IF Signaling(F, a) THEN {"inv"} ELSE {},
             loses |-> \/ NaNPayloadDropped(F, G, q.m)
                       \/ F.kind = "x87" /\ G.kind # "x87" /\ Signaling(F, a)
                       \/ F.payload /\ ~G.payload]
    [] IsInf(a) -> [v |-> Inf(G, a.s), st |-> IF G.hasinf THEN {} ELSE {"ix"}, loses |-> ~G.hasinf]
    [] IsZero(a) -> [v |-> a, st |-> {}, loses |-> FALSE]
    [] IsNum(a) -> LET r == RoundTo(G, rm, a.s, a.m, Z1, a.e)
                   IN [v |-> r.v, st |-> r.st, loses |-> r.st # {}]

(* Integer targets: [lo, hi].  Result [z, st, exact]. *)
IntLo(signed, w) == IF signed THEN Z0 -- ZPow2(w - 1) ELSE Z0
IntHi(signed, w) == IF signed THEN ZPow2(w - 1) -- Z1 ELSE ZPow2(w) -- Z1
ToInt(rm, signed, w, a) ==
  LET lo == IntLo(signed, w)
      hi == IntHi(signed, w)
      sat(s) == [z |-> IF s = 1 THEN lo ELSE hi, st |-> {"inv"}, exact |-> FALSE]
  IN CASE IsNaN(a) -> [z |-> Z0, st |-> {"inv"}, exact |-> FALSE]
       [] IsInf(a) -> sat(a.s)
       [] IsZero(a) -> [z |-> Z0, st |-> {}, exact |-> a.s = 0]
       [] IsNum(a) -> LET g == ToGrid(rm, a.s, a.m, Z1, a.e, 0)
                          z == Signed(a.s, g.m)
                      IN IF z \prec lo \/ hi \prec z THEN sat(a.s)
                         ELSE [z |-> z, st |-> IF g.exact THEN {} ELSE {"ix"}, exact |-> g.exact]

FromInt(F, rm, z) == IF z = Z0 THEN OK(Zero(0)) ELSE RoundSigned(F, rm, z, 0)
=============================================================================
