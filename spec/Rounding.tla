------------------------------ MODULE Rounding -------------------------------
(***************************************************************************)
(* The one rounding step every operation shares: an exact positive real    *)
(* N/D * 2^e with a sign is delivered in a format.                         *)
(* Status flags are sets of: "inv" invalid, "dz" division by zero,         *)
(* "of" overflow, "uf" underflow, "ix" inexact.                            *)
(***************************************************************************)
EXTENDS Formats

Res(v, st) == [v |-> v, st |-> st]
OK(v) == Res(v, {})
Invalid(F) == Res(DefaultNaN(F, 0), {"inv"})

(* floor(log2(N/D)) for N, D > 0 *)
FloorLog2(N, D) ==
  LET k == ZBits(N) - ZBits(D)
  IN IF k >= 0 THEN IF (D ** ZPow2(k)) \preceq N THEN k ELSE k - 1
     ELSE IF D \preceq (N ** ZPow2(-k)) THEN k ELSE k - 1

(* Is the magnitude moved away from zero?  half: -1/0/1 as the discarded    *)
(* part is below/at/above one half (and not zero).                          *)
Away(rm, s, odd, half) ==
  CASE rm = "NE" -> half = 1 \/ (half = 0 /\ odd)
    [] rm = "NA" -> half >= 0
    [] rm = "TP" -> s = 0
    [] rm = "TN" -> s = 1
    [] rm = "TZ" -> FALSE

(* Round N/D * 2^e to a multiple of 2^q: [m, exact]. *)
ToGrid(rm, s, N, D, e, q) ==
  LET d  == e - q
      A  == IF d > 0 THEN N ** ZPow2(d) ELSE N
      B  == IF d < 0 THEN D ** ZPow2(-d) ELSE D
      m0 == A // B
      r  == A -- (m0 ** B)
      r2 == r ++ r
      half == IF r2 \prec B THEN -1 ELSE IF r2 = B THEN 0 ELSE 1
  IN IF r = Z0 THEN [m |-> m0, exact |-> TRUE]
     ELSE [m |-> IF Away(rm, s, ZOdd(m0), half) THEN m0 ++ Z1 ELSE m0, exact |-> FALSE]

OverflowTo(F, rm, s) ==
  IF rm \in {"NE", "NA"} \/ (rm = "TP" /\ s = 0) \/ (rm = "TN" /\ s = 1)
  THEN Res(Inf(F, s), {"of", "ix"})
  ELSE Res(Largest(F, s), {"ix"})

(* Deliver the exact value (-1)^s * N/D * 2^e, N > 0, D > 0. *)
RoundTo(F, rm, s, N, D, e) ==
  LET k  == FloorLog2(N, D) + e
      q  == Max2(k - (F.p - 1), F.emine)
  IN IF k > F.emax THEN OverflowTo(F, rm, s)
     ELSE LET g  == ToGrid(rm, s, N, D, e, q)
              carry == g.m = F.top
              m  == IF carry THEN F.hid ELSE g.m
              q1 == IF carry THEN q + 1 ELSE q
              over == q1 > F.emaxe \/ (q1 = F.emaxe /\ F.maxm \prec m)
          IN IF over THEN OverflowTo(F, rm, s)
             ELSE IF m = Z0 THEN Res(Zero(s), {"uf", "ix"})
             ELSE Res(Num(s, m, q1),
                      IF g.exact THEN {}
                      ELSE IF m \prec F.hid THEN {"uf", "ix"} ELSE {"ix"})

(* Signed exact integers at a common exponent. *)
Signed(s, m) == IF s = 1 THEN Z0 -- m ELSE m
ZAbs(z) == IF z \prec Z0 THEN Z0 -- z ELSE z
ZSign(z) == IF z \prec Z0 THEN 1 ELSE 0
AtExp(x, e) == Signed(x.s, x.m ** ZPow2(x.e - e))     \* value of num x in units of 2^e

RoundSigned(F, rm, z, e) == RoundTo(F, rm, ZSign(z), ZAbs(z), Z1, e)   \* z # 0
=============================================================================
