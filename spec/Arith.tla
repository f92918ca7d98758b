-------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* Operations of the IEEE-style formats: exact value, then one rounding.   *)
(***************************************************************************)
EXTENDS Rounding

(* NaN operands: the first NaN is delivered, quieted; invalid iff it or the *)
(* second operand is signaling.                                             *)
NaNResult(F, a) == Res(Quieted(F, a), IF Signaling(F, a) THEN {"inv"} ELSE {})
NaNBin(F, a, b) ==
  LET r == IF IsNaN(a) THEN a ELSE b
  IN Res(Quieted(F, r), IF Signaling(F, r) \/ Signaling(F, b) THEN {"inv"} ELSE {})

ExactZeroSign(rm) == IF rm = "TN" THEN 1 ELSE 0

FiniteAdd(F, rm, a, b) ==                       \* both finite
  IF IsZero(a) /\ IsZero(b) THEN OK(IF a.s = b.s THEN a ELSE Zero(ExactZeroSign(rm)))
  ELSE IF IsZero(a) THEN OK(b)
  ELSE IF IsZero(b) THEN OK(a)
  ELSE LET e == Min2(a.e, b.e)
           z == AtExp(a, e) ++ AtExp(b, e)
       IN IF z = Z0 THEN OK(Zero(ExactZeroSign(rm))) ELSE RoundSigned(F, rm, z, e)

Add(F, rm, a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaNBin(F, a, b)
  ELSE IF IsInf(a) /\ IsInf(b) THEN IF a.s = b.s THEN OK(a) ELSE Invalid(F)
  ELSE IF IsInf(a) THEN OK(a)
  ELSE IF IsInf(b) THEN OK(b)
  ELSE FiniteAdd(F, rm, a, b)

Sub(F, rm, a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaNBin(F, a, b) ELSE Add(F, rm, a, Flip(b))

Mul(F, rm, a, b) ==
  LET s == XorSign(a.s, b.s)
  IN IF IsNaN(a) \/ IsNaN(b) THEN NaNBin(F, a, b)
     ELSE IF (IsInf(a) /\ IsZero(b)) \/ (IsZero(a) /\ IsInf(b)) THEN Invalid(F)
     ELSE IF IsInf(a) \/ IsInf(b) THEN OK(Inf(F, s))
     ELSE IF IsZero(a) \/ IsZero(b) THEN OK(Zero(s))
     ELSE RoundTo(F, rm, s, a.m ** b.m, Z1, a.e + b.e)

Div(F, rm, a, b) ==
  LET s == XorSign(a.s, b.s)
  IN IF IsNaN(a) \/ IsNaN(b) THEN NaNBin(F, a, b)
     ELSE IF (IsInf(a) /\ IsInf(b)) \/ (IsZero(a) /\ IsZero(b)) THEN Invalid(F)
     ELSE IF IsInf(a) THEN OK(Inf(F, s))
     ELSE IF IsZero(a) \/ IsInf(b) THEN OK(Zero(s))
     ELSE IF IsZero(b) THEN Res(Inf(F, s), {"dz"})
     ELSE RoundTo(F, rm, s, a.m, b.m, a.e - b.e)

(* a * b + c *)
MulAdd(F, rm, a, b, c) ==
  IF IsNum(a) /\ IsNum(b)
  THEN IF ~IsFinite(c) THEN Add(F, rm, a, c)     \* the product is finite: c decides
       ELSE LET s  == XorSign(a.s, b.s)
                pm == a.m ** b.m
                pe == a.e + b.e
            IN IF IsZero(c) THEN RoundTo(F, rm, s, pm, Z1, pe)
               ELSE LET e == Min2(pe, c.e)
                        z == Signed(s, pm ** ZPow2(pe - e)) ++ AtExp(c, e)
                    IN IF z = Z0 THEN OK(Zero(ExactZeroSign(rm))) ELSE RoundSigned(F, rm, z, e)
  ELSE LET p == Mul(F, rm, a, b)                 \* a special product: exact, or invalid
       IN IF p.st = {} THEN Add(F, rm, p.v, c) ELSE p

(* x - n*y, n = x/y truncated.  Exact. *)
Fmod(F, a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaNBin(F, a, b)
  ELSE IF IsInf(a) \/ IsZero(b) THEN Invalid(F)
  ELSE IF IsZero(a) \/ IsInf(b) THEN OK(a)
  ELSE LET e == Min2(a.e, b.e)
           r == (a.m ** ZPow2(a.e - e)) %% (b.m ** ZPow2(b.e - e))
       IN IF r = Z0 THEN OK(Zero(a.s)) ELSE RoundTo(F, "NE", a.s, r, Z1, e)

(* x - n*y, n = x/y rounded to nearest, ties to even.  Exact. *)
Rem(F, a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaNBin(F, a, b)
  ELSE IF IsInf(a) \/ IsZero(b) THEN Invalid(F)
  ELSE IF IsZero(a) \/ IsInf(b) THEN OK(a)
  ELSE LET e == Min2(a.e, b.e)
           x == a.m ** ZPow2(a.e - e)
           y == b.m ** ZPow2(b.e - e)
           n == ToGrid("NE", 0, x, y, 0, 0).m
           r == x -- (n ** y)                      \* may be negative
       IN IF r = Z0 THEN OK(Zero(a.s))
          ELSE RoundTo(F, "NE", XorSign(a.s, ZSign(r)), ZAbs(r), Z1, e)

RoundInt(F, rm, a) ==
  IF IsNaN(a) THEN NaNResult(F, a)
  ELSE IF ~IsNum(a) \/ a.e >= 0 THEN OK(a)
  ELSE LET g == ToGrid(rm, a.s, a.m, Z1, a.e, 0)
       IN IF g.exact THEN OK(a)
          ELSE IF g.m = Z0 THEN Res(Zero(a.s), {"ix"})
          ELSE Res(RoundTo(F, rm, a.s, g.m, Z1, 0).v, {"ix"})

(* Magnitude neighbours of a finite non-zero value. *)
Bigger(F, a) ==
  LET m == a.m ++ Z1
      r == IF m = F.top THEN Num(a.s, F.hid, a.e + 1) ELSE Num(a.s, m, a.e)
  IN IF r.e > F.emaxe \/ (r.e = F.emaxe /\ F.maxm \prec r.m) THEN Inf(F, a.s) ELSE r
Smaller(F, a) ==
  IF a.m = F.hid /\ a.e > F.emine THEN Num(a.s, F.top -- Z1, a.e - 1)
  ELSE IF a.m = Z1 THEN Zero(a.s) ELSE Num(a.s, a.m -- Z1, a.e)

NextUp(F, a) ==
  CASE IsNaN(a) -> IF Signaling(F, a) THEN Res(DefaultNaN(F, a.s), {"inv"}) ELSE OK(a)
    [] IsInf(a) -> OK(IF a.s = 1 THEN Largest(F, 1) ELSE a)
    [] IsZero(a) -> OK(Smallest(F, 0))
    [] IsNum(a) -> OK(IF a.s = 0 THEN Bigger(F, a) ELSE Smaller(F, a))
NextDown(F, a) == LET r == NextUp(F, Flip(a)) IN Res(Flip(r.v), r.st)

(***************************************************************************)
(* Order.                                                                  *)
(***************************************************************************)
CmpZ(x, y) == IF x \prec y THEN "lt" ELSE IF x = y THEN "eq" ELSE "gt"
CmpMag(a, b) ==                                   \* finite non-zero
  LET e == Min2(a.e, b.e) IN CmpZ(a.m ** ZPow2(a.e - e), b.m ** ZPow2(b.e - e))
Rank(x) == CASE IsInf(x) -> IF x.s = 1 THEN -2 ELSE 2
             [] IsZero(x) -> 0
             [] OTHER -> IF x.s = 1 THEN -1 ELSE 1
Compare(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN "un"
  ELSE IF Rank(a) # Rank(b) THEN IF Rank(a) < Rank(b) THEN "lt" ELSE "gt"
  ELSE IF ~IsNum(a) THEN "eq"
  ELSE IF a.s = 0 THEN CmpMag(a, b) ELSE CmpMag(b, a)

MinNum(a, b) == IF IsNaN(a) THEN b ELSE IF IsNaN(b) THEN a
                ELSE IF Compare(b, a) = "lt" THEN b ELSE a
MaxNum(a, b) == IF IsNaN(a) THEN b ELSE IF IsNaN(b) THEN a
                ELSE IF Compare(a, b) = "lt" THEN b ELSE a
Minimum(a, b) ==
  IF IsNaN(a) THEN a ELSE IF IsNaN(b) THEN b
  ELSE IF IsZero(a) /\ IsZero(b) THEN IF a.s = 1 THEN a ELSE b
  ELSE IF Compare(b, a) = "lt" THEN b ELSE a
Maximum(a, b) ==
  IF IsNaN(a) THEN a ELSE IF IsNaN(b) THEN b
  ELSE IF IsZero(a) /\ IsZero(b) THEN IF a.s = 0 THEN a ELSE b
  ELSE IF Compare(a, b) = "lt" THEN b ELSE a

(***************************************************************************)
(* Scaling, exponents, inverses, classes.                                  *)
(***************************************************************************)
(* Scale factors that leave the format from any of its numbers deliver the  *)
(* same overflow or underflow as the bound itself.                          *)
ClampExp(F, n) == Max2(-2 * Reach(F), Min2(2 * Reach(F), n))
Scale(F, rm, a, n) ==
  IF IsNaN(a) THEN Quieted(F, a)
  ELSE IF ~IsNum(a) THEN a
  ELSE RoundTo(F, rm, a.s, a.m, Z1, a.e + ClampExp(F, n)).v

IekInf == 2147483647
IekZero == -2147483647
IekNaN == -2147483647 - 1
ILogB(a) ==
  CASE IsNaN(a) -> IekNaN
    [] IsInf(a) -> IekInf
    [] IsZero(a) -> IekZero
    [] IsNum(a) -> ZBits(a.m) - 1 + a.e
(* fraction in [1/2, 1) and exponent *)
Frexp(F, rm, a) ==
  CASE IsNaN(a) -> [v |-> Quieted(F, a), n |-> IekNaN]
    [] IsInf(a) -> [v |-> a, n |-> IekInf]
    [] IsZero(a) -> [v |-> a, n |-> 0]
    [] IsNum(a) -> LET n == ILogB(a) + 1 IN [v |-> Scale(F, rm, a, -n), n |-> n]

(* Only normal powers of two with a normal reciprocal: <<>> or <<x>>. *)
ExactInverse(F, a) ==
  IF ~(IsNum(a) /\ a.m = F.hid) THEN << >>
  ELSE LET k == -(a.e + F.p - 1)                  \* reciprocal is 2^k
       IN IF k < F.emin \/ k > F.emax THEN << >>
          ELSE << Num(a.s, F.hid, k - (F.p - 1)) >>

IsInteger(a) ==
  IsZero(a) \/ (IsNum(a) /\ (a.e >= 0 \/ a.m %% ZPow2(-a.e) = Z0))
SameMag(a, b) == a.c = b.c /\ a.m = b.m /\ a.e = b.e

(* Class query word: one bit per query, in this order. *)
Queries(F, x) == <<
  x.s = 1, IsSubnormal(F, x), Signaling(F, x), IsNaN(x), IsInf(x), IsZero(x),
  IsNum(x) /\ ~IsSubnormal(F, x),            \* normal
  IsFinite(x), ~IsZero(x), IsNum(x),
  IsZero(x) /\ x.s = 0, IsZero(x) /\ x.s = 1, IsInf(x) /\ x.s = 0, IsInf(x) /\ x.s = 1,
  IsNum(x) /\ SameMag(x, Smallest(F, 0)), IsNum(x) /\ SameMag(x, SmallestNormal(F, 0)),
  IsNum(x) /\ SameMag(x, Largest(F, 0)), IsInteger(x) >>
=============================================================================
