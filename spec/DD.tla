--------------------------------- MODULE DD ----------------------------------
(***************************************************************************)
(* Double-double: a pair [hi, lo] of data of a binary format (f64 for the   *)
(* 128-bit DoubleDouble).  Addition and multiplication *)
(* are Linnainmaa's sequences of double operations (TOMS 7(3), 1981, the    *)
(* ones LLVM uses); the remaining operations go through a format of twice   *)
(* the precision and are split back into a pair.                                       *)
(***************************************************************************)
EXTENDS Text

(* A double format: the format d of the two parts, the format b of the      *)
(* intermediate, and x, the same with the exponent range of d.               *)
DoubleOf(d) == [d |-> d,
                b |-> FormatOf(0, 0, 2 * d.p, d.emin + d.p, d.emax, "ieee"),
                x |-> FormatOf(0, 0, 2 * d.p, d.emin, d.emax, "ieee")]
Pair(a, b) == [hi |-> a, lo |-> b]
DDDecode(D, b) == Pair(Decode(D.d, b %% ZPow2(D.d.bits)), Decode(D.d, b // ZPow2(D.d.bits)))
DDEncode(D, x) == Encode(D.d, x.hi) ++ (Encode(D.d, x.lo) ** ZPow2(D.d.bits))
DDZero(D, s) == Pair(Zero(s), Zero(0))
DDInf(D) == Pair(Inf(D.d, 0), Zero(0))
DDNaN(D, s) == Pair(DefaultNaN(D.d, s), Zero(0))

DDNeg(D, x) == IF IsNum(x.lo) THEN Pair(Flip(x.hi), Flip(x.lo)) ELSE Pair(Flip(x.hi), x.lo)
DDWithSign(D, x, s) == IF x.hi.s = s THEN x ELSE DDNeg(D, x)

(***************************************************************************)
(* Addition: a + aa + c + cc.                                              *)
(***************************************************************************)
DDAddFinite(D, rm, x, y) ==
  LET A(u, v) == Add(D.d, rm, u, v)
      S(u, v) == Sub(D.d, rm, u, v)
      a == x.hi  aa == x.lo  c == y.hi  cc == y.lo
      z1 == A(a, c)
  IN
  IF IsNaN(z1.v) THEN Res(Pair(z1.v, Zero(0)), z1.st)
  ELSE IF IsInf(z1.v) THEN                          \* try again, smallest parts first
    LET first == CmpMag(a, c) = "gt"
        t1 == A(cc, aa)
        t2 == A(t1.v, IF first THEN c ELSE a)
        t3 == A(t2.v, IF first THEN a ELSE c)
        st3 == t1.st \cup t2.st \cup t3.st
        zz == A(aa, cc)
        l1 == S(IF first THEN a ELSE c, t3.v)
        l2 == A(l1.v, IF first THEN c ELSE a)
        l3 == A(l2.v, zz.v)
    IN IF ~IsFinite(t3.v) THEN Res(Pair(t3.v, Zero(0)), st3)
       ELSE Res(Pair(t3.v, l3.v), st3 \cup zz.st \cup l1.st \cup l2.st \cup l3.st)
  ELSE
    LET q1 == S(a, z1.v)
        w1 == A(q1.v, c)
        q2 == A(q1.v, z1.v)
        q3 == S(q2.v, a)
        w2 == A(w1.v, Flip(q3.v))
        w3 == A(w2.v, aa)
        w4 == A(w3.v, cc)
        st4 == z1.st \cup q1.st \cup w1.st \cup q2.st \cup q3.st \cup w2.st \cup w3.st \cup w4.st
        h  == A(z1.v, w4.v)
        l1 == S(z1.v, h.v)
        l2 == A(l1.v, w4.v)
    IN IF IsZero(w4.v) /\ w4.v.s = 0 THEN OK(Pair(z1.v, Zero(0)))
       ELSE IF ~IsFinite(h.v) THEN Res(Pair(h.v, Zero(0)), st4 \cup h.st)
       ELSE Res(Pair(h.v, l2.v), st4 \cup h.st \cup l1.st \cup l2.st)

DDAdd(D, rm, x, y) ==
  IF IsInf(x.hi) /\ IsInf(y.hi) THEN IF x.hi.s # y.hi.s THEN Res(DDNaN(D, x.hi.s), {"inv"}) ELSE OK(x)
  ELSE IF IsZero(y.hi) \/ IsNaN(x.hi) \/ (IsInf(x.hi) /\ IsNum(y.hi)) THEN OK(x)
  ELSE IF IsZero(x.hi) \/ IsNaN(y.hi) \/ IsInf(y.hi) THEN OK(y)
  ELSE DDAddFinite(D, rm, x, y)
DDSub(D, rm, x, y) == DDAdd(D, rm, x, DDNeg(D, y))

(***************************************************************************)
(* Multiplication: t = a*c, tau = the rest.                                *)
(***************************************************************************)
DDMulFinite(D, rm, x, y) ==
  LET A(u, v) == Add(D.d, rm, u, v)
      M(u, v) == Mul(D.d, rm, u, v)
      t == M(x.hi, y.hi)
      tau1 == MulAdd(D.d, rm, x.hi, y.hi, Flip(t.v))
      v1 == M(x.hi, y.lo)
      w1 == M(x.lo, y.hi)
      v2 == A(v1.v, w1.v)
      tau2 == A(tau1.v, v2.v)
      u == A(t.v, tau2.v)
      st6 == t.st \cup tau1.st \cup v1.st \cup w1.st \cup v2.st \cup tau2.st \cup u.st
      l1 == Sub(D.d, rm, t.v, u.v)
      l2 == A(l1.v, tau2.v)
  IN IF ~IsNum(t.v) THEN Res(Pair(t.v, Zero(0)), t.st)
     ELSE IF ~IsFinite(u.v) THEN Res(Pair(u.v, Zero(0)), st6)
     ELSE Res(Pair(u.v, l2.v), st6 \cup l1.st \cup l2.st)
DDMul(D, rm, x, y) ==
  LET a == x.hi  c == y.hi IN
  IF IsNaN(a) THEN OK(x)
  ELSE IF IsNaN(c) THEN OK(y)
  ELSE IF (IsZero(a) /\ IsInf(c)) \/ (IsInf(a) /\ IsZero(c)) THEN OK(DDNaN(D, 0))
  ELSE IF IsZero(a) \/ IsInf(a) THEN OK(x)
  ELSE IF IsZero(c) \/ IsInf(c) THEN OK(y)
  ELSE DDMulFinite(D, rm, x, y)

(***************************************************************************)
(* The 106-bit intermediate.                                               *)
(***************************************************************************)
ToFB(D, x) ==
  IF ~IsNum(x.hi) THEN Convert(D.d, D.b, "NE", x.hi).v
  ELSE Add(D.b, "NE", Convert(D.d, D.b, "NE", x.hi).v, Convert(D.d, D.b, "NE", x.lo).v).v
(* Split: hi = nearest double, lo = what is left. *)
FromFB(D, z) ==
  LET h == Convert(D.x, D.d, "NE", z)
      rest == Sub(D.x, "NE", z, Convert(D.d, D.x, "NE", h.v).v)
  IN IF IsNum(h.v) /\ h.loses THEN Pair(h.v, Convert(D.x, D.d, "NE", rest.v).v)
     ELSE Pair(h.v, Zero(0))
Via(D, r) == Res(FromFB(D, r.v), r.st)

DDMulAdd(D, rm, x, y, z) == Via(D, MulAdd(D.b, rm, ToFB(D, x), ToFB(D, y), ToFB(D, z)))
DDDiv(D, rm, x, y) == Via(D, Div(D.b, rm, ToFB(D, x), ToFB(D, y)))
DDRem(D, x, y) == Via(D, Rem(D.b, ToFB(D, x), ToFB(D, y)))
DDFmod(D, x, y) == Via(D, Fmod(D.b, ToFB(D, x), ToFB(D, y)))
DDRoundInt(D, rm, x) == Via(D, RoundInt(D.b, rm, ToFB(D, x)))
DDLargest(D, s) ==
  DDWithSign(D, Pair(Largest(D.d, 0), NextDown(D.d, Scale(D.d, "NE", Largest(D.d, 0), -(D.d.p + 1))).v), s)
DDNextUp(D, x) == IF IsInf(x.hi) /\ x.hi.s = 1 THEN OK(DDLargest(D, 1)) ELSE Via(D, NextUp(D.b, ToFB(D, x)))
DDNextDown(D, x) == LET r == DDNextUp(D, DDNeg(D, x)) IN Res(DDNeg(D, r.v), r.st)
DDFromInt(D, rm, z) == IF z \prec Z0
                    THEN LET r == FromInt(D.b, NegMode(rm), Z0 -- z) IN Res(DDNeg(D, FromFB(D, r.v)), r.st)
                    ELSE Via(D, FromInt(D.b, rm, z))
DDToInt(D, rm, signed, w, x) == ToInt(rm, signed, w, ToFB(D, x))
DDParse(D, rm, s) == LET r == Parse(D.b, rm, s)
                  IN [ok |-> r.ok, err |-> r.err, st |-> r.st, v |-> FromFB(D, r.v)]
DDShow(D, x, prec, width, alt) == Show(D.b, ToFB(D, x), prec, width, alt)
DDExactInverse(D, x) == LET r == ExactInverse(D.b, ToFB(D, x)) IN IF r = << >> THEN << >> ELSE << FromFB(D, r[1]) >>

(***************************************************************************)
(* Component rules.                                                        *)
(***************************************************************************)
DDCompare(D, x, y) == LET h == Compare(x.hi, y.hi) IN IF h = "eq" THEN Compare(x.lo, y.lo) ELSE h
DDSubnormal(D, x) ==
  /\ IsNum(x.hi)
  /\ \/ IsSubnormal(D.d, x.hi) \/ IsSubnormal(D.d, x.lo)
     \/ Compare(x.hi, Add(D.d, "NE", x.hi, x.lo).v) # "eq"
DDIsInteger(D, x) == IsInteger(x.hi) /\ IsInteger(x.lo)
DDILogB(D, x) == ILogB(x.hi)
DDScale(D, rm, x, n) == Pair(Scale(D.d, rm, x.hi, n), Scale(D.d, rm, x.lo, n))
DDFrexp(D, rm, x) == LET f == Frexp(D.d, rm, x.hi)
                  IN [v |-> Pair(f.v, IF IsNum(x.hi) THEN Scale(D.d, rm, x.lo, -f.n) ELSE x.lo), n |-> f.n]
DDMinNum(D, a, b) == IF IsNaN(a.hi) THEN b ELSE IF IsNaN(b.hi) THEN a
                  ELSE IF DDCompare(D, b, a) = "lt" THEN b ELSE a
DDMaxNum(D, a, b) == IF IsNaN(a.hi) THEN b ELSE IF IsNaN(b.hi) THEN a
                  ELSE IF DDCompare(D, a, b) = "lt" THEN b ELSE a
DDMinimum(D, a, b) ==
  IF IsNaN(a.hi) THEN a ELSE IF IsNaN(b.hi) THEN b
  ELSE IF IsZero(a.hi) /\ IsZero(b.hi) /\ a.hi.s # b.hi.s THEN IF a.hi.s = 1 THEN a ELSE b
  ELSE IF DDCompare(D, b, a) = "lt" THEN b ELSE a
DDMaximum(D, a, b) ==
  IF IsNaN(a.hi) THEN a ELSE IF IsNaN(b.hi) THEN b
  ELSE IF IsZero(a.hi) /\ IsZero(b.hi) /\ a.hi.s # b.hi.s THEN IF a.hi.s = 0 THEN a ELSE b
  ELSE IF DDCompare(D, a, b) = "lt" THEN b ELSE a

DDSmallest(D, s) == DDWithSign(D, Pair(Smallest(D.d, 0), Zero(0)), s)
DDSmallestNormal(D, s) == DDWithSign(D, Pair(Scale(D.d, "NE", SmallestNormal(D.d, 0), D.d.p), Zero(0)), s)
DDQueries(D, x) == <<
  x.hi.s = 1, DDSubnormal(D, x), Signaling(D.d, x.hi), IsNaN(x.hi), IsInf(x.hi), IsZero(x.hi),
  IsNum(x.hi) /\ ~DDSubnormal(D, x),
  IsFinite(x.hi), ~IsZero(x.hi), IsNum(x.hi),
  IsZero(x.hi) /\ x.hi.s = 0, IsZero(x.hi) /\ x.hi.s = 1, IsInf(x.hi) /\ x.hi.s = 0, IsInf(x.hi) /\ x.hi.s = 1,
  x = DDSmallest(D, x.hi.s), x = DDSmallestNormal(D, x.hi.s), x = DDLargest(D, x.hi.s), DDIsInteger(D, x) >>
=============================================================================
