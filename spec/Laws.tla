-------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* What the operations of the specification have to satisfy, stated without *)
(* their algorithms: results are found by looking at every value of a small *)
(* format, order comes from exact values, a remainder from the existence of *)
(* a quotient, and so on.  MC.tla checks these laws exhaustively on formats *)
(* small enough to enumerate; the same operators, with the parameters of    *)
(* the built-in formats, judge the library's traces in Trace.tla.           *)
(***************************************************************************)
EXTENDS Events

LawFmt == [
  u6  |-> Declared(6, 3, "ieee"),      \* 3-bit significand, shortest admissible
  n6  |-> Declared(6, 3, "nanonly"),
  u7  |-> Declared(7, 4, "ieee"),
  n7  |-> Declared(7, 3, "nanonly"),
  x7  |-> Declared(7, 3, "x87"),       \* explicit integer bit
  u8  |-> Declared(8, 4, "ieee"),
  s7  |-> Moved(7, 4, "ieee", -3),     \* exponent range not centred
  v8  |-> Declared(8, 3, "ieee"),
  e5m2 |-> Declared(8, 5, "ieee"),
  e4m3 |-> Declared(8, 4, "nanonly"),
  t5  |-> Declared(5, 3, "ieee")]      \* 2-bit significand: numbers only, no signaling NaN fits
LawNames == DOMAIN LawFmt

Patterns(F) == 0..(2^F.bits - 1)
Dec(F, b) == Decode(F, Z(b))

(* All values are compared as integers in units of 2^-U. *)
U == 80
Val(x) == Signed(x.s, x.m ** ZPow2(x.e + U))          \* finite
One == ZPow2(U)
MagOf(x) == x.m ** ZPow2(x.e + U)

(* The positive finite data of a format in increasing order. *)
Finite(F) == { Dec(F, b) : b \in Patterns(F) }
Pos == TLCEval([n \in LawNames |->
         LET F == LawFmt[n]
         IN SetToSortSeq({ x \in Finite(F) : IsNum(x) /\ x.s = 0 }, LAMBDA x, y : MagOf(x) \prec MagOf(y))])
PosV == TLCEval([n \in LawNames |-> [i \in 1..Len(Pos[n]) |-> MagOf(Pos[n][i])]])
(* The first value too large for the format. *)
Over(n) == LET F == LawFmt[n] IN (F.maxm ++ Z1) ** ZPow2(F.emaxe + U)

(***************************************************************************)
(* r is (-1)^s * N/D (in units of 2^-U) correctly rounded.                  *)
(***************************************************************************)
IsOverflow(F, s, r) == /\ r.st = {"of", "ix"}
                       /\ IF F.hasinf THEN IsInf(r.v) /\ r.v.s = s ELSE IsNaN(r.v) /\ r.v.s = s
Outward(rm, s) == (rm = "TP" /\ s = 0) \/ (rm = "TN" /\ s = 1)
Rounded(n, rm, s, N, D, r) ==
  LET F  == LawFmt[n]
      P  == PosV[n]
      K  == Len(P)
      V(i) == IF i = 0 THEN Z0 ELSE IF i = K + 1 THEN Over(n) ELSE P[i]
      i  == Cardinality({ k \in 1..(K + 1) : (V(k) ** D) \preceq N })     \* value i <= N/D
      exact == (V(i) ** D) = N
      twice == N ++ N
      mid   == (V(i) ++ V(i + 1)) ** D
      j  == CASE rm = "NE" -> IF twice \prec mid THEN i ELSE IF mid \prec twice THEN i + 1
                              ELSE IF i % 2 = 0 THEN i ELSE i + 1
              [] rm = "NA" -> IF twice \prec mid THEN i ELSE i + 1
              [] OTHER -> IF Outward(rm, s) THEN i + 1 ELSE i
      datum(k) == IF k = 0 THEN Zero(s) ELSE WithSign(Pos[n][k], s)
  IN IF i = K + 1
     THEN IF rm \in {"NE", "NA"} \/ Outward(rm, s) THEN IsOverflow(F, s, r)
          ELSE r = [v |-> Largest(F, s), st |-> {"ix"}]
     ELSE IF exact THEN r = [v |-> datum(i), st |-> {}]
     ELSE IF j = K + 1 THEN IsOverflow(F, s, r)
     ELSE /\ r.v = datum(j)
          /\ r.st = IF V(j) \prec MagOf(SmallestNormal(F, 0)) THEN {"ix", "uf"} ELSE {"ix"}
RoundedZ(n, rm, z, D, r) == Rounded(n, rm, ZSign(z), ZAbs(z), D, r)         \* z # 0

FlagsSane(r) == /\ "uf" \in r.st => "ix" \in r.st
                /\ "of" \in r.st => "ix" \in r.st
                /\ "inv" \in r.st => r.st = {"inv"}
                /\ "dz" \in r.st => r.st = {"dz"}
Delivers(F, r) == ValidDatum(F, r.v) /\ FlagsSane(r)

(* A NaN of the x87 format without its integer bit is not canonical: it is  *)
(* delivered as it came, still signaling.  The laws speak of the others.     *)
WellFormed(F, x) == x.c = "nan" /\ F.kind = "x87" => F.hid \preceq x.m

(***************************************************************************)
(* C02..C05: the arithmetic operations on finite operands.                  *)
(***************************************************************************)
SumLaw(n, rm, x, y, r) ==                             \* x + y
  LET z == Val(x) ++ Val(y)
  IN IF z # Z0 THEN RoundedZ(n, rm, z, Z1, r)
     ELSE /\ r.st = {}
          /\ r.v = Zero(IF IsZero(x) /\ IsZero(y) /\ x.s = y.s THEN x.s ELSE IF rm = "TN" THEN 1 ELSE 0)
AddLaw(n, x, y) == \A rm \in Modes :
  LET F == LawFmt[n] IN
  /\ SumLaw(n, rm, x, y, Add(F, rm, x, y))
  /\ Sub(F, rm, x, y) = Add(F, rm, x, Flip(y))
  /\ Add(F, rm, x, y) = Add(F, rm, y, x)
MulLaw(n, x, y) == \A rm \in Modes :
  LET F == LawFmt[n]
      r == Mul(F, rm, x, y)
      s == XorSign(x.s, y.s)
      z == MagOf(x) ** MagOf(y)
  IN IF z = Z0 THEN r = OK(Zero(s)) ELSE Rounded(n, rm, s, z, One, r)
DivLaw(n, x, y) == \A rm \in Modes :
  LET F == LawFmt[n]
      r == Div(F, rm, x, y)
      s == XorSign(x.s, y.s)
  IN IF IsZero(y) THEN IF IsZero(x) THEN r.st = {"inv"} /\ IsNaN(r.v) ELSE r = [v |-> Inf(F, s), st |-> {"dz"}]
     ELSE IF IsZero(x) THEN r = OK(Zero(s))
     ELSE Rounded(n, rm, s, MagOf(x) ** One, MagOf(y), r)
FmaLaw(n, x, y, c) == \A rm \in Modes :
  LET F == LawFmt[n]
      r == MulAdd(F, rm, x, y, c)
      ps == XorSign(x.s, y.s)
      z == Signed(ps, MagOf(x) ** MagOf(y)) ++ (Val(c) ** One)
  IN IF z # Z0 THEN RoundedZ(n, rm, z, One, r)
     ELSE /\ r.st = {}
          /\ r.v = Zero(IF IsZero(c) /\ (IsZero(x) \/ IsZero(y)) /\ ps = c.s THEN c.s
                        ELSE IF rm = "TN" THEN 1 ELSE 0)

(***************************************************************************)
(* C06: the exception table of IEEE 754 clause 7, by operand class.         *)
(***************************************************************************)
NaNRule(F, ops, r) ==          \* some operand is a NaN: the first one is delivered, quieted
  LET nans == SelectSeq(ops, IsNaN)
  IN /\ IsNaN(r.v) /\ ~Signaling(F, r.v)
     /\ r.v.s = nans[1].s
     /\ ZOr(nans[1].m, F.qbit) = r.v.m \/ (~F.payload /\ r.v.m = nans[1].m)
     /\ r.st = IF \E i \in DOMAIN nans : Signaling(F, nans[i]) THEN {"inv"} ELSE {}
InvalidRule(F, r) == r = [v |-> DefaultNaN(F, 0), st |-> {"inv"}]
InfRule(F, s, r) == r = [v |-> Inf(F, s), st |-> {}]
ZeroRule(s, r) == r = [v |-> Zero(s), st |-> {}]
SpecialLaw(F, x, y) == \A rm \in Modes :
  LET a == Add(F, rm, x, y)  u == Sub(F, rm, x, y)  m == Mul(F, rm, x, y)  d == Div(F, rm, x, y)
      f == Fmod(F, x, y)  e == Rem(F, x, y)
      s == XorSign(x.s, y.s)
  IN IF IsNaN(x) \/ IsNaN(y) THEN \A r \in {a, u, m, d, f, e} : NaNRule(F, << x, y >>, r)
     ELSE /\ IsInf(x) /\ IsInf(y) =>
               /\ IF x.s = y.s THEN InfRule(F, x.s, a) /\ InvalidRule(F, u)
                  ELSE InvalidRule(F, a) /\ InfRule(F, x.s, u)
               /\ InfRule(F, s, m) /\ InvalidRule(F, d) /\ InvalidRule(F, f) /\ InvalidRule(F, e)
          /\ IsInf(x) /\ IsFinite(y) =>
               /\ InfRule(F, x.s, a) /\ InfRule(F, x.s, u) /\ InfRule(F, s, d)
               /\ InvalidRule(F, f) /\ InvalidRule(F, e)
               /\ IF IsZero(y) THEN InvalidRule(F, m) ELSE InfRule(F, s, m)
          /\ IsFinite(x) /\ IsInf(y) =>
               /\ InfRule(F, y.s, a) /\ InfRule(F, 1 - y.s, u) /\ ZeroRule(s, d)
               /\ f = OK(x) /\ e = OK(x)
               /\ IF IsZero(x) THEN InvalidRule(F, m) ELSE InfRule(F, s, m)
          /\ IsFinite(x) /\ IsZero(y) =>
               /\ InvalidRule(F, f) /\ InvalidRule(F, e)
               /\ IF IsZero(x) THEN InvalidRule(F, d) ELSE d = [v |-> Inf(F, s), st |-> {"dz"}]
          /\ \A r \in {a, u, m, d, f, e} : Delivers(F, r)

(***************************************************************************)
(* C07: remainders.                                                         *)
(***************************************************************************)
RemLaw(F, x, y) ==             \* x finite, y finite non-zero
  LET X == Val(x)  Y == MagOf(y)
      f == Fmod(F, x, y)  e == Rem(F, x, y)
      FV == IF IsFinite(f.v) THEN Val(f.v) ELSE Y
      EV == IF IsFinite(e.v) THEN Val(e.v) ELSE Y
      q == (X -- EV) // Y                                            \* the quotient behind Rem
  IN /\ f.st = {} /\ e.st = {}
     /\ ValidDatum(F, f.v) /\ ValidDatum(F, e.v)
     /\ (X -- FV) %% Y = Z0 /\ ZAbs(FV) \prec Y /\ f.v.s = x.s       \* same sign, smaller than y
     /\ (X -- EV) %% Y = Z0 /\ (ZAbs(EV) ++ ZAbs(EV)) \preceq Y
     /\ (ZAbs(EV) ++ ZAbs(EV)) = Y => ~ZOdd(q)
     /\ IsZero(e.v) => e.v.s = x.s

(***************************************************************************)
(* C08: rounding to an integral value.                                      *)
(***************************************************************************)
RintLaw(F, x) == \A rm \in Modes :
  LET r == RoundInt(F, rm, x)
      X == Val(x)
      lo == (X // One) ** One
      hi == lo ++ One
      R == Val(r.v)
  IN IF ~IsFinite(x) THEN IF IsNaN(x) THEN NaNRule(F, << x >>, r) ELSE r = OK(x)
     ELSE /\ IsFinite(r.v) /\ r.v.s = x.s
          /\ IF lo = X THEN r = OK(x)
             ELSE /\ r.st = {"ix"}
                  /\ CASE rm = "TP" -> R = hi
                       [] rm = "TN" -> R = lo
                       [] rm = "TZ" -> R = IF x.s = 1 THEN hi ELSE lo
                       [] OTHER -> LET a == X -- lo  b == hi -- X
                                   IN IF a \prec b THEN R = lo ELSE IF b \prec a THEN R = hi
                                      ELSE IF rm = "NA" THEN R = IF x.s = 1 THEN lo ELSE hi
                                      ELSE R \in {lo, hi} /\ ~ZOdd(R // One)

(***************************************************************************)
(* C09: neighbours.  C10: order.                                            *)
(***************************************************************************)
NextLaw(n, x) ==
  LET F == LawFmt[n]
      up == NextUp(F, x)  dn == NextDown(F, x)
      all == { y \in Finite(F) : IsFinite(y) }
      above == { y \in all : Val(x) \prec Val(y) }
  IN /\ dn.v = Flip(NextUp(F, Flip(x)).v)
     /\ IsFinite(x) => /\ up.st = {}
                       /\ IF above = {} THEN IF F.hasinf THEN up.v = Inf(F, 0) ELSE IsNaN(up.v)
                          ELSE /\ up.v \in above
                               /\ \A y \in above : Val(up.v) \preceq Val(y)
                               /\ IsZero(up.v) => up.v.s = 1
     /\ IsInf(x) => up = OK(IF x.s = 1 THEN Largest(F, 1) ELSE x)
     /\ IsNaN(x) => IsNaN(up.v) /\ ~Signaling(F, up.v) /\ (up.st = IF Signaling(F, x) THEN {"inv"} ELSE {})
     /\ IsNum(x) /\ up.v.c \in {"zero", "num"} => NextDown(F, up.v).v = x

Key(F, x) == IF IsInf(x) THEN Signed(x.s, ZPow2(3 * U)) ELSE Val(x)     \* not NaN
OrderLaw(F, x, y) ==
  LET o == Compare(x, y)
      un == IsNaN(x) \/ IsNaN(y)
      mn == MinNum(x, y)  mx == MaxNum(x, y)  mi == Minimum(x, y)  ma == Maximum(x, y)
  IN /\ (o = "un") <=> un
     /\ ~un => /\ (o = "lt") <=> (Key(F, x) \prec Key(F, y))
               /\ (o = "eq") <=> (Key(F, x) = Key(F, y))
               /\ \A v \in {mn, mi} : v \in {x, y} /\ Key(F, v) \preceq Key(F, x) /\ Key(F, v) \preceq Key(F, y)
               /\ \A v \in {mx, ma} : v \in {x, y} /\ Key(F, x) \preceq Key(F, v) /\ Key(F, y) \preceq Key(F, v)
               /\ (IsZero(x) /\ IsZero(y)) => (mi.s = Max2(x.s, y.s) /\ ma.s = Min2(x.s, y.s))
     /\ IsNaN(x) /\ ~IsNaN(y) => mn = y /\ mx = y /\ mi = x /\ ma = x
     /\ ~IsNaN(x) /\ IsNaN(y) => mn = x /\ mx = x /\ mi = y /\ ma = y
     /\ IsNum(x) /\ IsNum(y) => CmpMag(x, y) = CmpZ(MagOf(x), MagOf(y))

(***************************************************************************)
(* C01: encodings.                                                          *)
(***************************************************************************)
CodecLaw(F, b) ==
  LET x == Dec(F, b)
      neg == Dec(F, (b + 2^(F.bits - 1)) % 2^F.bits)
  IN /\ ValidDatum(F, x)
     /\ F.kind # "x87" => Encode(F, x) = Z(b)
     /\ F.kind = "x87" => Dec(F, ZInt(Encode(F, x))) = x
     /\ neg = Flip(x)
     /\ Queries(F, x)[1] = (b >= 2^(F.bits - 1))
     /\ Queries(F, neg)[17] = Queries(F, x)[17]
     \* patterns of non-negative values are in the order of the values
     /\ (F.kind # "x87" /\ x.s = 0 /\ IsFinite(x) /\ b > 0) =>
          LET p == Dec(F, b - 1) IN IsFinite(p) /\ Val(p) \prec Val(x)
(* two patterns of one datum: only x87's non-canonical ones *)
CodecInjective(F) ==
  Cardinality({ Encode(F, Dec(F, b)) : b \in Patterns(F) }) = Cardinality(Finite(F))

(***************************************************************************)
(* C11..C13: conversions.                                                   *)
(***************************************************************************)
ConvLaw(n, k, x) ==           \* from n to k
  LET F == LawFmt[n]  G == LawFmt[k] IN \A rm \in Modes :
  LET r == Convert(F, G, rm, x)
      back == Convert(G, F, rm, r.v)
  IN /\ ValidDatum(G, r.v)
     /\ IsZero(x) => r.v = x /\ r.st = {} /\ ~r.loses
     /\ IsNum(x) => /\ Rounded(k, rm, x.s, MagOf(x), Z1, [v |-> r.v, st |-> r.st])
                    /\ r.loses = (IF IsNum(r.v) THEN Val(r.v) # Val(x) ELSE TRUE)
     /\ IsInf(x) => IF G.hasinf THEN r.v = Inf(G, x.s) /\ r.st = {} /\ ~r.loses
                    ELSE IsNaN(r.v) /\ r.v.s = x.s /\ r.st = {"ix"} /\ r.loses
     /\ IsNaN(x) => IsNaN(r.v) /\ ~Signaling(G, r.v) /\ r.v.s = x.s
                    /\ (r.st = IF Signaling(F, x) THEN {"inv"} ELSE {})
     /\ ~r.loses => back.v = Quieted(F, x)
     /\ (F = G /\ ~Signaling(F, x)) => r.v = x

ToIntLaw(F, x) == \A rm \in Modes : \A sg \in BOOLEAN : \A w \in {1, 2, 3, 5, 8} :
  LET r == ToInt(rm, sg, w, x)
      lo == IF sg THEN -(2^(w - 1)) ELSE 0
      hi == IF sg THEN 2^(w - 1) - 1 ELSE 2^w - 1
      i == RoundInt(F, rm, x)                       \* C08 settles this one
      fits == IsFinite(i.v) /\ (Z(lo) ** One) \preceq Val(i.v) /\ Val(i.v) \preceq (Z(hi) ** One)
  IN CASE IsNaN(x) -> r = [z |-> Z0, st |-> {"inv"}, exact |-> FALSE]
       [] ~IsNaN(x) /\ ~fits ->
            r = [z |-> Z(IF x.s = 1 THEN lo ELSE hi), st |-> {"inv"}, exact |-> FALSE]
       [] OTHER -> /\ (r.z ** One) = Val(i.v)
                   /\ r.st = i.st
                   /\ r.exact = (i.st = {} /\ ~(IsZero(x) /\ x.s = 1))
FromIntLaw(n, z) == \A rm \in Modes :
  LET r == FromInt(LawFmt[n], rm, Z(z))
  IN IF z = 0 THEN r = OK(Zero(0)) ELSE RoundedZ(n, rm, Z(z) ** One, Z1, r)

(***************************************************************************)
(* C14..C17: text.                                                          *)
(***************************************************************************)
DecText(s, ds, dot, k) ==      \* sign, digits, a dot after `dot` digits, exponent
  (IF s = 1 THEN << 45 >> ELSE << >>)
  \o [i \in 1..dot |-> 48 + ds[i]] \o << 46 >> \o [i \in 1..(Len(ds) - dot) |-> 48 + ds[dot + i]]
  \o (IF k = 0 THEN << >> ELSE << 101 >> \o (IF k < 0 THEN << 45 >> ELSE << >>) \o IntText(IF k < 0 THEN -k ELSE k))
DecLaw(n, s, ds, dot, k) == \A rm \in Modes :
  LET r == Parse(LawFmt[n], rm, DecText(s, ds, dot, k))
      N == ZOfDigits(ds, 10)
      e == k - (Len(ds) - dot)
      v == [v |-> r.v, st |-> r.st]
  IN /\ r.ok
     /\ IF N = Z0 THEN v = OK(Zero(s))
        ELSE IF e >= 0 THEN Rounded(n, rm, s, N ** ZPow(Z(10), e) ** One, Z1, v)
        ELSE Rounded(n, rm, s, N ** One, ZPow(Z(10), -e), v)
HexText(s, ds, dot, k) ==
  (IF s = 1 THEN << 45 >> ELSE << >>) \o << 48, 120 >>
  \o [i \in 1..dot |-> IF ds[i] < 10 THEN 48 + ds[i] ELSE 87 + ds[i]] \o << 46 >>
  \o [i \in 1..(Len(ds) - dot) |-> LET d == ds[dot + i] IN IF d < 10 THEN 48 + d ELSE 55 + d]
  \o << 112 >> \o (IF k < 0 THEN << 45 >> ELSE << >>) \o IntText(IF k < 0 THEN -k ELSE k)
HexLaw(n, s, ds, dot, k) == \A rm \in Modes :
  LET r == Parse(LawFmt[n], rm, HexText(s, ds, dot, k))
      N == ZOfDigits(ds, 16)
      e == k - 4 * (Len(ds) - dot)
      v == [v |-> r.v, st |-> r.st]
  IN /\ r.ok
     /\ IF N = Z0 THEN v = OK(Zero(s))
        ELSE IF e >= 0 THEN Rounded(n, rm, s, N ** ZPow2(e) ** One, Z1, v)
        ELSE Rounded(n, rm, s, N ** One, ZPow2(-e), v)

(* The grammar as a set of strings, for strings made of these characters:   *)
(*   + - 0 9 . e x p n a i f (  )                                           *)
RECURSIVE AllIn(_, _)
AllIn(s, C) == \A i \in DOMAIN s : s[i] \in C
Split(s, C) == { i \in DOMAIN s : s[i] \in C }
DigitRun(s, C) == s # << >> /\ AllIn(s, C)
Mantissa(s, C) ==               \* digits with at most one dot, at least one digit
  /\ AllIn(s, C \cup {Dot}) /\ Cardinality(Split(s, {Dot})) <= 1
  /\ \E i \in DOMAIN s : s[i] \in C
ExpPart(s, empty) ==            \* [+-]? digits; may be empty (decimal text only)
  IF s = << >> THEN empty
  ELSE LET t == IF s[1] \in {Plus, Minus} THEN Tail(s) ELSE s IN IF t = << >> THEN empty ELSE DigitRun(t, 48..57)
NumberText(s, C, marks, need, emptyExp) ==
  \/ ~need /\ Mantissa(s, C)
  \/ \E i \in DOMAIN s : /\ s[i] \in marks
                         /\ Mantissa(SubSeq(s, 1, i - 1), C)
                         /\ ExpPart(SubSeq(s, i + 1, Len(s)), emptyExp)
HexCs == (48..57) \cup (97..102) \cup (65..70)
PayloadText(t) ==
  \/ t = << >>
  \/ LET b == IF Len(t) >= 3 /\ t[1] = LParen /\ t[Len(t)] = RParen THEN SubSeq(t, 2, Len(t) - 1) ELSE t
         plus(u) == IF Len(u) > 1 /\ u[1] = Plus THEN Tail(u) ELSE u
     IN IF Len(b) > 1 /\ b[1] = 48
        THEN IF b[2] \in ChX THEN DigitRun(plus(SubSeq(b, 3, Len(b))), HexCs)
             ELSE DigitRun(plus(Tail(b)), 48..55)
        ELSE DigitRun(plus(b), 48..57)
NaNForm(s) ==
  LET t == IF s # << >> /\ s[1] \in ChS THEN Tail(s) ELSE s
  IN Len(t) >= 3 /\ SubSeq(t, 1, 3) \in {Word_nan, Word_NaN} /\ PayloadText(SubSeq(t, 4, Len(t)))
Accepted(s) ==
  /\ s # << >>
  /\ LET signed == s[1] \in {Plus, Minus}
         b == IF signed THEN Tail(s) ELSE s
     IN \/ b = Word_Inf /\ signed
        \/ b \in {Word_inf, Word_INFINITY} /\ s[1] # Plus
        \/ s[1] # Plus /\ NaNForm(b)
        \/ IF Len(b) >= 2 /\ b[1] = 48 /\ b[2] \in ChX
           THEN NumberText(SubSeq(b, 3, Len(b)), HexCs, ChP, TRUE, FALSE)
           ELSE NumberText(b, 48..57, ChE, FALSE, TRUE)
GrammarLaw(s) == LET r == Parse(LawFmt.u8, "NE", s) IN r.ok = Accepted(s) /\ (~r.ok => r.err # "")

(* Printing: what is printed reads back as the value it came from, and with *)
(* fewer digits it is within one unit of the last digit.                     *)
ShowLaw(n, x) ==
  LET F == LawFmt[n] IN
  /\ \A w \in {-1, 0, 3, 12} : \A alt \in BOOLEAN :
       LET t == Show(F, x, -1, w, alt)
           r == Parse(F, "NE", t)
       IN /\ IsFinite(x) => r.ok /\ r.v = x
          /\ IsInf(x) => r.ok /\ r.v = x
          /\ IsNaN(x) => t = Word_NaN
          /\ alt /\ w = 0 /\ IsNum(x) => \E i \in DOMAIN t : t[i] = 101
  /\ \A p \in 1..6 :
       IsNum(x) =>
       LET t == Show(F, x, p, 0, FALSE)
           e == CHOOSE i \in DOMAIN t : t[i] = 69
           ds == SelectSeq(SubSeq(t, 1, e - 1), IsDec)
           ex == LET u == SubSeq(t, e + 2, Len(t)) IN (IF t[e + 1] = 45 THEN -1 ELSE 1) * ZInt(ZOfDigits(Digits(u), 10))
           used == Max2(Len(ds), 1)
           N == ZOfDigits(Digits(ds), 10)
           k == ex - (used - 1)                       \* value printed: N * 10^k
           unit == ex - (p - 1)                       \* last digit allowed
           diff == IF k >= 0 THEN ZAbs((N ** ZPow(Z(10), k) ** One) -- MagOf(x)) ** ZPow(Z(10), Max2(0, -unit))
                   ELSE ZAbs((N ** One) -- (MagOf(x) ** ZPow(Z(10), -k))) ** ZPow(Z(10), Max2(0, k - unit))
           lim == IF k >= 0 THEN ZPow(Z(10), Max2(0, unit)) ** One ELSE ZPow(Z(10), Max2(0, unit - k)) ** One
       IN /\ Len(ds) <= Max2(p, 2)
          /\ t[IF x.s = 1 THEN 3 ELSE 2] = Dot
          /\ diff \prec lim

(***************************************************************************)
(* C18, C19: scaling and named values.                                      *)
(***************************************************************************)
ScaleLaw(n, x, k) == LET F == LawFmt[n] IN \A rm \in Modes :
  LET v == Scale(F, rm, x, k)
  IN /\ ~IsNum(x) => v = Quieted(F, x)
     /\ IsNum(x) => \E st \in {{}, {"ix"}, {"ix", "uf"}, {"of", "ix"}} :
                      Rounded(n, rm, x.s, MagOf(x) ** ZPow2(Max2(k, 0)), ZPow2(Max2(-k, 0)), [v |-> v, st |-> st])
FrexpLaw(F, x) == \A rm \in Modes :
  LET f == Frexp(F, rm, x)
      i == ILogB(x)
  IN /\ IsNum(x) => /\ (ZPow2(i + U)) \preceq MagOf(x) /\ MagOf(x) \prec ZPow2(i + 1 + U)
                    /\ IsNum(f.v) /\ f.n = i + 1
                    /\ (One \preceq (Z2 ** MagOf(f.v)) /\ MagOf(f.v) \prec One)
                    /\ (Val(f.v) ** ZPow2(U + f.n)) = (Val(x) ** One)
     /\ IsZero(x) => f.v = x /\ f.n = 0 /\ i = IekZero
     /\ IsInf(x) => f.v = x /\ i = IekInf
     /\ IsNaN(x) => f.v = Quieted(F, x) /\ i = IekNaN
Normal(F, x) == IsNum(x) /\ F.hid \preceq x.m
InverseLaw(F, x) ==
  LET r == ExactInverse(F, x)
      inverses == { y \in Finite(F) : Normal(F, x) /\ Normal(F, y) /\ (Val(x) ** Val(y)) = (One ** One) }
  IN IF r = << >> THEN inverses = {} ELSE r[1] \in inverses
NamedLaw(n) ==
  LET F == LawFmt[n]  P == Pos[n]  K == Len(P)
      minus == WithSign(P[1], 1)
  IN /\ Largest(F, 0) = P[K] /\ Smallest(F, 0) = P[1]
     /\ \E i \in 1..K : SmallestNormal(F, 0) = P[i] /\ \A k \in 1..K : Normal(F, P[k]) <=> k >= i
     /\ DefaultNaN(F, 0) \in Finite(F) /\ IsNaN(DefaultNaN(F, 0)) /\ ~Signaling(F, DefaultNaN(F, 0))
     /\ F.hasinf => Inf(F, 0) \in Finite(F)
     /\ F.emax = ILogB(P[K]) /\ F.emin = ILogB(SmallestNormal(F, 0))
     /\ \A pay \in 0..15 :
          /\ LET q == QNaNWith(F, TRUE, Z(pay)) IN q \in Finite(F) /\ IsNaN(q) /\ ~Signaling(F, q)
          /\ LET q == SNaNWith(F, TRUE, Z(pay)) IN q \in Finite(F) /\ IsNaN(q) /\ (F.payload => Signaling(F, q))

(***************************************************************************)
(* C23: every operation is defined for every operand, and what it delivers   *)
(* is a datum of the format with an encoding and a possible status.          *)
(***************************************************************************)
Encodes(F, v) == /\ ValidDatum(F, v)
                 /\ LET z == Encode(F, v)
                    IN Z0 \preceq z /\ z \prec ZPow2(F.bits) /\ (F.kind # "x87" => Decode(F, z) = v)
Sound(F, r) == Encodes(F, r.v) /\ FlagsSane(r)
TotalLaw1(n, x) == LET F == LawFmt[n] IN
  /\ \A rm \in Modes :
       /\ Sound(F, RoundInt(F, rm, x))
       /\ \A k \in {-70000, -5, 0, 5, 70000} : Encodes(F, Scale(F, rm, x, k))
       /\ LET f == Frexp(F, rm, x) IN Encodes(F, f.v)
       /\ \A w \in {1, 8, 128} : \A sg \in BOOLEAN :
            LET r == ToInt(rm, sg, w, x)
            IN /\ (IF sg THEN Z0 -- ZPow2(w - 1) ELSE Z0) \preceq r.z
               /\ r.z \prec (IF sg THEN ZPow2(w - 1) ELSE ZPow2(w))
               /\ r.st \in {{}, {"ix"}, {"inv"}} /\ (r.exact => r.st = {})
  /\ Sound(F, NextUp(F, x)) /\ Sound(F, NextDown(F, x))
  /\ \A p \in {-1, 0, 1, 3, 40} : \A w \in {-1, 0, 1, 5, 40} : \A alt \in BOOLEAN : Show(F, x, p, w, alt) # << >>
  /\ LET i == ExactInverse(F, x) IN i = << >> \/ Encodes(F, i[1])
TotalLaw2(n, x, y) == LET F == LawFmt[n] IN
  /\ \A rm \in Modes : /\ Sound(F, Add(F, rm, x, y)) /\ Sound(F, Sub(F, rm, x, y))
                        /\ Sound(F, Mul(F, rm, x, y)) /\ Sound(F, Div(F, rm, x, y))
                        /\ Sound(F, MulAdd(F, rm, x, y, x)) /\ Sound(F, MulAdd(F, rm, y, y, x))
  /\ Sound(F, Fmod(F, x, y)) /\ Sound(F, Rem(F, x, y))
  /\ \A v \in {MinNum(x, y), MaxNum(x, y), Minimum(x, y), Maximum(x, y)} : v \in {x, y}

(***************************************************************************)
(* C20, C21: double formats.  Canonical pairs: hi is the sum of the parts   *)
(* rounded to nearest.                                                      *)
(***************************************************************************)
DLaw == DoubleOf(LawFmt.u7)
Canonical(x) == /\ IsFinite(x.hi) /\ IsFinite(x.lo)
                /\ LET r == Add(DLaw.d, "NE", x.hi, x.lo) IN IsFinite(r.v) /\ Val(r.v) = Val(x.hi)
PairVal(x) == Val(x.hi) ++ Val(x.lo)
ErrLaw(r, exact, D, den, size) == \* den * |r - exact/D| <= size/D (or two units of the smallest value)
  LET err == ZAbs((PairVal(r) ** D) -- exact)
  IN \/ (err ** Z(den)) \preceq size
     \/ err \preceq (MagOf(Smallest(DLaw.d, 0)) ** D ** Z(2))
DDAddLaw(x, y) ==
  LET r == DDAdd(DLaw, "NE", x, y)
      s == DDSub(DLaw, "NE", x, y)
  IN /\ s = DDAdd(DLaw, "NE", x, DDNeg(DLaw, y))
     /\ (IsFinite(r.v.hi) /\ IsFinite(r.v.lo)) => ErrLaw(r.v, PairVal(x) ++ PairVal(y), Z1, 32, ZAbs(PairVal(x)) ++ ZAbs(PairVal(y)))
     /\ \A rm \in Modes : LET q == DDAdd(DLaw, rm, x, y).v
                          IN ValidDatum(DLaw.d, q.hi) /\ ValidDatum(DLaw.d, q.lo)
DDMulLaw(x, y) ==
  LET r == DDMul(DLaw, "NE", x, y)
  IN /\ (IsFinite(r.v.hi) /\ IsFinite(r.v.lo)) => ErrLaw(r.v, PairVal(x) ** PairVal(y), One, 16, ZAbs(PairVal(x) ** PairVal(y)))
     /\ \A rm \in Modes : LET q == DDMul(DLaw, rm, x, y).v
                          IN ValidDatum(DLaw.d, q.hi) /\ ValidDatum(DLaw.d, q.lo)
DDViaLaw(x) ==
  LET b == ToFB(DLaw, x)
      p == FromFB(DLaw, b)
      exact == IF IsNum(b) THEN Val(b) = PairVal(x) ELSE PairVal(x) = Z0
  IN /\ exact => (Canonical(p) /\ PairVal(p) = PairVal(x)) \/ ~IsFinite(p.hi)
     /\ LET o == DDCompare(DLaw, x, DDNeg(DLaw, x)) IN IsNum(x.hi) => o = (IF x.hi.s = 1 THEN "lt" ELSE "gt")
     /\ exact => \A sg \in BOOLEAN : DDToInt(DLaw, "NE", sg, 8, x) = ToInt("NE", sg, 8, b)
DDOrderLaw(x, y) ==
  (DDCompare(DLaw, x, y) = "lt") <=> (PairVal(x) \prec PairVal(y))
=============================================================================
