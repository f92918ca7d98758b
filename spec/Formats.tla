------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* Floating-point formats and data.                                        *)
(*                                                                         *)
(* A format is a record of parameters.  A datum is a record                *)
(*   [c |-> class, s |-> sign (0/1), m |-> Z, e |-> Int]                   *)
(* with c one of "zero", "num" (finite non-zero, value (-1)^s * m * 2^e,   *)
(* canonical: m < 2^p, e >= emine, and m >= 2^(p-1) unless e = emine),     *)
(* "inf", and "nan" (m = the significand field).                           *)
(***************************************************************************)
EXTENDS Z, FiniteSets, TLC

Z0 == Z(0)
Z1 == Z(1)
Z2 == Z(2)
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* kind: "ieee" (Inf and NaN), "nanonly" (no Inf, one NaN pattern per sign), *)
(* "x87" (explicit integer bit).                                             *)
FormatOf(bits, eb, p, emin, emax, kind) ==
  [bits |-> bits, eb |-> eb, p |-> p, emin |-> emin, emax |-> emax, kind |-> kind,
   emine |-> emin - (p - 1),               \* exponent of the unit of the subnormals
   emaxe |-> emax - (p - 1),               \* exponent of the unit of the top binade
   hid   |-> ZPow2(p - 1),                 \* the integer bit
   top   |-> ZPow2(p),
   maxm  |-> IF kind = "nanonly" THEN ZPow2(p) -- Z2 ELSE ZPow2(p) -- Z1,
   qbit  |-> ZPow2(p - 2),
   hasinf |-> kind # "nanonly",
   payload |-> kind # "nanonly"]

(* A format declared by total width and exponent width. *)
Declared(bits, eb, kind) ==
  LET p    == IF kind = "x87" THEN bits - eb - 1 ELSE bits - eb
      bias == 2^(eb - 1) - 1
  IN FormatOf(bits, eb, p, 1 - bias, IF kind = "nanonly" THEN bias + 1 ELSE bias, kind)

(* The same with its exponent range moved by k.                             *)
Moved(bits, eb, kind, k) ==
  LET F == Declared(bits, eb, kind) IN FormatOf(bits, eb, F.p, F.emin + k, F.emax + k, kind)

Fmt == [
  f16   |-> Declared(16, 5, "ieee"),
  f32   |-> Declared(32, 8, "ieee"),
  f64   |-> Declared(64, 11, "ieee"),
  f128  |-> Declared(128, 15, "ieee"),
  bf16  |-> Declared(16, 8, "ieee"),
  e5m2  |-> Declared(8, 5, "ieee"),
  e4m3  |-> Declared(8, 4, "nanonly"),
  x87   |-> Declared(80, 15, "x87"),
  \* formats declared by the harness through the public trait
  u6    |-> Declared(6, 3, "ieee"),
  u7    |-> Declared(7, 4, "ieee"),
  n6    |-> Declared(6, 3, "nanonly"),
  n7    |-> Declared(7, 3, "nanonly"),
  u8    |-> Declared(8, 4, "ieee"),
  n8    |-> Declared(8, 5, "nanonly"),
  u20   |-> Declared(20, 5, "ieee"),
  n16   |-> Declared(16, 5, "nanonly"),
  u40   |-> Declared(40, 8, "ieee"),
  n32   |-> Declared(32, 8, "nanonly"),
  u72   |-> Declared(72, 11, "ieee"),
  u79   |-> Declared(79, 15, "ieee"),
  u96   |-> Declared(96, 15, "ieee"),
  u127  |-> Declared(127, 8, "ieee"),
  u128  |-> Declared(128, 10, "ieee"),
  u54   |-> Declared(54, 5, "ieee"),
  u14   |-> Declared(14, 6, "ieee"),
  n128  |-> Declared(128, 15, "nanonly"),
  s7    |-> Moved(7, 4, "ieee", -3),
  s8    |-> Moved(8, 4, "nanonly", -4),
  s16   |-> Moved(16, 6, "ieee", 9),
  s40   |-> Moved(40, 8, "ieee", -40),
  s80   |-> Moved(80, 14, "nanonly", 5000),
  w40   |-> Declared(40, 20, "ieee"),
  w60   |-> Declared(60, 19, "nanonly")]

(* 2^Reach exceeds twice the largest number, 2^-Reach half the least one.   *)
Reach(F) == Max2(F.emax, -F.emine) + 4

Modes == {"NE", "NA", "TP", "TN", "TZ"}
NegMode(rm) == CASE rm = "TP" -> "TN" [] rm = "TN" -> "TP" [] OTHER -> rm

Zero(s) == [c |-> "zero", s |-> s, m |-> Z0, e |-> 0]
Num(s, m, e) == [c |-> "num", s |-> s, m |-> m, e |-> e]
NaNOf(s, m) == [c |-> "nan", s |-> s, m |-> m, e |-> 0]
DefaultNaNSig(F) == CASE F.kind = "ieee" -> F.qbit
                      [] F.kind = "x87" -> F.hid ++ F.qbit
                      [] OTHER -> F.hid -- Z1
DefaultNaN(F, s) == NaNOf(s, DefaultNaNSig(F))
Inf(F, s) == IF F.hasinf THEN [c |-> "inf", s |-> s, m |-> Z0, e |-> 0] ELSE DefaultNaN(F, s)
Largest(F, s) == Num(s, F.maxm, F.emaxe)
Smallest(F, s) == Num(s, Z1, F.emine)
SmallestNormal(F, s) == Num(s, F.hid, F.emine)

IsNaN(x) == x.c = "nan"
IsInf(x) == x.c = "inf"
IsZero(x) == x.c = "zero"
IsNum(x) == x.c = "num"
IsFinite(x) == x.c \in {"zero", "num"}
Flip(x) == [x EXCEPT !.s = 1 - @]
WithSign(x, s) == [x EXCEPT !.s = s]
XorSign(s, t) == IF s = t THEN 0 ELSE 1

IsSubnormal(F, x) == x.c = "num" /\ x.m \prec F.hid

(* quiet bit = first bit of the trailing significand; an x87 NaN is only    *)
(* quiet when its integer bit is set too; formats whose NaN has no payload  *)
(* have quiet NaNs only.                                                    *)
Signaling(F, x) ==
  /\ x.c = "nan"
  /\ CASE F.kind = "ieee" -> (x.m %% F.hid) \prec F.qbit
       [] F.kind = "x87" -> x.m \prec (F.hid ++ F.qbit)
       [] OTHER -> FALSE
(* Quieting sets the quiet bit and nothing else (an x87 pseudo-NaN keeps its *)
(* cleared integer bit).                                                     *)
Quieted(F, x) == IF Signaling(F, x) THEN [x EXCEPT !.m = ZOr(@, F.qbit)] ELSE x

(* The quiet / signaling NaN with a requested payload; hasp = FALSE: none.   *)
QNaNWith(F, hasp, pay) ==
  NaNOf(0, IF hasp /\ F.payload THEN ZOr(DefaultNaNSig(F), pay %% F.hid) ELSE DefaultNaNSig(F))
SNaNWith(F, hasp, pay) ==
  IF ~F.payload THEN DefaultNaN(F, 0)
  ELSE LET base == IF F.kind = "x87" THEN F.hid ELSE Z0
           low  == IF hasp THEN pay %% F.qbit ELSE Z0
       IN NaNOf(0, base ++ IF low = Z0 THEN ZPow2(F.p - 3) ELSE low)

(***************************************************************************)
(* Encodings.                                                              *)
(***************************************************************************)
FieldWidth(F) == F.bits - 1 - F.eb
Decode(F, b) ==
  LET tw == FieldWidth(F)
      s  == ZInt((b // ZPow2(F.bits - 1)) %% Z2)
      ef == ZInt((b // ZPow2(tw)) %% ZPow2(F.eb))
      t  == b %% ZPow2(tw)
      ex == ef - 1 + F.emine
      allones == ef = 2^F.eb - 1
  IN IF ef = 0 THEN IF t = Z0 THEN Zero(s) ELSE Num(s, t, F.emine)
     ELSE CASE F.kind = "ieee" ->
               IF allones THEN IF t = Z0 THEN Inf(F, s) ELSE NaNOf(s, t)
               ELSE Num(s, t ++ F.hid, ex)
            [] F.kind = "nanonly" ->
               IF allones /\ t = F.hid -- Z1 THEN NaNOf(s, t) ELSE Num(s, t ++ F.hid, ex)
            [] F.kind = "x87" ->
               IF allones THEN IF t = F.hid THEN Inf(F, s) ELSE NaNOf(s, t)
               ELSE IF t \prec F.hid THEN NaNOf(s, t) ELSE Num(s, t, ex)
Encode(F, x) ==
  LET tw == FieldWidth(F)
      explicit == F.kind = "x87"
      pack(ef, t) == (Z(x.s) ** ZPow2(F.bits - 1)) ++ (Z(ef) ** ZPow2(tw)) ++ t
  IN CASE x.c = "zero" -> pack(0, Z0)
       [] x.c = "inf" -> pack(2^F.eb - 1, IF explicit THEN F.hid ELSE Z0)
       [] x.c = "nan" -> pack(2^F.eb - 1, x.m)
       [] x.c = "num" -> IF x.m \prec F.hid THEN pack(0, x.m)
                         ELSE pack(x.e + 1 - F.emine, IF explicit THEN x.m ELSE x.m -- F.hid)

(* Well-formed data of a format. *)
ValidDatum(F, x) ==
  /\ x.s \in {0, 1}
  /\ CASE x.c = "num" -> /\ x.e >= F.emine /\ x.e <= F.emaxe
                         /\ Z0 \prec x.m /\ x.m \prec F.top
                         /\ F.hid \preceq x.m \/ x.e = F.emine
                         /\ ~(F.kind = "nanonly" /\ x.e = F.emaxe /\ F.maxm \prec x.m)
       [] x.c = "inf" -> F.hasinf
       [] x.c = "nan" -> TRUE
       [] x.c = "zero" -> TRUE
=============================================================================
