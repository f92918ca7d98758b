-------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* Text is a sequence of character codes.                                  *)
(*   Parse(F, rm, s)             : a value and status, or an error message *)
(*   Show(F, x, prec, width, alt): the printed text                        *)
(***************************************************************************)
EXTENDS Conv, SequencesExt

Minus == 45   Plus == 43   Dot == 46   LParen == 40   RParen == 41
Ch0 == 48     ChX == {120, 88}   ChE == {101, 69}   ChP == {112, 80}   ChS == {115, 83}
IsDec(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDec(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
DigitVal(c) == IF IsDec(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Digits(s) == [i \in 1..Len(s) |-> DigitVal(s[i])]
From(s, i) == SubSeq(s, i, Len(s))
HasPrefix(s, c) == Len(s) > 0 /\ s[1] = c
HasPrefixIn(s, C) == Len(s) > 0 /\ s[1] \in C

Word_Inf == <<73, 110, 102>>
Word_inf == <<105, 110, 102>>
Word_INFINITY == <<73, 78, 70, 73, 78, 73, 84, 89>>
Word_nan == <<110, 97, 110>>
Word_NaN == <<78, 97, 78>>

(***************************************************************************)
(* NaN spellings: [sS]? (nan|NaN) payload?, payload a 128-bit number in     *)
(* decimal, octal (leading 0) or hexadecimal (leading 0x), optionally in    *)
(* parentheses; the digits may carry a '+'.                                 *)
(* Result: [is, sig, hasp, pay].                                            *)
(***************************************************************************)
NotNaN == [is |-> FALSE, sig |-> FALSE, hasp |-> FALSE, pay |-> Z0]
DigitOk(c, radix) == IF radix = 16 THEN IsHex(c) ELSE IsDec(c) /\ c < 48 + radix
UnsignedOf(s, radix) ==                         \* [ok, z] for a 128-bit unsigned number
  LET d == IF HasPrefix(s, Plus) THEN From(s, 2) ELSE s
      wellformed == Len(d) > 0 /\ \A i \in 1..Len(d) : DigitOk(d[i], radix)
      z == ZOfDigits(Digits(d), radix)
  IN IF wellformed /\ z \prec ZPow2(128) THEN [ok |-> TRUE, z |-> z] ELSE [ok |-> FALSE, z |-> Z0]
NaNText(s) ==
  LET sig  == HasPrefixIn(s, ChS)
      s1   == IF sig THEN From(s, 2) ELSE s
      head == SubSeq(s1, 1, Min2(3, Len(s1)))
  IN IF head # Word_nan /\ head # Word_NaN THEN NotNaN
     ELSE LET t  == From(s1, 4)
              n  == Len(t)
              t1 == IF n >= 3 /\ t[1] = LParen /\ t[n] = RParen THEN SubSeq(t, 2, n - 1) ELSE t
              hex == Len(t1) > 1 /\ t1[1] = Ch0 /\ t1[2] \in ChX
              oct == Len(t1) > 1 /\ t1[1] = Ch0 /\ ~hex
              u == IF hex THEN UnsignedOf(From(t1, 3), 16)
                   ELSE IF oct THEN UnsignedOf(From(t1, 2), 8) ELSE UnsignedOf(t1, 10)
          IN IF Len(t1) = 0 THEN [is |-> TRUE, sig |-> sig, hasp |-> FALSE, pay |-> Z0]
             ELSE IF u.ok THEN [is |-> TRUE, sig |-> sig, hasp |-> TRUE, pay |-> u.z]
             ELSE NotNaN

(***************************************************************************)
(* The number scanner: a small automaton run over the characters.          *)
(*   ph: "mant" | "exp0" (just after the exponent marker) | "exp"          *)
(* Counts the characters and digits of the mantissa, how many digits follow *)
(* the dot, and the digits of the exponent; err is the first offence.       *)
(***************************************************************************)
Scan0 == [ph |-> "mant", err |-> "", dot |-> FALSE, len |-> 0, nd |-> 0, frac |-> 0, eneg |-> FALSE, ne |-> 0]
ScanStep(hex, st, c) ==
  IF st.err # "" THEN st
  ELSE IF st.ph = "mant" THEN
    IF c = Dot THEN IF st.dot THEN [st EXCEPT !.err = "String contains multiple dots"]
                    ELSE [st EXCEPT !.dot = TRUE, !.len = @ + 1]
    ELSE IF (IF hex THEN IsHex(c) ELSE IsDec(c))
         THEN [st EXCEPT !.len = @ + 1, !.nd = @ + 1, !.frac = IF st.dot THEN @ + 1 ELSE @]
    ELSE IF c \in (IF hex THEN ChP ELSE ChE)
         THEN IF st.nd = 0 THEN [st EXCEPT !.err = "Significand has no digits"]
              ELSE [st EXCEPT !.ph = "exp0"]
    ELSE [st EXCEPT !.err = "Invalid character in significand"]
  ELSE IF st.ph = "exp0" /\ c \in {Plus, Minus} THEN [st EXCEPT !.ph = "exp", !.eneg = (c = Minus)]
  ELSE IF IsDec(c) THEN [st EXCEPT !.ph = "exp", !.ne = @ + 1]
  ELSE [st EXCEPT !.err = "Invalid character in exponent"]

(* ds, es: the digits of the mantissa and of the exponent *)
Scan(hex, s) ==
  LET st == FoldLeft(LAMBDA acc, c : ScanStep(hex, acc, c), Scan0, s)
      err == IF st.err # "" THEN st.err
             ELSE IF st.nd = 0 THEN "Significand has no digits"
             ELSE IF hex /\ st.ne = 0
                  THEN IF st.ph = "mant" THEN "Hex strings require an exponent" ELSE "Exponent has no digits"
             ELSE ""
  IN [err |-> err, frac |-> st.frac, eneg |-> st.eneg,
      ds |-> Digits(SelectSeq(SubSeq(s, 1, st.len), LAMBDA c : c # Dot)),
      es |-> Digits(SubSeq(s, Len(s) - st.ne + 1, Len(s)))]

(* The written exponent; beyond +-10^8 every format has long overflowed or  *)
(* underflowed whatever the digits are.                                     *)
TextExpBound == 100000000
ExponentOf(st) ==
  LET z == ZOfDigits(st.es, 10)
      n == IF Z(TextExpBound) \prec z THEN TextExpBound ELSE ZInt(z)
  IN IF st.eneg THEN -n ELSE n

(* N * base^k rounded, N > 0.  A value whose order of magnitude is beyond   *)
(* the format's reach is replaced by a power of ten still beyond it.        *)
DecBound(F) == Reach(F) \div 3 + 1
RoundDecimal(F, rm, s, N, k) ==
  LET order == Len(ZDigits(N)) + k
  IN IF order > DecBound(F) THEN RoundTo(F, rm, s, ZPow(Z(10), DecBound(F)), Z1, 0)
     ELSE IF order < -DecBound(F) THEN RoundTo(F, rm, s, Z1, ZPow(Z(10), DecBound(F)), 0)
     ELSE IF k >= 0 THEN RoundTo(F, rm, s, N ** ZPow(Z(5), k), Z1, k)
     ELSE RoundTo(F, rm, s, N, ZPow(Z(5), -k), k)
RoundHex(F, rm, s, N, k) ==
  LET order == ZBits(N) + k
  IN IF order > Reach(F) THEN RoundTo(F, rm, s, Z1, Z1, Reach(F))
     ELSE IF order < -Reach(F) THEN RoundTo(F, rm, s, Z1, Z1, -Reach(F))
     ELSE RoundTo(F, rm, s, N, Z1, k)

ParseErr(msg) == [ok |-> FALSE, err |-> msg, v |-> Zero(0), st |-> {}]
ParseOk(r) == [ok |-> TRUE, err |-> "", v |-> r.v, st |-> r.st]

Parse(F, rm, s) ==
  IF s = << >> THEN ParseErr("Invalid string length")
  ELSE
  LET minus == s[1] = Minus
      plus  == s[1] = Plus
      sg    == IF minus THEN 1 ELSE 0
      b     == IF minus \/ plus THEN From(s, 2) ELSE s
      nan   == IF plus THEN NotNaN ELSE NaNText(b)
  IN IF b = Word_Inf /\ (minus \/ plus) THEN ParseOk(OK(Inf(F, sg)))
     ELSE IF b \in {Word_inf, Word_INFINITY} /\ ~plus THEN ParseOk(OK(Inf(F, sg)))
     ELSE IF nan.is
          THEN ParseOk(OK(WithSign(IF nan.sig THEN SNaNWith(F, nan.hasp, nan.pay)
                                   ELSE QNaNWith(F, nan.hasp, nan.pay), sg)))
     ELSE IF b = << >> THEN ParseErr("String has no digits")
     ELSE
     LET hex  == Len(b) >= 2 /\ b[1] = Ch0 /\ b[2] \in ChX
         body == IF hex THEN From(b, 3) ELSE b
         st   == Scan(hex, body)
     IN IF body = << >> THEN ParseErr("Invalid string")
        ELSE IF st.err # "" THEN ParseErr(st.err)
        ELSE LET N == ZOfDigits(st.ds, IF hex THEN 16 ELSE 10)
                 E == ExponentOf(st)
             IN IF N = Z0 THEN ParseOk(OK(Zero(sg)))
                ELSE IF hex THEN ParseOk(RoundHex(F, rm, sg, N, E - 4 * st.frac))
                ELSE ParseOk(RoundDecimal(F, rm, sg, N, E - st.frac))

(***************************************************************************)
(* Printing.                                                               *)
(***************************************************************************)
RECURSIVE IntText(_)
IntText(n) == IF n < 10 THEN << 48 + n >> ELSE Append(IntText(n \div 10), 48 + (n % 10))
Zeros(n) == [i \in 1..Max2(n, 0) |-> 48]
Chars(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]

DefaultPrecision(F) == 2 + (F.p * 59) \div 196
DefaultWidth == 3

RECURSIVE StripZeros(_, _)
StripZeros(N, k) ==                               \* N > 0: drop decimal zeros, count them
  IF N %% Z(10) = Z0 THEN StripZeros(N // Z(10), k + 1) ELSE [n |-> N, k |-> k]

(* At most prec significant digits of N * 10^k: truncation to slightly more *)
(* digits than needed, then round half up.  Result [n, k] with n not a      *)
(* multiple of ten.                                                         *)
Limit(N0, k0, prec) ==
  LET required == (prec * 196 + 58) \div 59
      discard  == (Max2(ZBits(N0) - required, 0) * 59) \div 196
      a        == StripZeros(N0 // ZPow(Z(10), discard), k0 + discard)
      len      == Len(ZDigits(a.n))
      drop     == len - prec
      unit     == ZPow(Z(10), drop)
      q        == a.n // unit
      below    == (a.n %% unit) // ZPow(Z(10), drop - 1)      \* first dropped digit
  IN IF drop <= 0 THEN a
     ELSE StripZeros(IF Z(5) \preceq below THEN q ++ Z1 ELSE q, a.k + drop)

(* prec, width: -1 when absent *)
Show(F, x, precArg, widthArg, alt) ==
  LET prec  == IF precArg <= 0 THEN DefaultPrecision(F) ELSE precArg
      width == IF widthArg < 0 THEN DefaultWidth ELSE widthArg
      sign  == IF x.s = 1 THEN << Minus >> ELSE << >>
  IN CASE IsInf(x) -> IF x.s = 1 THEN <<45, 73, 110, 102>> ELSE <<43, 73, 110, 102>>
       [] IsNaN(x) -> Word_NaN
       [] IsZero(x) ->
            sign \o (IF width > 0 THEN << Ch0 >>
                     ELSE IF alt THEN <<48, 46, 48>> \o (IF precArg >= 0 THEN Zeros(precArg - 1) ELSE << >>)
                                      \o <<101, 43, 48, 48>>
                     ELSE <<48, 46, 48, 69, 43, 48>>)
       [] IsNum(x) ->
            LET tz  == ZTz(x.m)
                m   == x.m // ZPow2(tz)
                e   == x.e + tz
                L   == IF e >= 0 THEN Limit(m ** ZPow2(e), 0, prec)
                       ELSE Limit(m ** ZPow(Z(5), -e), e, prec)
                ds  == ZDigits(L.n)
                n   == Len(ds)
                k   == L.k                           \* value is ds * 10^k
                msd == k + n - 1
                sci == \/ width = 0
                       \/ k >= 0 /\ (k > width \/ n + k > prec)
                       \/ k < 0 /\ msd < 0 /\ -msd > width
                tail == SubSeq(ds, 2, n)
                expText == (IF msd < 0 THEN << Minus >> ELSE << Plus >>)
                           \o (LET a == IF msd < 0 THEN -msd ELSE msd
                               IN IF alt /\ a < 10 THEN << 48, 48 + a >> ELSE IntText(a))
            IN sign \o
               (IF sci
                THEN << 48 + ds[1], Dot >>
                     \o (IF n = 1 /\ ~alt THEN << 48 >> ELSE Chars(tail))
                     \o (IF alt THEN Zeros(prec - n + 1) ELSE << >>)
                     \o << IF alt THEN 101 ELSE 69 >> \o expText
                ELSE IF k >= 0 THEN Chars(ds) \o Zeros(k)
                ELSE IF -k < n THEN Chars(SubSeq(ds, 1, n + k)) \o << Dot >> \o Chars(SubSeq(ds, n + k + 1, n))
                ELSE << 48, Dot >> \o Zeros(-k - n) \o Chars(ds))

(* What the debugging text of a datum says before it shows internals: the    *)
(* printed text, the category and the sign, "1.5(Normal | +".                *)
CategoryName(x) == CASE IsZero(x) -> <<90, 101, 114, 111>>
                     [] IsInf(x)  -> <<73, 110, 102, 105, 110, 105, 116, 121>>
                     [] IsNaN(x)  -> <<78, 97, 78>>
                     [] IsNum(x)  -> <<78, 111, 114, 109, 97, 108>>
DebugHead(text, x) == text \o <<40>> \o CategoryName(x) \o <<32, 124, 32, IF x.s = 1 THEN Minus ELSE Plus>>
=============================================================================
