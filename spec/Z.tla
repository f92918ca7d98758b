---------------------------------- MODULE Z ----------------------------------
(***************************************************************************)
(* Unbounded integers.  The TLA+ text below is ordinary integer arithmetic *)
(* and is the meaning of every operator.  TLC's own integers are 32 bits   *)
(* wide, so when TLC evaluates the specification each operator is computed *)
(* by java/zov/ZOv.java on java.math.BigInteger instead.  MCZ checks that *)
(* these overrides agree with the definitions below (module ZPure) on a    *)
(* range of small integers.                                                *)
(* Discipline: a value is either a Z (significands, bit patterns, exact    *)
(* integers) or an Int (exponents, counts); only Z(n) and ZInt(z) cross.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Z(n) == n                                  \* Int -> Z
ZInt(a) == a                               \* Z -> Int (must fit)
a ++ b == a + b
a -- b == a - b
a ** b == a * b
a // b == a \div b                         \* floor division, b > 0
a %% b == a % b                            \* 0 <= a %% b < b
a \prec b == a < b
a \preceq b == a <= b
ZPow2(n) == 2^n                            \* n : Int, n >= 0
ZPow(a, n) == a^n                          \* n : Int, n >= 0
ZOdd(a) == a % 2 = 1
RECURSIVE ZBits(_)                         \* number of binary digits, a >= 0
ZBits(a) == IF a = 0 THEN 0 ELSE 1 + ZBits(a \div 2)
RECURSIVE ZTz(_)                           \* trailing zero bits, a > 0
ZTz(a) == IF a % 2 = 1 THEN 0 ELSE 1 + ZTz(a \div 2)
RECURSIVE ZOr(_, _)                        \* bitwise or, a, b >= 0
ZOr(a, b) == IF a = 0 THEN b
             ELSE IF b = 0 THEN a
             ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * ZOr(a \div 2, b \div 2)
RECURSIVE ZDigits(_)                       \* decimal digits, most significant first; <<>> for 0
ZDigits(a) == IF a = 0 THEN << >> ELSE Append(ZDigits(a \div 10), a % 10)
RECURSIVE ZOfDigits(_, _)                  \* value of a digit sequence in a base
ZOfDigits(ds, base) == IF ds = << >> THEN 0
                       ELSE ZOfDigits(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
=============================================================================
