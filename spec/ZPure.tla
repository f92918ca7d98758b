---------------------------------- MODULE ZPure ----------------------------------
(* The definitions of module Z, without Java overrides: used by MCZ only. *)
EXTENDS Integers, Sequences

PZ(n) == n                                 \* Int -> Z
PInt(a) == a                               \* Z -> Int (must fit)
PAdd(a, b) == a + b
PSub(a, b) == a - b
PMul(a, b) == a * b
PDiv(a, b) == a \div b                         \* floor division, b > 0
PMod(a, b) == a % b                            \* 0 <= a %% b < b
PLt(a, b) == a < b
PLe(a, b) == a <= b
PPow2(n) == 2^n                            \* n : Int, n >= 0
PPow(a, n) == a^n                          \* n : Int, n >= 0
POdd(a) == a % 2 = 1
RECURSIVE PBits(_)                         \* number of binary digits, a >= 0
PBits(a) == IF a = 0 THEN 0 ELSE 1 + PBits(a \div 2)
RECURSIVE PTz(_)                           \* trailing zero bits, a > 0
PTz(a) == IF a % 2 = 1 THEN 0 ELSE 1 + PTz(a \div 2)
RECURSIVE POr(_, _)                        \* bitwise or, a, b >= 0
POr(a, b) == IF a = 0 THEN b
             ELSE IF b = 0 THEN a
             ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * POr(a \div 2, b \div 2)
RECURSIVE PDigits(_)                       \* decimal digits, most significant first; <<>> for 0
PDigits(a) == IF a = 0 THEN << >> ELSE Append(PDigits(a \div 10), a % 10)
RECURSIVE POfDigits(_, _)                  \* value of a digit sequence in a base
POfDigits(ds, base) == IF ds = << >> THEN 0
                       ELSE POfDigits(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
=============================================================================
