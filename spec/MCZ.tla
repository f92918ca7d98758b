---------------------------------- MODULE MCZ ----------------------------------
(***************************************************************************)
(* The Java overrides of module Z against its definitions (ZPure): every    *)
(* pair of integers in a range, every power and digit string that fits      *)
(* TLC's own integers; and, beyond those, the identities that pin the        *)
(* operators down on wide integers.                                         *)
(***************************************************************************)
EXTENDS Z, ZPure, TLC, IOUtils

Deep == IOEnv.DEEP = "1"
N == IF Deep THEN 400 ELSE 130
VARIABLE i
Init == i \in (-N)..N
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

Same(z, n) == z = Z(n) /\ ZInt(z) = n
Pairs(a) == \A b \in (-N)..N :
  /\ Same(Z(a) ++ Z(b), PAdd(a, b))
  /\ Same(Z(a) -- Z(b), PSub(a, b))
  /\ Same(Z(a) ** Z(b), PMul(a, b))
  /\ (Z(a) \prec Z(b)) = PLt(a, b)
  /\ (Z(a) \preceq Z(b)) = PLe(a, b)
  /\ (Z(a) = Z(b)) = (a = b)
  /\ b > 0 => Same(Z(a) // Z(b), PDiv(a, b)) /\ Same(Z(a) %% Z(b), PMod(a, b))
  /\ (a >= 0 /\ b >= 0) => Same(ZOr(Z(a), Z(b)), POr(a, b))
Ones(a) ==
  /\ ZOdd(Z(a)) = POdd(a)
  /\ a >= 0 => ZBits(Z(a)) = PBits(a) /\ ZDigits(Z(a)) = PDigits(a)
  /\ a > 0 => ZTz(Z(a)) = PTz(a)
  /\ a \in 0..29 => Same(ZPow2(a), PPow2(a))
  /\ \A n \in 0..3 : (a # 0 \/ n > 0) => Same(ZPow(Z(a), n), PPow(a, n))
  /\ a \in 0..127 => \A base \in {10, 16} : \A x \in 0..(base - 1) :
       LET ds == << a \div 16 % base, x, a % base >> IN Same(ZOfDigits(ds, base), POfDigits(ds, base)) /\ ZOfDigits(<< >>, base) = Z(0)
(* Wide integers, built from i. *)
W1 == ZPow(Z(i), 41) ++ Z(17 * i)
W2(k) == ZPow(Z(3), 20 + k) ++ Z(i * i)
Wide ==
  \A k \in 0..(IF Deep THEN 40 ELSE 8) :
    LET x == W1  y == W2(k)  q == x // y  r == x %% y  p == ZPow2(7 * k)
    IN /\ (q ** y) ++ r = x /\ Z(0) \preceq r /\ r \prec y
       /\ ((x // p) ** p) ++ (x %% p) = x /\ Z(0) \preceq (x %% p) /\ (x %% p) \prec p
       /\ (x ++ y) -- y = x /\ (x -- y) ** (x ++ y) = (x ** x) -- (y ** y)
       /\ (x \prec y) = ((x -- y) \prec Z(0)) /\ (x \preceq y) = ~(y \prec x)
       /\ ZPow2(7 * k) = ZPow(Z(2), 7 * k) /\ ZPow(y, 3) = y ** (y ** y)
       /\ ZOdd(x) = (x %% Z(2) = Z(1))
       /\ ZPow2(ZBits(y) - 1) \preceq y /\ y \prec ZPow2(ZBits(y))
       /\ y %% ZPow2(ZTz(y)) = Z(0) /\ ZOdd(y // ZPow2(ZTz(y)))
       /\ ZOfDigits(ZDigits(y), 10) = y /\ ZDigits(y)[1] # 0
       /\ LET h == (y // p) ** p  l == y %% p IN ZOr(h, l) = y /\ ZOr(y, y) = y /\ ZOr(y, l) = y
Agree == Pairs(i) /\ Ones(i) /\ Wide
=============================================================================
