---------------------------------- MODULE MC -----------------------------------
(***************************************************************************)
(* Exhaustive model checking of the laws: one chain of states per format    *)
(* and residue class walks through every bit pattern of the format; at each *)
(* state the law chosen by the environment (LAW) has to hold for that       *)
(* pattern against every other operand, mode and parameter.                 *)
(***************************************************************************)
EXTENDS Laws, IOUtils

Law == IOEnv.LAW
Deep == IOEnv.DEEP = "1"
Shards == 8

All == LawNames \ {"t5"}
FmtSet ==
  CASE Law = "C02" -> IF Deep THEN {"u6", "n6", "u7", "n7", "x7", "s7"} ELSE {"u6", "n6", "x7"}
    [] Law = "C03" -> IF Deep THEN {"u6", "n6", "u7", "n7", "x7", "s7"} ELSE {"u6", "n6", "x7"}
    [] Law = "C04" -> IF Deep THEN {"u6", "n6", "u7", "n7", "x7", "s7"} ELSE {"u6", "n6", "x7"}
    [] Law = "C05" -> IF Deep THEN {"t5", "u6", "n6"} ELSE {"t5"}
    [] Law = "C06" -> IF Deep THEN {"u6", "n6", "u7", "n7", "x7", "s7"} ELSE {"u6", "n6", "x7"}
    [] Law = "C07" -> IF Deep THEN All ELSE {"u6", "n6", "u7", "n7", "x7"}
    [] Law = "C09" -> IF Deep THEN All ELSE All \ {"e5m2", "e4m3"}
    [] Law = "C10" -> IF Deep THEN All ELSE {"u6", "n6", "u7", "n7", "x7"}
    [] Law \in {"C11"} -> All
    [] Law \in {"C14", "C15"} -> IF Deep THEN {"u6", "n6", "u7", "n7", "x7", "s7"} ELSE {"u6", "n6"}
    [] Law = "C16" -> {"u6"}
    [] Law \in {"C20", "C21"} -> {"u7"}
    [] Law = "C23" -> IF Deep THEN {"u6", "n6", "u7", "n7", "x7", "v8"} ELSE {"u6", "n6"}
    [] Law = "C24" -> IF Deep THEN {"u6", "n6", "u7", "n7", "s7", "v8"} ELSE {"u6", "n6"}
    [] OTHER -> All

(* How many steps a chain's counter runs over. *)
Alphabet == << 43, 45, 48, 57, 46, 101, 120, 112, 110, 97, 105, 102, 40, 41, 115, 78 >>
Count(n) ==
  CASE Law \in {"C14", "C15"} -> IF Deep THEN 4096 ELSE 1000
    [] Law = "C16" -> IF Deep THEN 65536 ELSE 4096
    [] Law = "C13" -> 1024
    [] Law \in {"C20", "C21"} -> 2^14
    [] OTHER -> 2^LawFmt[n].bits

VARIABLES f, i
vars == << f, i >>
Stride == IF Law = "C20" /\ ~Deep THEN 37 ELSE IF Law = "C20" THEN 5 ELSE 1
Init == f \in FmtSet /\ i \in 0..(Shards * Stride - 1) /\ i % Stride = 0
Step == /\ i + Shards * Stride < Count(f)
        /\ i' = i + Shards * Stride
        /\ f' = f
Spec == Init /\ [][Step]_vars

F == LawFmt[f]
X == Dec(F, i)
Ys == { Dec(F, b) : b \in Patterns(F) }
Fin == { y \in Ys : IsFinite(y) }
Digs(k, base, len) == [j \in 1..len |-> (k \div base^(j - 1)) % base]
TextOf(k, len) == [j \in 1..len |-> Alphabet[((k \div 16^(j - 1)) % 16) + 1]]
Pair2(k) == DDDecode(DLaw, Z(k))
CanonSample == { Pair2(k) : k \in { k \in 0..(2^14 - 1) : k % 23 = 7 } }

Holds ==
  CASE Law = "C01" -> CodecLaw(F, i) /\ (i = 0 => CodecInjective(F))
    [] Law = "C02" -> IsFinite(X) => \A y \in Fin : AddLaw(f, X, y)
    [] Law = "C03" -> IsFinite(X) => \A y \in Fin : MulLaw(f, X, y)
    [] Law = "C04" -> IsFinite(X) => \A y \in Fin : DivLaw(f, X, y)
    [] Law = "C05" -> IsFinite(X) => \A y \in Fin : \A c \in Fin : FmaLaw(f, X, y, c)
    [] Law = "C06" -> WellFormed(F, X) => \A y \in Ys : WellFormed(F, y) => SpecialLaw(F, X, y)
    [] Law = "C07" -> IsFinite(X) => \A y \in Fin : IsNum(y) => RemLaw(F, X, y)
    [] Law = "C08" -> f = "v8" \/ (WellFormed(F, X) => RintLaw(F, X))
    [] Law = "C09" -> NextLaw(f, X)
    [] Law = "C10" -> \A y \in Ys : OrderLaw(F, X, y)
    [] Law = "C11" -> WellFormed(F, X) => \A k \in All : ConvLaw(f, k, X)
    [] Law = "C12" -> f = "v8" \/ ToIntLaw(F, X)
    [] Law = "C13" -> FromIntLaw(f, i) /\ FromIntLaw(f, -i)
    [] Law = "C14" -> \A dot \in 0..3 : \A k \in {-3, -1, 0, 2} : \A s \in {0, 1} : DecLaw(f, s, Digs(i, 10, 3), dot, k)
    [] Law = "C15" -> \A dot \in 0..3 : \A k \in {-9, -4, 0, 3} : \A s \in {0, 1} : HexLaw(f, s, Digs(i, 16, 3), dot, k)
    [] Law = "C16" -> \A len \in 0..4 : GrammarLaw(TextOf(i, len)) /\ GrammarLaw(Word_nan \o TextOf(i, len))
                                        /\ GrammarLaw(<< 48, 120 >> \o TextOf(i, len)) /\ GrammarLaw(<< 57, 101 >> \o TextOf(i, len))
    [] Law = "C17" -> ShowLaw(f, X)
    [] Law = "C18" -> (\A k \in {-200, -20, -9, -4, -3, -1, 0, 1, 2, 7, 20, 200} : ScaleLaw(f, X, k)) /\ FrexpLaw(F, X)
    [] Law = "C19" -> InverseLaw(F, X) /\ (i = 0 => NamedLaw(f))
    [] Law = "C20" -> LET x == Pair2(i) IN Canonical(x) =>
                        \A y \in CanonSample : Canonical(y) => DDAddLaw(x, y) /\ DDMulLaw(x, y)
    [] Law = "C21" -> LET x == Pair2(i) IN Canonical(x) =>
                        DDViaLaw(x) /\ \A k \in {3, 77, 4099, 9001} : Canonical(Pair2(k)) => DDOrderLaw(x, Pair2(k))
    [] Law = "C23" -> (f = "v8" \/ TotalLaw1(f, X)) /\ \A y \in Ys : TotalLaw2(f, X, y)
    [] Law = "C24" -> /\ CodecLaw(F, i) /\ NextLaw(f, X) /\ (f \notin {"v8"} => RintLaw(F, X) /\ ToIntLaw(F, X))
                      /\ \A y \in Ys : SpecialLaw(F, X, y) /\ OrderLaw(F, X, y)
                      /\ \A y \in Fin : IsFinite(X) => AddLaw(f, X, y) /\ MulLaw(f, X, y) /\ DivLaw(f, X, y)
                                                        /\ (IsNum(y) => RemLaw(F, X, y))
=============================================================================
