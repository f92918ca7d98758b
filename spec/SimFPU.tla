-------------------------------- MODULE SimFPU --------------------------------
(***************************************************************************)
(* Programs for the machine of FPU.tla, generated by TLC's simulator and    *)
(* written out with the outcome the machine gives to every instruction; the *)
(* real code then has to execute them with the same outcome.  Operands are  *)
(* chosen knowing the machine's state: neighbours and negations of what a   *)
(* register holds, values that make the next result a tie or put it just    *)
(* beside one, values at the edges of the format.                           *)
(***************************************************************************)
EXTENDS FPU, TraceIO, IOUtils

OutFile == IOEnv.SIM_OUT
Plain == DOMAIN Fmt \ {"u54"}
Hub == {"f16", "f32", "f64", "f128", "bf16", "e5m2", "e4m3", "x87", "u7", "n7", "u20", "n16", "u72", "u127", "n128", "u14", "s8", "s16", "s80"}
Main == {"f16", "f32", "f64", "f128", "bf16", "e5m2", "e4m3", "x87"}

VARIABLES bank, sk, fmts, n
vars == << bank, sk, fmts, n >>

Pick(S) == RandomElement(S)
RandomZ(bits) == ZOfDigits(TLCEval([i \in 1..((bits + 3) \div 4) |-> Pick(0..15)]), 16) %% ZPow2(bits)

(* A positive significand of at most p bits. *)
RandomSig(p) ==
  LET z == RandomZ(p)
      k == Pick(0..p)
  IN CASE k < p /\ Pick(1..6) = 1 -> ZPow2(p) -- ZPow2(k)                  \* ones, then zeros
       [] p > 1 /\ Pick(1..5) = 1 -> ZPow2(p - 1) ++ ZPow2(Min2(k, p - 2))
       [] p > 2 /\ Pick(1..4) = 1 -> ZPow2(p) -- Z1 -- Z(Pick(0..3))
       [] Pick(1..3) = 1 -> ZOr(ZPow2(p - 1), z // ZPow2(k))
       [] OTHER -> ZOr(ZPow2(p - 1), z)
RandomNum(F) ==
  LET e == CASE Pick(1..4) = 1 -> F.emine + Pick(0..(F.p + 1))
             [] Pick(1..3) = 1 -> F.emaxe - Pick(0..2)
             [] Pick(1..2) = 1 -> Min2(F.emaxe, Max2(F.emine, Pick((-F.p - 2)..3)))
             [] OTHER -> Pick(F.emine..F.emaxe)
      r == RoundTo(F, "TZ", Pick({0, 1}), IF Pick(1..6) = 1 THEN RandomSig(Pick(2..F.p)) ELSE RandomSig(F.p), Z1, e)
  IN r.v
Edge(F) == Pick({Zero(0), Zero(1), Inf(F, 0), Inf(F, 1), Largest(F, 0), Largest(F, 1), Smallest(F, 0), Smallest(F, 1),
                 SmallestNormal(F, 0), SmallestNormal(F, 1), DefaultNaN(F, 0), SNaNWith(F, TRUE, RandomZ(20)),
                 QNaNWith(F, TRUE, RandomZ(60)), NextUp(F, SmallestNormal(F, 1)).v, NextDown(F, Largest(F, 0)).v})
(* Something related to the datum x. *)
Related(F, x) ==
  CASE Pick(1..5) = 1 -> Flip(x)
    [] Pick(1..4) = 1 -> NextUp(F, x).v
    [] Pick(1..3) = 1 -> Flip(NextDown(F, x).v)
    [] Pick(1..2) = 1 -> Scale(F, "NE", x, Pick({-F.p - 1, -F.p, -F.p + 1, -2, -1, 1, F.p}))
    [] OTHER -> IF IsNum(x) THEN RoundTo(F, "NE", Pick({0, 1}), Pick({Z1, Z(3)}), Z1, x.e - Pick(1..2)).v ELSE Edge(F)
(* A y that makes x + y a tie, or next to one. *)
TieWith(F, x) ==
  IF ~IsNum(x) THEN RandomNum(F)
  ELSE LET v == RandomNum(F)
           near == Num(v.s, v.m, Min2(Max2(x.e + Pick((-3)..3), F.emine), F.emaxe))
           t == IF IsNum(v) THEN near ELSE x
           e == Min2(t.e - 2, x.e)
           z == AtExp([t EXCEPT !.m = (@ ** Z(4)) ++ Z(Pick({1, 2, 2, 2, 3})), !.e = t.e - 2], e) -- AtExp(x, e)
       IN IF z = Z0 THEN x ELSE RoundSigned(F, "TZ", z, e).v
Datum(F, f, held) ==
  LET have == { r \in DOMAIN held : held[r].f = f }
  IN IF have # {} /\ Pick(1..2) = 1
     THEN LET x == Decode(F, held[Pick(have)].z) IN IF Pick(1..2) = 1 THEN Related(F, x) ELSE TieWith(F, x)
     ELSE IF Pick(1..5) = 1 THEN Edge(F) ELSE RandomNum(F)
Bits(f, held) ==
  IF f \in DOMAIN Dbl
  THEN LET D == Dbl[f]
           x == Datum(D.d, "none", held)
           y == IF IsNum(x) /\ Pick(1..6) > 1 THEN Scale(D.d, "TZ", Related(D.d, x), -D.d.p - Pick(0..3)) ELSE Datum(D.d, "none", held)
           h == Add(D.d, "NE", x, y).v
       IN IF Pick(1..8) = 1 THEN RandomZ(2 * D.d.bits)
          ELSE DDEncode(D, IF IsFinite(h) /\ IsNum(x) THEN Pair(h, Sub(D.d, "NE", y, Sub(D.d, "NE", h, x).v).v) ELSE Pair(x, Zero(0)))
  ELSE IF Pick(1..12) = 1 THEN RandomZ(Fmt[f].bits) ELSE Encode(Fmt[f], Datum(Fmt[f], f, held))

(* Text for the parser, from a value of the format. *)
Text(f, held) ==
  LET D == f \in DOMAIN Dbl
      F == IF D THEN Dbl[f].d ELSE Fmt[f]
      x == Datum(F, IF D THEN "none" ELSE f, held)
      t == Show(F, x, Pick({-1, -1, F.p \div 3, 2, 40}), Pick({-1, 0, 2, 30}), Pick(BOOLEAN))
  IN IF Len(t) > 300 THEN Show(F, x, -1, 0, FALSE)
     ELSE IF IsNum(x) /\ Pick(1..4) = 1 /\ ~(\E i \in DOMAIN t : t[i] \in {69, 101}) /\ (\E i \in DOMAIN t : t[i] = 46)
          THEN t \o [i \in 1..Pick(1..40) |-> Pick({48, 48, 53, 57})] \o << Pick({48, 49}) >>
     ELSE t

Group(r) == r \div 4
RegOf(g) == 4 * g + Pick(0..3)
Groups == 0..(Len(fmts) - 1)

(* The next instruction; loads come first where an operand is missing. *)
Choose ==
  LET g == Pick(Groups)
      f == fmts[g + 1]
      rd == RegOf(g)  ra == RegOf(g)  rb == RegOf(g)  rc == RegOf(g)
      need(rs) == { r \in rs : bank[r] = NoDatum }
      load(r) == [op |-> "load", f |-> f, rd |-> r, a |-> Bits(f, bank)]
      given(rs, in) == IF need(rs) # {} THEN load(Pick(need(rs))) ELSE in
      rm == Pick(Modes)
      bin == [op |-> Pick({"add", "add", "sub", "mul", "mul", "div", "fmod", "rem"}), f |-> f, rm |-> rm, form |-> 0,
              rd |-> rd, ra |-> ra, rb |-> rb]
      targets == { r \in 0..(4 * Len(fmts) - 1) : fmts[Group(r) + 1] \in Hub }
      k == Pick(1..40)
  IN CASE k <= 8 -> load(rd)
       [] k <= 18 -> given({ra, rb}, IF Pick(1..5) = 1 /\ bin.op # "rem"
                                     THEN [bin EXCEPT !.rm = "NE", !.form = Pick({1, 2})] ELSE bin)
       [] k <= 22 -> given({ra, rb, rc}, [op |-> "fma", f |-> f, rm |-> rm, form |-> 0, rd |-> rd, ra |-> ra, rb |-> rb, rc |-> rc])
       [] k = 23 -> given({ra}, [op |-> "rint", f |-> f, rm |-> rm, rd |-> rd, ra |-> ra])
       [] k = 24 -> given({ra}, [op |-> Pick({"next", "prev"}), f |-> f, rm |-> "NE", rd |-> rd, ra |-> ra])
       [] k = 25 -> given({ra}, [op |-> Pick({"neg", "abs", "copy"}), f |-> f, rd |-> rd, ra |-> ra])
       [] k = 26 -> given({ra, rb}, [op |-> "copysign", f |-> f, rd |-> rd, ra |-> ra, rb |-> rb])
       [] k <= 28 -> given({ra}, [op |-> "scale", f |-> f, rm |-> rm, form |-> 0, n |-> Pick({-100000, -300, -20, -3, -1, 0, 1, 5, 40, 2000}),
                                  rd |-> rd, ra |-> ra])
       [] k = 29 -> given({ra}, [op |-> "frexp", f |-> f, rm |-> rm, form |-> 0, rd |-> rd, ra |-> ra])
       [] k = 30 -> given({ra}, [op |-> "inv", f |-> f, rd |-> rd, ra |-> ra])
       [] k <= 32 /\ f \in Plain /\ targets # {} ->
            LET t == Pick(targets)
            IN given({ra}, [op |-> "conv", f |-> f, g |-> fmts[Group(t) + 1], rm |-> rm, form |-> 0, n |-> 0, rd |-> t, ra |-> ra])
       [] k = 33 -> given({ra}, [op |-> "toint", f |-> f, rm |-> rm, form |-> 0, sg |-> Pick({0, 1}),
                                 w |-> Pick({1, 2, 8, 31, 32, 63, 64, 65, 100, 127, 128}), n |-> Pick({0, 1}), ra |-> ra])
       [] k = 34 -> [op |-> "fromint", f |-> f, rm |-> rm, form |-> 0, sg |-> 0, a |-> RandomSig(Pick(1..128)), rd |-> rd]
       [] k = 35 -> [op |-> "parse", f |-> f, rm |-> rm, form |-> 0, t |-> Text(f, bank), rd |-> rd]
       [] k = 36 -> given({ra}, [op |-> "show", f |-> f, n |-> Pick({-1, 0, 1, 5, 17, 60}), w |-> Pick({-1, 0, 3, 20}), alt |-> Pick({0, 1}), ra |-> ra])
       [] k = 37 -> given({ra, rb}, [op |-> Pick({"cmp", "cmp"}), f |-> f, ra |-> ra, rb |-> rb])
       [] k = 38 -> given({ra, rb}, [op |-> "pick", f |-> f, n |-> Pick(0..3), rd |-> rd, ra |-> ra, rb |-> rb])
       [] k = 39 -> [op |-> "named", f |-> f, n |-> Pick(0..6), rd |-> rd]
       [] k = 40 -> Pick({[op |-> "dump"], [op |-> "reset"]})
       [] OTHER -> given({ra}, [op |-> Pick({"class", "ilogb", "fresh"}), f |-> f, ra |-> ra])

Begin == [op |-> "begin"]
Init == bank = EmptyBank /\ sk = 0 /\ fmts = << >> /\ n = 0
Do(in) == \E out \in {Outcome(bank, sk, in)} :
            /\ Emit(OutFile, in, out)
            /\ bank' = After(bank, in, out)
            /\ sk' = IF "sk" \in DOMAIN out THEN out.sk ELSE sk
Some == IF Pick(1..5) = 1 THEN << Pick(DOMAIN Dbl) >>
        ELSE LET x == Pick(Main)  y == Pick(IF Pick(1..2) = 1 THEN Main ELSE Plain)
             IN IF x = y THEN << x >> ELSE << x, y >>
Next == \/ /\ n = 0
           /\ \E c \in {Some} : fmts' = c
           /\ Do(Begin)
           /\ n' = 1
        \/ /\ n > 0
           /\ \E in \in {Choose} : Do(in)
           /\ fmts' = fmts
           /\ n' = n + 1
Spec == Init /\ [][Next]_vars
=============================================================================
