------------------------------- MODULE Events --------------------------------
(***************************************************************************)
(* One call of the library, as an event: a record holding the call's name  *)
(* (op), its format(s), its arguments, and what it delivered.              *)
(* Expected(ev) is what the specification delivers for the arguments, under *)
(* the same field names; ev conforms iff it agrees on every one of them.   *)
(***************************************************************************)
EXTENDS DD

B(x) == IF x THEN 1 ELSE 0
Bs(q) == [i \in 1..Len(q) |-> B(q[i])]
Mask(st) == B("inv" \in st) + 2 * B("dz" \in st) + 4 * B("of" \in st) + 8 * B("uf" \in st) + 16 * B("ix" \in st)

(* double formats: "dd" is DoubleDouble, the others are declared by the harness *)
Dbl == [dd |-> DoubleOf(Fmt.f64), dds |-> DoubleOf(Fmt.f32), ddb |-> DoubleOf(Fmt.bf16),
        dd8 |-> DoubleOf(Fmt.e5m2), dd7 |-> DoubleOf(Fmt.u7)]
IsDD(ev) == ev.f \in DOMAIN Dbl
(* form 0: explicit rounding mode; 1: operator or default method (nearest-even); *)
(* 2: assigning operator (nearest-even, no status).                              *)
Mode(ev) == IF ev.form = 0 THEN ev.rm ELSE "NE"

Bin(F, op, rm, x, y) ==
  CASE op = "add" -> Add(F, rm, x, y)
    [] op = "sub" -> Sub(F, rm, x, y)
    [] op = "mul" -> Mul(F, rm, x, y)
    [] op = "div" -> Div(F, rm, x, y)
    [] op = "fmod" -> Fmod(F, x, y)
    [] op = "rem" -> Rem(F, x, y)
DDBin(D, op, rm, x, y) ==
  CASE op = "add" -> DDAdd(D, rm, x, y)
    [] op = "sub" -> DDSub(D, rm, x, y)
    [] op = "mul" -> DDMul(D, rm, x, y)
    [] op = "div" -> DDDiv(D, rm, x, y)
    [] op = "fmod" -> DDFmod(D, x, y)
    [] op = "rem" -> DDRem(D, x, y)
Un(F, op, rm, x) ==
  CASE op = "rint" -> RoundInt(F, rm, x)
    [] op = "next" -> NextUp(F, x)
    [] op = "prev" -> NextDown(F, x)
DDUn(D, op, rm, x) ==
  CASE op = "rint" -> DDRoundInt(D, rm, x)
    [] op = "next" -> DDNextUp(D, x)
    [] op = "prev" -> DDNextDown(D, x)

OutV(ev, v) == IF IsDD(ev) THEN DDEncode(Dbl[ev.f], v) ELSE Encode(Fmt[ev.f], v)
OutR(ev, r) == IF "form" \in DOMAIN ev /\ ev.form = 2 THEN [r |-> OutV(ev, r.v)]
               ELSE [r |-> OutV(ev, r.v), st |-> Mask(r.st)]

Relations(o) == << o = "eq", o # "eq", o = "lt", o \in {"lt", "eq"}, o = "gt", o \in {"gt", "eq"} >>
ExpCmp(ev) ==
  IF IsDD(ev)
  THEN LET D == Dbl[ev.f]
           x == DDDecode(D, ev.a)  y == DDDecode(D, ev.b)
           o == DDCompare(D, x, y)
           ax == DDWithSign(D, x, 0)  ay == DDWithSign(D, y, 0)
       IN [o |-> o, rel |-> Bs(Relations(o)),
           mag |-> IF IsNum(x.hi) /\ IsNum(y.hi) THEN LET m == DDCompare(D, ax, ay) IN IF m = "un" THEN "eq" ELSE m ELSE "na",
           beq |-> B(ev.a = ev.b),
           mn |-> DDEncode(D, DDMinNum(D, x, y)), mx |-> DDEncode(D, DDMaxNum(D, x, y)),
           mi |-> DDEncode(D, DDMinimum(D, x, y)), ma |-> DDEncode(D, DDMaximum(D, x, y))]
  ELSE LET F == Fmt[ev.f]
           x == Decode(F, ev.a)  y == Decode(F, ev.b)
           o == Compare(x, y)
       IN [o |-> o, rel |-> Bs(Relations(o)),
           mag |-> IF IsNum(x) /\ IsNum(y) THEN CmpMag(x, y) ELSE "na",
           beq |-> B(x = y),
           mn |-> Encode(F, MinNum(x, y)), mx |-> Encode(F, MaxNum(x, y)),
           mi |-> Encode(F, Minimum(x, y)), ma |-> Encode(F, Maximum(x, y))]

ClassOf(F, x) == [cat |-> x.c, q |-> Bs(Queries(F, x)), rt |-> Encode(F, x),
                  ng |-> Encode(F, Flip(x)), ab |-> Encode(F, WithSign(x, 0))]
DDClassOf(D, x) == [cat |-> x.hi.c, q |-> Bs(DDQueries(D, x)), rt |-> DDEncode(D, x),
                 ng |-> DDEncode(D, DDNeg(D, x)), ab |-> DDEncode(D, DDWithSign(D, x, 0))]

(* A pair whose parts add up to a value of the other sign than the high part's, *)
(* or to no finite value, is not a double-double number; nothing is promised    *)
(* about its integer value.                                                     *)
SignClash(D, x) == /\ IsNum(x.hi)
                   /\ LET v == ToFB(D, x) IN ~IsFinite(v) \/ (IsNum(v) /\ v.s # x.hi.s)
ExpToInt(ev) ==
  LET D == Dbl[ev.f]
      rm == IF ev.form = 0 THEN ev.rm ELSE "TZ"
      r  == IF IsDD(ev) THEN DDToInt(D, rm, ev.sg = 1, ev.w, DDDecode(D, ev.a))
            ELSE ToInt(rm, ev.sg = 1, ev.w, Decode(Fmt[ev.f], ev.a))
  IN IF ev.form = 0 THEN [z |-> r.z, st |-> Mask(r.st), ex |-> B(r.exact)]
     ELSE [z |-> r.z, st |-> Mask(r.st)]

ExpParse(ev) ==
  LET r == IF IsDD(ev) THEN DDParse(Dbl[ev.f], Mode(ev), ev.t) ELSE Parse(Fmt[ev.f], Mode(ev), ev.t)
  IN IF ~r.ok THEN [ok |-> 0, err |-> r.err]
     ELSE IF ev.form = 0 THEN [ok |-> 1, r |-> OutV(ev, r.v), st |-> Mask(r.st)]
     ELSE [ok |-> 1, r |-> OutV(ev, r.v)]

ExpConst(ev) ==
  IF IsDD(ev)
  THEN LET D == Dbl[ev.f]
       IN [k |-> <<2 * D.d.bits, D.b.p, D.b.emax, D.b.emin>>, zero |-> DDEncode(D, DDZero(D, 0)), inf |-> DDEncode(D, DDInf(D)),
        nan |-> DDEncode(D, DDNaN(D, 0)), lg |-> DDEncode(D, DDLargest(D, 0)), sm |-> DDEncode(D, DDSmallest(D, 0)),
        sn |-> DDEncode(D, DDSmallestNormal(D, 0)), df |-> DDEncode(D, DDZero(D, 0))]
  ELSE LET F == Fmt[ev.f]
       IN [k |-> <<F.bits, F.p, F.emax, F.emin>>, zero |-> Encode(F, Zero(0)), inf |-> Encode(F, Inf(F, 0)),
           nan |-> Encode(F, DefaultNaN(F, 0)), lg |-> Encode(F, Largest(F, 0)), sm |-> Encode(F, Smallest(F, 0)),
           sn |-> Encode(F, SmallestNormal(F, 0)), df |-> Encode(F, Zero(0))]

ExpNaN(ev) ==
  IF IsDD(ev)
  THEN LET D == Dbl[ev.f]
           x == Pair(IF ev.sg = 1 THEN SNaNWith(D.d, ev.hasp = 1, ev.a) ELSE QNaNWith(D.d, ev.hasp = 1, ev.a), Zero(0))
       IN [r |-> DDEncode(D, x)] @@ DDClassOf(D, x)
  ELSE LET F == Fmt[ev.f]
           x == IF ev.sg = 1 THEN SNaNWith(F, ev.hasp = 1, ev.a) ELSE QNaNWith(F, ev.hasp = 1, ev.a)
       IN [r |-> Encode(F, x)] @@ ClassOf(F, x)

Table(rr, F) == [rs |-> [i \in DOMAIN rr |-> Encode(F, rr[i].v)], ss |-> [i \in DOMAIN rr |-> Mask(rr[i].st)]]
ExpRow(ev) ==
  LET F == Fmt[ev.f]
      x == Decode(F, ev.a)
      rm == Mode(ev)
      rr == [i \in 1..2^ev.w |->
               LET y == Decode(F, Z(i - 1))
               IN IF ev.of = "fma" THEN MulAdd(F, ev.rm, x, y, Decode(F, ev.c)) ELSE Bin(F, ev.of, rm, x, y)]
      t == Table(TLCEval(rr), F)
  IN IF ev.form = 2 THEN [rs |-> t.rs, ss |-> [i \in 1..2^ev.w |-> -1]] ELSE t
(* A unary call on 2^w consecutive patterns: what it delivers, packed. *)
Cell(ev, F, x) ==
  LET of(v, n) == [r |-> v, s |-> n]
      val(r) == of(Encode(F, r.v), Mask(r.st))
  IN CASE ev.of \in {"rint", "next", "prev"} -> val(Un(F, ev.of, ev.rm, x))
       [] ev.of = "ilogb" -> of(Z0, ILogB(x))
       [] ev.of = "scale" -> of(Encode(F, Scale(F, ev.rm, x, ev.n)), 0)
       [] ev.of = "frexp" -> LET r == Frexp(F, ev.rm, x) IN of(Encode(F, r.v), r.n)
       [] ev.of = "inv" -> LET r == ExactInverse(F, x) IN IF r = << >> THEN of(Z0, 0) ELSE of(Encode(F, r[1]), 1)
       [] ev.of = "toint" -> LET r == ToInt(ev.rm, ev.sg = 1, ZInt(ev.c), x) IN of(r.z, Mask(r.st) + 32 * B(r.exact))
       [] ev.of = "conv" -> LET G == Fmt[ev.g]  r == Convert(F, G, ev.rm, x)
                            IN of(Encode(G, r.v), Mask(r.st) + 32 * B(r.loses))
ExpRow1(ev) ==
  LET F == Fmt[ev.f]
      rr == TLCEval([i \in 1..2^ev.w |-> Cell(ev, F, Decode(F, ev.a ++ Z(i - 1)))])
  IN [rs |-> [i \in DOMAIN rr |-> rr[i].r], ss |-> [i \in DOMAIN rr |-> rr[i].s]]

(* Status sets, rounding directions, results carrying a status: n, w are masks. *)
HasBit(n, k) == (n \div k) % 2 = 1
Flags == {1, 2, 4, 8, 16}
MaskOf(S) == FoldSet(LAMBDA k, acc : k + acc, 0, S)
BitsIn(n) == { k \in Flags : HasBit(n, k) }
OrMask(n, w) == MaskOf(BitsIn(n) \cup BitsIn(w))
ExpMeta(ev) ==
  LET o == OrMask(ev.n, ev.w)
  IN [or |-> o, or2 |-> o, and |-> MaskOf(BitsIn(ev.n) \cap BitsIn(ev.w)), has |-> B(BitsIn(ev.w) \subseteq BitsIn(ev.n)),
      ok |-> B(ev.n = 0), ms |-> ev.n, mv |-> IF ZOdd(ev.a) THEN ev.a -- Z1 ELSE ev.a ++ Z1,
      sk |-> o, ls |-> ev.n, v1 |-> ev.a, v2 |-> ev.a, un |-> B(ev.n = 0), nm |-> NegMode(ev.rm)]

(* Printing; with no option given also the debugging text of the same value. *)
ExpShow(ev) ==
  LET dd == IsDD(ev)
      F  == IF dd THEN Dbl[ev.f].d ELSE Fmt[ev.f]
      x  == IF dd THEN DDDecode(Dbl[ev.f], ev.a).hi ELSE Decode(F, ev.a)
      s  == IF dd THEN DDShow(Dbl[ev.f], DDDecode(Dbl[ev.f], ev.a), ev.n, ev.w, ev.alt = 1)
            ELSE Show(F, x, ev.n, ev.w, ev.alt = 1)
      DoubleFloatOpen == <<68, 111, 117, 98, 108, 101, 70, 108, 111, 97, 116, 40>>
  IN IF ev.n < 0 /\ ev.w < 0 /\ ev.alt = 0
     THEN [s |-> s, db |-> IF dd THEN DoubleFloatOpen \o DebugHead(Show(F, x, -1, -1, FALSE), x) ELSE DebugHead(s, x)]
     ELSE [s |-> s]

(* Values loaded, named, copied and selected in histories (FPU.tla). *)
NamedOf(ev) ==
  LET c == ExpConst(ev)
  IN CASE ev.n = 0 -> c.zero [] ev.n = 1 -> c.inf [] ev.n = 2 -> c.nan [] ev.n = 3 -> c.lg
       [] ev.n = 4 -> c.sm [] ev.n = 5 -> c.sn [] ev.n = 6 -> c.df
PickOf(ev) ==
  LET c == ExpCmp(ev) IN CASE ev.n = 0 -> c.mn [] ev.n = 1 -> c.mx [] ev.n = 2 -> c.mi [] ev.n = 3 -> c.ma
Canon(ev) == IF IsDD(ev) THEN LET D == Dbl[ev.f] IN DDEncode(D, DDDecode(D, ev.a))
             ELSE LET F == Fmt[ev.f] IN Encode(F, Decode(F, ev.a))
IsNaNBits(ev) == IF IsDD(ev) THEN IsNaN(DDDecode(Dbl[ev.f], ev.a).hi) \/ IsNaN(DDDecode(Dbl[ev.f], ev.a).lo)
                 ELSE IsNaN(Decode(Fmt[ev.f], ev.a))

Expected(ev) ==
  LET D == Dbl[ev.f] IN
  CASE ev.op \in {"add", "sub", "mul", "div", "fmod", "rem"} ->
         OutR(ev, IF IsDD(ev) THEN DDBin(D, ev.op, Mode(ev), DDDecode(D, ev.a), DDDecode(D, ev.b))
                  ELSE LET F == Fmt[ev.f] IN Bin(F, ev.op, Mode(ev), Decode(F, ev.a), Decode(F, ev.b)))
    [] ev.op = "fma" ->
         OutR(ev, IF IsDD(ev) THEN DDMulAdd(D, Mode(ev), DDDecode(D, ev.a), DDDecode(D, ev.b), DDDecode(D, ev.c))
                  ELSE LET F == Fmt[ev.f] IN MulAdd(F, Mode(ev), Decode(F, ev.a), Decode(F, ev.b), Decode(F, ev.c)))
    [] ev.op \in {"rint", "next", "prev"} ->
         OutR(ev, IF IsDD(ev) THEN DDUn(D, ev.op, ev.rm, DDDecode(D, ev.a))
                  ELSE LET F == Fmt[ev.f] IN Un(F, ev.op, ev.rm, Decode(F, ev.a)))
    [] ev.op = "row" -> ExpRow(ev)
    [] ev.op = "row1" -> ExpRow1(ev)
    [] ev.op = "cmp" -> ExpCmp(ev)
    [] ev.op = "class" -> IF IsDD(ev) THEN DDClassOf(D, DDDecode(D, ev.a))
                          ELSE LET F == Fmt[ev.f] IN ClassOf(F, Decode(F, ev.a))
    [] ev.op = "neg" -> [r |-> IF IsDD(ev) THEN DDEncode(D, DDNeg(D, DDDecode(D, ev.a)))
                               ELSE LET F == Fmt[ev.f] IN Encode(F, Flip(Decode(F, ev.a)))]
    [] ev.op = "abs" -> [r |-> IF IsDD(ev) THEN DDEncode(D, DDWithSign(D, DDDecode(D, ev.a), 0))
                               ELSE LET F == Fmt[ev.f] IN Encode(F, WithSign(Decode(F, ev.a), 0))]
    [] ev.op = "copysign" ->
         [r |-> IF IsDD(ev) THEN DDEncode(D, DDWithSign(D, DDDecode(D, ev.a), DDDecode(D, ev.b).hi.s))
                ELSE LET F == Fmt[ev.f] IN Encode(F, WithSign(Decode(F, ev.a), Decode(F, ev.b).s))]
    [] ev.op = "conv" -> LET F == Fmt[ev.f]  G == Fmt[ev.g]
                             r == Convert(F, G, Mode(ev), Decode(F, ev.a))
                         IN [r |-> Encode(G, r.v), st |-> Mask(r.st), lo |-> B(r.loses)]
    [] ev.op = "toint" -> IF IsDD(ev) /\ SignClash(D, DDDecode(D, ev.a)) THEN << >> ELSE ExpToInt(ev)
    [] ev.op = "fromint" -> OutR(ev, IF IsDD(ev) THEN DDFromInt(D, Mode(ev), ev.a) ELSE FromInt(Fmt[ev.f], Mode(ev), ev.a))
    [] ev.op = "parse" -> ExpParse(ev)
    [] ev.op = "show" -> ExpShow(ev)
    [] ev.op = "scale" -> [r |-> IF IsDD(ev) THEN DDEncode(D, DDScale(D, Mode(ev), DDDecode(D, ev.a), ev.n))
                                 ELSE LET F == Fmt[ev.f] IN Encode(F, Scale(F, Mode(ev), Decode(F, ev.a), ev.n))]
    [] ev.op = "ilogb" -> [i |-> IF IsDD(ev) THEN DDILogB(D, DDDecode(D, ev.a)) ELSE ILogB(Decode(Fmt[ev.f], ev.a))]
    [] ev.op = "frexp" -> LET r == IF IsDD(ev) THEN DDFrexp(D, Mode(ev), DDDecode(D, ev.a))
                                   ELSE Frexp(Fmt[ev.f], Mode(ev), Decode(Fmt[ev.f], ev.a))
                          IN [r |-> OutV(ev, r.v), i |-> r.n]
    [] ev.op = "inv" -> LET r == IF IsDD(ev) THEN DDExactInverse(D, DDDecode(D, ev.a))
                                 ELSE ExactInverse(Fmt[ev.f], Decode(Fmt[ev.f], ev.a))
                        IN IF r = << >> THEN [has |-> 0] ELSE [has |-> 1, r |-> OutV(ev, r[1])]
    [] ev.op = "const" -> ExpConst(ev)
    [] ev.op = "meta" -> ExpMeta(ev)
    [] ev.op \in {"load", "copy"} -> [r |-> Canon(ev)]
    [] ev.op = "named" -> [r |-> NamedOf(ev)]
    [] ev.op = "pick" -> [r |-> PickOf(ev)]
    [] ev.op = "fresh" -> [beq |-> 1, cls |-> 1, eq |-> B(~IsNaNBits(ev))]
    [] ev.op = "nan" -> ExpNaN(ev)

(* The fields on which ev departs from x (a panic departs on all of them). *)
Departures(ev, x) == { k \in DOMAIN x : IF k \in DOMAIN ev THEN ev[k] # x[k] ELSE TRUE }
Conforms(ev) == "panic" \notin DOMAIN ev /\ Departures(ev, Expected(ev)) = {}
=============================================================================
