--------------------------------- MODULE FPU ---------------------------------
(***************************************************************************)
(* The library as an abstract machine: a bank of registers, each holding a  *)
(* datum of some format by its encoding (and nothing else: how the datum    *)
(* came about does not exist here), and the accumulated status.  An         *)
(* instruction names registers where a call (Events.tla) has operands:      *)
(*   ra, rb, rc  operands;  rd  destination;  the other fields as in a call. *)
(***************************************************************************)
EXTENDS Events

NRegs == 12
NoDatum == [f |-> "none", z |-> Z(0)]
EmptyBank == [r \in 0..(NRegs - 1) |-> NoDatum]

Regs(in) == {k \in {"ra", "rb", "rc"} : k \in DOMAIN in}
Fetchable(bank, in) == \A k \in Regs(in) : bank[in[k]].f = in.f

(* The call an instruction makes. *)
CallOf(bank, in) ==
  LET with(c, k, arg) == IF k \in DOMAIN in THEN [x \in {arg} |-> bank[in[k]].z] @@ c ELSE c
  IN with(with(with(in, "ra", "a"), "rb", "b"), "rc", "c")

(* What the instruction delivers. *)
Outcome(bank, sk, in) ==
  CASE in.op \in {"begin", "reset"} -> [sk |-> 0]
    [] in.op = "dump" -> [d |-> [i \in 1..NRegs |-> IF bank[i - 1] = NoDatum THEN -1 ELSE bank[i - 1].z], sk |-> sk]
    [] OTHER -> LET x == Expected(CallOf(bank, in))
                IN IF DOMAIN x = {} THEN x                     \* nothing promised
                   ELSE [sk |-> IF "st" \in DOMAIN x THEN OrMask(sk, x.st) ELSE sk] @@ x

Target(in) == IF in.op = "conv" THEN in.g ELSE in.f
(* The bank after the instruction delivered out. *)
After(bank, in, out) ==
  IF in.op = "begin" THEN EmptyBank
  ELSE IF "rd" \in DOMAIN in /\ "r" \in DOMAIN out THEN [bank EXCEPT ![in.rd] = [f |-> Target(in), z |-> out.r]]
  ELSE bank
=============================================================================
