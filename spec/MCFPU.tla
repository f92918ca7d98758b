-------------------------------- MODULE MCFPU ---------------------------------
(***************************************************************************)
(* The machine of FPU.tla with two registers of a small format: every       *)
(* program over these instructions, in every order.                         *)
(***************************************************************************)
EXTENDS FPU, IOUtils

Deep == IOEnv.DEEP = "1"
F == IOEnv.FPUFMT
Base == IF F \in DOMAIN Dbl THEN Dbl[F].d ELSE Fmt[F]
Width == IF F \in DOMAIN Dbl THEN 2 * Base.bits ELSE Base.bits
Ms == IF Deep THEN {"NE", "TN", "TP"} ELSE {"NE"}
R == {0, 1}

Forms(S) == IF Deep THEN S ELSE {1}
Instrs ==
  [op : {"add", "sub", "mul", "div", "fmod"}, f : {F}, rm : Ms, form : {0}, rd : {0}, ra : {0}, rb : {1}]
  \cup [op : {"mul", "sub"}, f : {F}, rm : {"NE"}, form : Forms({1, 2}), rd : {1}, ra : {0}, rb : {0}]
  \cup [op : {"fma"}, f : {F}, rm : Ms, form : {0}, rd : {0}, ra : {0}, rb : {1}, rc : {0}]
  \cup [op : {"rint", "next"}, f : {F}, rm : {"NE"}, rd : {0}, ra : {0}]
  \cup [op : {"neg"}, f : {F}, rd : {0}, ra : {0}]
  \cup [op : {"copy"}, f : {F}, rd : {1}, ra : {0}]
  \cup [op : {"copysign"}, f : {F}, rd : {0}, ra : {0}, rb : {1}]
  \cup [op : {"scale"}, f : {F}, rm : {"NE"}, form : {0}, n : {-2}, rd : {0}, ra : {0}]
  \cup [op : {"pick"}, f : {F}, n : {0, 3}, rd : {1}, ra : {0}, rb : {1}]
  \cup [op : {"named"}, f : {F}, n : {1, 3, 5}, rd : {0}]
  \cup [op : {"load"}, f : {F}, a : { Z(k) : k \in {5, 2^Width - 2} }, rd : {0}]
  \cup [op : {"toint"}, f : {F}, rm : {"NE"}, form : {0}, sg : {1}, w : {3}, ra : {0}]
  \cup [op : {"reset"}]

VARIABLES nums, sk             \* the registers' encodings, as Int
vars == << nums, sk >>
BankOf(ns) == [r \in 0..(NRegs - 1) |-> IF r \in R THEN [f |-> F, z |-> Z(ns[r])] ELSE NoDatum]
Init == nums = [r \in R |-> 0] /\ sk = 0
Do(in) == LET bank == BankOf(nums)
              out == Outcome(bank, sk, in)
              new == After(bank, in, out)
          IN /\ nums' = [r \in R |-> ZInt(new[r].z)]
             /\ sk' = IF "sk" \in DOMAIN out THEN out.sk ELSE sk
             \* what one instruction may touch
             /\ Assert(in.op = "reset" \/ OrMask(sk, sk') = sk', << "a status bit disappeared", in >>)
             /\ Assert(\A r \in R : nums'[r] = nums[r] \/ ("rd" \in DOMAIN in /\ in.rd = r), << "another register changed", in >>)
             /\ Assert(("form" \in DOMAIN in /\ in.form # 0) =>
                         out.r = Outcome(bank, sk, [in EXCEPT !.form = 0]).r, << "operator form differs", in >>)
Next == \E in \in Instrs : Do(in)
Spec == Init /\ [][Next]_vars

(* the quick tier stops after programs of this length *)
Short == Deep \/ TLCGet("level") <= 7
(* registers hold canonical encodings; underflow and overflow come with inexact *)
TypeOK == /\ sk \in 0..31
          /\ \A r \in R : /\ nums[r] \in 0..(2^Width - 1)
                          /\ Canon([op |-> "load", f |-> F, a |-> Z(nums[r])]) = Z(nums[r])
Sane == (HasBit(sk, 8) => HasBit(sk, 16)) /\ (HasBit(sk, 4) => HasBit(sk, 16))
=============================================================================
