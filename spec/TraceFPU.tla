------------------------------- MODULE TraceFPU --------------------------------
(***************************************************************************)
(* Conformance of recorded histories: the machine of FPU.tla follows the    *)
(* recorded instructions; every delivered field has to be the machine's.    *)
(* After a departure the machine goes on from what was recorded.            *)
(***************************************************************************)
EXTENDS FPU, TraceIO, IOUtils

Dir == IOEnv.TRACE_DIR
NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == TLCEval([c \in 1..NChunks |-> LoadTrace(Dir \o "/chunk_" \o ToString(c - 1))])
Total == FoldLeft(LAMBDA acc, t : acc + Len(t), 0, Traces)

VARIABLES chunk, idx, bank, sk
vars == << chunk, idx, bank, sk >>

Init == chunk \in 1..NChunks /\ idx = 0 /\ bank = EmptyBank /\ sk = 0
Step == /\ idx < Len(Traces[chunk])
        /\ LET in == Traces[chunk][idx + 1]
               x  == Outcome(bank, sk, in)
               d  == IF Fetchable(bank, in) THEN { k \in DOMAIN x : IF k \in DOMAIN in THEN in[k] # x[k] ELSE TRUE } ELSE {"registers"}
               ok == d = {} /\ "panic" \notin DOMAIN in
           IN /\ IF ok THEN TRUE ELSE PrintT(<< "REJECT", chunk - 1, idx, d, IF Fetchable(bank, in) THEN x ELSE << >> >>)
              /\ bank' = After(bank, in, in)
              /\ sk' = IF "sk" \in DOMAIN in THEN in.sk ELSE sk
        /\ idx' = idx + 1
        /\ chunk' = chunk
Spec == Init /\ [][Step]_vars
(* every step was consumed *)
Consumed == TLCGet("stats").distinct = Total + NChunks
=============================================================================
