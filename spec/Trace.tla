-------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Conformance of recorded calls.  A trace is cut into chunks so that TLC   *)
(* can check them on all cores: each chunk is one initial state, and every  *)
(* step consumes one event, after comparing what the library delivered with *)
(* what the specification delivers.  A rejected event is printed; checking   *)
(* goes on so that the rest of the trace is judged too.                     *)
(***************************************************************************)
EXTENDS Events, TraceIO, IOUtils

Dir == IOEnv.TRACE_DIR
NChunks == atoi(IOEnv.TRACE_CHUNKS)
Traces == TLCEval([c \in 1..NChunks |-> LoadTrace(Dir \o "/chunk_" \o ToString(c - 1))])
Total == FoldLeft(LAMBDA acc, t : acc + Len(t), 0, Traces)

VARIABLES chunk, idx, bad
vars == << chunk, idx, bad >>

Init == chunk \in 1..NChunks /\ idx = 0 /\ bad = 0
Step == /\ idx < Len(Traces[chunk])
        /\ LET ev == Traces[chunk][idx + 1]
               x  == Expected(ev)
               d  == Departures(ev, x)
           IN IF d = {} /\ "panic" \notin DOMAIN ev THEN bad' = bad
              ELSE bad' = bad + 1 /\ PrintT(<< "REJECT", chunk - 1, idx, d, x >>)
        /\ idx' = idx + 1
        /\ chunk' = chunk
Spec == Init /\ [][Step]_vars
(* every event was consumed *)
Consumed == TLCGet("stats").distinct = Total + NChunks
=============================================================================
