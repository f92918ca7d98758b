------------------------------- MODULE TraceIO -------------------------------
(* LoadTrace(path): the sequence of event records of a recorded trace file.  *)
(* Emit(path, in, out): TRUE, after appending one line with the fields of    *)
(* both records to the file (in's first, then a bar, then out's).            *)
(* Evaluated by java/zov/TraceIO.java.                                       *)
LoadTrace(path) == << >>
Emit(path, in, out) == TRUE
=============================================================================
