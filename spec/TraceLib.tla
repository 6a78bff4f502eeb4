------------------------------ MODULE TraceLib ------------------------------
(* Total verdicts on recorded cases.  Each case is a record with field id and
   a sequence ev of events (the calls made on the real code, with arguments
   and observed results).  A trace module defines
      Fails(case, state, event)  the clauses of the specification the event breaks
      After(case, state, event)  the state after an accepted event
   and includes the actions below.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Verdict(kind, id, n, f) == IF kind = "DONE" THEN PrintT(<<"DONE", id, n>>) ELSE PrintT(<<"FAIL", id, n, f>>)
=============================================================================
