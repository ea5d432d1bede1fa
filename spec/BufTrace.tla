------------------------------- MODULE BufTrace -------------------------------
(* Recorded uses of the string buffers, replayed on the specification.         *)
EXTENDS Buf, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, S
Init == l = 1 /\ S = BufInit
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "begin" THEN S' = BufInit
           ELSE LET T == BufStep(S, e)  x == BufObs(T) IN
                /\ S' = T.s
                /\ IF e.obs = x THEN TRUE ELSE PrintT(<< "MISMATCH", l, "observed", e.obs, "specified", x >>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<< l, S >>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
================================================================================
