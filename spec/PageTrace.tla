------------------------------- MODULE PageTrace -------------------------------
(* Recorded uses of paged output, replayed on the specification.         *)
EXTENDS Page, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, S
Init == l = 1 /\ S = PageInit
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "begin" THEN S' = PageInit
           ELSE LET T == PageStep(S, e)  x == PageObs(T) IN
                /\ S' = State(T)
                /\ IF e.obs = x THEN TRUE ELSE PrintT(<< "MISMATCH", l, "observed", e.obs, "specified", x >>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<< l, S >>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
================================================================================
