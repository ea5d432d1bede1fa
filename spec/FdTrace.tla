-------------------------------- MODULE FdTrace ---------------------------------
(* Recorded waits of the line reader: is there a run of the specification with   *)
(* these visible steps?                                                          *)
EXTENDS Fd, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, S
Init == l = 1 /\ S = FdInit /\ TLCSet(1, 1)
Seen == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN IF e.op = "begin" THEN S' = FdInit ELSE S' \in FdStep(S, e)
        /\ l' = l + 1
Unseen == l <= Len(Trace) /\ S' \in Silent(S) /\ l' = l
Next == Seen \/ Unseen
Spec == Init /\ [][Next]_<< l, S >>
Note == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == LET d == TLCGet(1) IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d, Trace[d] >>) /\ FALSE
=================================================================================
