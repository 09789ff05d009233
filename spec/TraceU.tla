------------------------------- MODULE TraceU -------------------------------
EXTENDS OscU, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Init == l = 1 /\ st = St0
Report(exp) == PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> exp])>>)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN st' = St0
           ELSE LET x == Apply(st, e) IN
                /\ st' = [M |-> e.res.M, B |-> e.res.B]
                /\ IF e.res.r = x.r /\ st' = x.st THEN TRUE
                   ELSE Report([r |-> x.r, M |-> x.st.M, B |-> x.st.B])
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
