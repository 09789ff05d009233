---- MODULE TraceDispatch ----
EXTENDS Dispatch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Init == l = 1 /\ st = V0
Report(exp) == PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> exp])>>)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN st' = V0
           ELSE /\ st' = Apply(st, e)
                /\ IF Ok(st, e) THEN TRUE ELSE Report(Exp(st, e))
Spec == Init /\ [][Next]_<<l, st>>
====
