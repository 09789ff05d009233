---- MODULE TraceList ----
EXTENDS List, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Init == l = 1 /\ st = T0
Report(exp) == PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> exp])>>)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN st' = T0
           ELSE /\ st' = Apply(st, e)
                /\ IF Ok(st, e) THEN TRUE ELSE Report(Exp(st, e))
Spec == Init /\ [][Next]_<<l, st>>
====
