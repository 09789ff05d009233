---- MODULE TraceStr ----
EXTENDS Str, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Report(exp) == PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> exp])>>)
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "reset" \/ Ok(e) THEN TRUE ELSE Report(Exp(e))
Spec == Init /\ [][Next]_l
====
