---- MODULE TraceExpr ----
EXTENDS Expr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF Ok(e) THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> Exp(e)])>>)
Spec == Init /\ [][Next]_l
====
