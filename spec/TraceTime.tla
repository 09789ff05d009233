---- MODULE TraceTime ----
EXTENDS Time, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "reset" \/ Ok(e) THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> "see spec/Time.tla, Ok"])>>)
Spec == Init /\ [][Next]_l
====
