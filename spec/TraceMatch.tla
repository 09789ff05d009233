----------------------------- MODULE TraceMatch -----------------------------
(* Trace specification: every recorded match is the one Match.tla defines.    *)
EXTENDS Match, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, addrs
vars == <<l, addrs>>
Init == l = 1 /\ addrs = <<>>

Report(exp) == PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> exp])>>)

Reset(e) == e.op = "reset" /\ addrs' = <<>>
Addrs(e) == e.op = "addrs" /\ addrs' = e.as
One(e) == e.op = "match" /\ UNCHANGED addrs
          /\ LET x == Expected(e.p, e.a) IN IF Agrees(x, e.res, Overlong(e.p, e.a)) THEN TRUE ELSE Report(x)
All(e) == e.op = "matchall" /\ UNCHANGED addrs
          /\ LET bad == {k \in 1..Len(addrs) : ~Agrees(Expected(e.p, addrs[k]), e.res[k], FALSE)} IN
             IF bad = {} THEN TRUE
             ELSE LET k == CHOOSE k \in bad : TRUE IN
                  Report([address |-> addrs[k], expected |-> Expected(e.p, addrs[k]), got |-> e.res[k]])
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ Addrs(e) \/ One(e) \/ All(e)
Spec == Init /\ [][Next]_vars
=============================================================================
