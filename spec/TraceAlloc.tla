---- MODULE TraceAlloc ----
EXTENDS Alloc, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, live
Init == l = 1 /\ live = {}
Report(exp) == PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> exp])>>)
Has(e) == "al" \in DOMAIN e
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF ~Has(e) THEN live' = {} \* the start of a script
           ELSE /\ live' = IF e.op = "reset" THEN {} ELSE After(live, e.al)
                /\ IF ~Fine(live, e.al) THEN Report([what |-> "every block given back is held, and given back once", held |-> live])
                   ELSE IF e.op = "reset" /\ After(live, e.al) /= {} THEN Report([what |-> "everything has been freed, these blocks are left", left |-> After(live, e.al)])
                   ELSE TRUE
Spec == Init /\ [][Next]_<<l, live>>
====
