----------------------------- MODULE TraceCheck -----------------------------
(* Trace specification of the sanity checks of raw packets (P03).             *)
EXTENDS OscS, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Report(exp) == PrintT(<<"MISMATCH", ToJson([l |-> l, exp |-> exp])>>)
Code == [ok |-> 0, short |-> 1, id |-> 2, small |-> 4, address |-> 8, large |-> 34]
Packet(s) == LET c == Checked(s) e == Code[c[1]] IN <<e, e, IF e = 0 THEN c[2] ELSE 0, 1>>
Message(s) == IF s[1] >= 128 \/ B4(s, 1) < 4 THEN 4 ELSE IF s[5] # 47 THEN 8 ELSE 0
Address(a) == IF a = NULLADDR THEN 18
              ELSE IF Len(a) < 2 \/ a[1] # 47 THEN 8
              ELSE IF \E i \in 1..Len(a) : a[i] \in {32, 35} THEN 36 ELSE 0
Expect(e) == CASE e.op = "s_check" -> Packet(e.bytes)
               [] e.op = "s_checkmsg" -> Message(e.bytes)
               [] e.op = "s_checkaddr" -> Address(e.a)
               [] OTHER -> e.res
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" \/ e.res = Expect(e) THEN TRUE ELSE Report(Expect(e))
Spec == Init /\ [][Next]_l
=============================================================================
