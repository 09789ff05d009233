------------------------------- MODULE GenTime -------------------------------
(* The days of the 32-bit era one by one: the calendar of Time.tla is the one   *)
(* that steps from day to day, and every day is printed as a replayable time.   *)
EXTENDS Time, Json, IOUtils
Stride == atoi(IOEnv.STRIDE)
Off == atoi(IOEnv.OFF)
LastDay == 49710
VARIABLES n, c
vars == <<n, c>>
Init == n = 0 /\ c = [y |-> 1900, m |-> 1, d |-> 1]
Zeros(k) == [i \in 1..k |-> 0]
At(s) == BigEndian(NAdd(DaySecs(n), NSmall(s)), 4)
Interesting == (n + Off) % Stride = 0 \/ c.d = 1 \/ (c.m = 2 /\ c.d >= 28) \/ (c.m = 12 /\ c.d = 31)
Beh == << <<[op |-> "tt_text", a |-> At(IF n < LastDay THEN 86399 ELSE 23295) \o <<255, 255, 255, 255>>, n |-> 28],
            [op |-> "tt_text", a |-> At(0) \o Zeros(4), n |-> 20]>> >>
Next == /\ n < LastDay
        /\ n' = n + 1
        /\ c' = NextDay(c)
        /\ IF Interesting THEN PrintT(<<"BEH", ToJson(Beh[1])>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
Steps == Date(n) = c /\ DayNo(c) = n
Known == /\ (n = 25567 => c = [y |-> 1970, m |-> 1, d |-> 1])
         /\ (n = LastDay => c = [y |-> 2036, m |-> 2, d |-> 7])
=============================================================================
