------------------------------- MODULE GenSerial -------------------------------
(* Bundles and bare messages, whole and with a byte changed; the machine is     *)
(* checked against the grammar of packets in Osc.tla.                           *)
EXTENDS Serial, Json, IOUtils
I == [t |-> "i", v |-> <<0, 0, 0, 7>>]
D == [t |-> "d", v |-> <<0, 0, 0, 7, 0, 0, 44, 0>>]
St(x) == [t |-> "s", v |-> x]
T == [t |-> "T", v |-> <<>>]
B == [t |-> "b", v |-> <<1, 2, 3>>]
Msgs == {[a |-> <<47, 97>>, d |-> <<>>], [a |-> <<47, 97, 98>>, d |-> <<I>>], [a |-> <<47, 97, 98, 99>>, d |-> <<T, T, T>>],
         [a |-> <<47>>, d |-> <<D, St(<<47, 120, 121>>)>>], [a |-> <<47, 123, 97, 44, 98, 98, 44, 99, 125>>, d |-> <<B>>],
         [a |-> <<47, 91, 97, 45, 99, 48, 45, 57, 93, 42, 63>>, d |-> <<I, I, I, I>>]}
Most == atoi(IOEnv.MSGS)
Packets == {Ser(b) : b \in UNION {[1..n -> Msgs] : n \in 0..Most}} \cup {MsgBody(m) : m \in Msgs}
Bytes == {0, 1, 4, 8, 35, 42, 44, 45, 47, 91, 93, 97, 105, 123, 125, 128}
SEQ == SubSeq(Ser(<<>>), 1, 8)
VARIABLES s, at
Init == s \in Packets /\ at = 0 /\ PrintT(<<"BEH", ToJson(<<[op |-> "serial", b |-> s]>>)>>)
Next == /\ at = 0
        /\ \E i \in {j \in 1..Len(s) : j <= 8 \/ j % Most = 0 \/ j > Len(s) - 32} : \E b \in Bytes \cup (IF i <= 9 THEN {SEQ[j] : j \in 1..8} ELSE {}) :
             /\ s' = [s EXCEPT ![i] = b] /\ at' = i
             /\ PrintT(<<"BEH", ToJson(<<[op |-> "serial", b |-> s']>>)>>)
Spec == Init /\ [][Next]_<<s, at>>
View == <<s, at = 0>>
(* packets pass, to their end *)
Passes == at = 0 => LET r == Check(s)[2] IN r.err = 0 /\ (r.bare \/ (r.ph = "size" /\ r.k = 0))
(* whatever the grammar admits is not refused, but for what brackets may hold *)
NotRefused == s[1] = 35 /\ WellFormed(s) => Check(s)[2].err \in {0, NESTED, WILDCARD, DASHES, COMMAS, RCURLY, LCURLY, RSQUARE, LSQUARE}
(* an error is not a matter of what comes after it, and only the changed byte or one after it can show one *)
Prompt == Check(s)[2].err # 0 => /\ Check(s)[1] >= at - 1
                                 /\ Check(SubSeq(s, 1, Check(s)[1] + 1))[2].err = Check(s)[2].err
                                 /\ Check(SubSeq(s, 1, Check(s)[1]))[2].err = 0
=============================================================================
