-------------------------------- MODULE GenFmt --------------------------------
(* Every small bundle over strings of troublesome characters and all value     *)
(* kinds, nested two deep: printing and reading back are inverses, and each is *)
(* printed and read back by the library.                                       *)
EXTENDS Text, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Len1 == atoi(IOEnv.LEN)
Chars == {34, 92, 97, 32, 10, 44}
Strings == UNION {[1..n -> Chars] : n \in 0..Len1}
S(v) == [t |-> "s", v |-> v]
Few == {S(<<>>), S(<<34>>), S(<<92, 34>>), [t |-> "i", v |-> <<255, 255, 255, 254>>], [t |-> "T", v |-> <<>>], [t |-> "c", v |-> <<0, 0, 0, 39>>],
        [t |-> "f", v |-> <<63, 192, 0, 0>>], [t |-> "t", v |-> <<131, 170, 126, 128, 128, 0, 0, 0>>], [t |-> "N", v |-> <<>>]}
Addrs == {<<47, 97>>, <<47, 58, 44, 93>>}
M(a, d) == [a |-> a, d |-> d]
N(b) == [t |-> ".", v |-> Ser(b)]
(* the bundle being built: the last message grows, is closed, or is wrapped *)
VARIABLES b, n
vars == <<b, n>>
Init == n = 0 /\ b \in {<<M(<<47, 97>>, <<S(s)>>)>> : s \in Strings} \cup {<<M(a, <<>>)>> : a \in Addrs}
Small == \A i \in DOMAIN b : \A k \in DOMAIN b[i].d : b[i].d[k].t = "s" => b[i].d[k] \in Few
Next == /\ n < Depth /\ Small
        /\ n' = n + 1
        /\ \/ \E x \in Few \cup {N(<<>>)} : b' = [b EXCEPT ![Len(b)].d = Append(@, x)]
           \/ \E a \in Addrs : b' = Append(b, M(a, <<>>))
           \/ b' = <<M(<<47, 98>>, <<N(b)>>)>>
           \/ b' = <<M(<<47, 98>>, <<S(<<34>>), N(b)>>)>>
Spec == Init /\ [][Next]_vars
Beh == PrintT(<<"BEH", ToJson(<<[op |-> "fmt", b |-> b, n |-> (7 * Len(b) + 3 * n + 5 * Len(b[1].d)) % 24]>>)>>)
Right == TextInverse(b) /\ Beh
=============================================================================
