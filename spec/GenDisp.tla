------------------------------- MODULE GenDisp -------------------------------
(* Small tables against small bundles: what is delivered partitions what came. *)
EXTENDS Dispatch, Json, IOUtils
S(x) == [i \in 1..Len(x) |-> x[i]]
Addr == {<<47, 97>>, <<47, 97, 47, 98>>, <<47, 42>>, <<47, 42, 47, 98>>, <<47, 97, 47, 42>>, <<47, 98, 99, 47, 97>>, <<47, 91, 97, 98, 93>>}
Sel == {<<47, 97>>, <<47, 97, 47, 98>>, <<47, 98, 99>>, <<47, 98>>}
One == [t |-> "i", v |-> <<0, 0, 0, 7>>]
Bundles == UNION {[1..n -> {[a |-> x, d |-> IF Len(x) > 3 THEN <<One>> ELSE <<>>] : x \in Addr}] : n \in 0..atoi(IOEnv.MSGS)}
Tables == UNION {{t \in [1..n -> Sel] : \A i, j \in 1..n : t[i] = t[j] => i = j} : n \in 0..2}
VARIABLES b, t
vars == <<b, t>>
Tab == [es |-> [i \in 1..Len(t) |-> [s |-> t[i], m |-> 1 + i, c |-> i]], del |-> [on |-> 1, c |-> 9]]
Build == <<[op |-> "vt_new", n |-> 1], [op |-> "vt_deleg", on |-> 1, c |-> 9]>> \o [i \in 1..Len(t) |-> [op |-> "vt_add", s |-> t[i], m |-> 1 + i, c |-> i]]
D(strip, sel, ss) == [op |-> "vt_dispatch", b |-> Ser(b), strip |-> strip, sel |-> sel, ss |-> ss, null |-> 0]
Q(strip) == [op |-> "query", b |-> Ser(b), strip |-> strip, ss |-> t, null |-> 0, own |-> strip]
(* one dispatching call of each kind per state, varied by the state *)
K == (Len(b) + Len(t)) % 2
Script == Build \o <<D(K, 0, <<>>), D(1 - K, 1, IF Len(t) > 0 THEN <<t[Len(t)], <<47, 122>>>> ELSE <<>>), Q(1 - K)>>
Init == /\ b \in Bundles /\ t \in Tables
        /\ PrintT(<<"BEH", ToJson(Script)>>)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* every message goes to some entry or to the delegate and never to both; no entry gets it twice *)
Partition == LET d == Delivered(Tab, b, 0)  un == RestOf(b, Selectors(Tab), 0) IN
    /\ \A i \in 1..Len(d) : Len(d[i].part) + Len(d[i].comp) <= Len(b)
    /\ \A k \in 1..Len(b) : (\E j \in 1..Len(un) : un[j] = b[k]) = ~(\E i \in 1..Len(d) : (\E j \in 1..Len(d[i].part) : d[i].part[j] = b[k]) \/ (\E j \in 1..Len(d[i].comp) : d[i].comp[j] = b[k]))
(* stripping loses nothing but the matched part *)
Stripped == \A i \in 1..Len(t) : LET p == PartOf(b, t[i], 0)  q == PartOf(b, t[i], 1) IN
    /\ Len(p) = Len(q)
    /\ \A k \in 1..Len(p) : q[k].d = p[k].d /\ q[k].a[1] = 47 /\ \E n \in 0..Len(p[k].a) - 1 : q[k].a = SubSeq(p[k].a, n + 1, Len(p[k].a)) /\ Complete([p[k] EXCEPT !.a = SubSeq(p[k].a, 1, n)], t[i])
(* a message delivered to an entry completely also is by a query for its selector *)
Same == LET w == QueryWant(Q(0)) IN \A i \in 1..Len(w.rs) : w.rs[i].comp = CompOf(b, w.rs[i].s) /\ (w.rs[i].comp # <<>> \/ w.rs[i].part # <<>>)
=============================================================================
