------------------------------ MODULE GenTable ------------------------------
(* Every behaviour of the two tables over a few keys (two of them collide in   *)
(* the ELF hash and two only in their slot), up to Depth steps.                *)
EXTENDS Table, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Keys == {<<97, 98>>, <<98, 82>>, <<113>>, <<34, 35>>}      \* ab and bR collide
Ops == [op : {"h_store"}, t : {0}, k : Keys, v : {1, 2}, safe : {0}]
  \cup [op : {"h_store"}, t : {0}, k : Keys, v : {3}, safe : {1}]
  \cup [op : {"h_remove"}, t : {0}, k : Keys, d : {0, 1}]
  \cup [op : {"h_clear", "h_destroy"}, t : {0}]
Start == [op |-> "h_new", t |-> 0, slots |-> 1]
Look == <<[op |-> "h_each", t |-> 0]>> \o SetToSeq([op : {"h_look"}, t : {0}, k : Keys])
VARIABLES st, h
vars == <<st, h>>
Init == st = Apply(T0, Start) /\ h = <<Start>>
Next == /\ Len(h) <= Depth
        /\ \E e \in Ops :
             /\ st' = Apply(st, e)
             /\ h' = Append(h, e)
             /\ PrintT(<<"BEH", ToJson(h' \o Look)>>)
Spec == Init /\ [][Next]_vars
View == <<st, Len(h)>>
(* the map a history leaves: the last store of a key that nothing after it undid *)
Undoes(e, k) == e.op \in {"h_clear", "h_destroy"} \/ (e.op = "h_remove" /\ e.k = k)
Stores(e, k) == e.op = "h_store" /\ e.k = k
RECURSIVE Back(_, _)
Back(k, i) == IF i = 0 THEN 0
              ELSE IF Undoes(h[i], k) THEN 0
              ELSE IF Stores(h[i], k) /\ h[i].safe = 0 THEN h[i].v
              ELSE IF Stores(h[i], k) THEN LET b == Back(k, i - 1) IN IF b # 0 THEN b ELSE h[i].v
              ELSE Back(k, i - 1)
Dead == \E i \in 1..Len(h) : h[i].op = "h_destroy"
Last1 == \A k \in Keys : ~Dead => Ret(st, [op |-> "h_look", t |-> 0, k |-> k]) = Back(k, Len(h))
(* nothing leaves the table but through a step that names it or empties it *)
Conserved == [][\A k \in DOMAIN st[1].m : k \in DOMAIN st'[1].m \/ Undoes(h'[Len(h')], k)]_vars
=============================================================================
