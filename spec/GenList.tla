------------------------------ MODULE GenList ------------------------------
(* Every behaviour of one list and a clone of it over a few values, up to      *)
(* Depth steps.                                                                *)
EXTENDS List, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Ops == [op : {"l_add"}, t : {0}, v : {1, 2}, w : {"a", "p"}]
  \cup [op : {"l_pop"}, t : {0}, w : {"h", "t"}, k : {0}]
  \cup [op : {"l_pop"}, t : {0}, w : {"n"}, k : {-1, 1, 2, 3}]
  \cup [op : {"l_sweep"}, t : {0}, every : {1, 2}]
  \cup [op : {"l_clone"}, t : {0}, to : {1}]
  \cup [op : {"l_clone"}, t : {1}, to : {0}]
  \cup [op : {"l_clear", "l_destroy"}, t : {0}]
Start == [op |-> "l_new", t |-> 0]
Look == <<[op |-> "l_each", t |-> 0], [op |-> "l_each", t |-> 1]>> \o [i \in 1..7 |-> [op |-> "l_peek", t |-> 0, k |-> i - 3]]
VARIABLES st, h
vars == <<st, h>>
Init == st = Apply(T0, Start) /\ h = <<Start>>
Next == /\ Len(h) <= Depth
        /\ \E e \in Ops :
             /\ st' = Apply(st, e)
             /\ h' = Append(h, e)
             /\ PrintT(<<"BEH", ToJson(h' \o Look)>>)
Spec == Init /\ [][Next]_vars
View == <<st, Len(h)>>
(* positions read what a walk shows *)
Reads == \A i \in 1..2 : Live(st[i]) =>
    /\ \A k \in 0..(Len(st[i]) - 1) : At(st[i], k) = k + 1
    /\ \A k \in {-2, Len(st[i]), Len(st[i]) + 1} : At(st[i], k) = 0
    /\ [j \in 1..Len(st[i]) |-> <<j - 1, st[i][At(st[i], j - 1)]>>] \o <<<<-1, 0>>>> = Steps(st[i])
=============================================================================
