------------------------------- MODULE GenArr -------------------------------
(* Every behaviour of the arrays over a small alphabet, up to Depth steps.     *)
EXTENDS Arr, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
sx == [t |-> "s", v |-> <<120, 121, 122, 119>>]
i1 == [t |-> "i", v |-> <<0, 0, 0, 1>>]
bx == [t |-> "b", v |-> <<0, 0, 0, 3, 1, 2, 3, 0>>]
Ops == [op : {"r_put"}, k : {0}, i : {-1, 0, 1, 2, 3}, v : {<<7, 8, 9>>}]
  \cup [op : {"r_resize"}, k : {0}, n : {-1, 0, 1, 4}]
  \cup [op : {"r_copy"}, k : {0}, to : {1}]
  \cup [op : {"r_into"}, k : {0}, to : {1}, off : {-1, 0, 2}]
  \cup [op : {"r_into"}, k : {1}, to : {0}, off : {1}]
  \cup [op : {"r_clear", "r_free"}, k : {0}]
  \cup [op : {"v_put"}, k : {0}, i : {-1, 0, 1, 2}, x : {sx}]
  \cup [op : {"v_put"}, k : {0}, i : {0}, x : {i1, bx}]
  \cup [op : {"v_copy"}, k : {0}, to : {1}]
  \cup [op : {"v_into"}, k : {0}, to : {1}, off : {-1, 0, 2}]
  \cup [op : {"v_into"}, k : {1}, to : {0}, off : {1}]
  \cup [op : {"v_grow"}, k : {0}, n : {0, 3}]
  \cup [op : {"v_free"}, k : {0}]
Starts == {[op |-> "r_new", k |-> 0, n |-> 2, w |-> 3], [op |-> "v_new", k |-> 0, n |-> 2], [op |-> "r_new", k |-> 0, n |-> 0, w |-> 3], [op |-> "v_new", k |-> 0, n |-> 0]}
VARIABLES st, h
vars == <<st, h>>
Init == \E s \in Starts : st = Apply3(T0, s) /\ h = <<s>>
IsR(op) == op \in {"r_new", "r_put", "r_resize", "r_copy", "r_into", "r_clear", "r_free"}
Next == /\ Len(h) <= Depth
        /\ \E e \in Ops :
             /\ IsR(e.op) <=> IsR(h[1].op)
             /\ st' = Apply3(st, e)
             /\ h' = Append(h, e)
             /\ PrintT(<<"BEH", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
View == <<st, Len(h), IsR(h[1].op)>>
(* a refused step changes nothing but, possibly, an array of another element size *)
e1 == h'[Len(h')]
Refused == [][(e1.op \in {"r_resize", "r_into", "v_into", "v_grow"} /\ Ret(st, e1) = 1) => st'.a = st.a /\ st'.v = st.v]_vars
(* only the array an operation names changes, and copying never shortens *)
Frame == [][\A k \in 0..2 : (\/ A(st', k) = A(st, k) /\ V(st', k) = V(st, k)
                             \/ "to" \in DOMAIN e1 /\ e1.to = k
                             \/ "to" \notin DOMAIN e1 /\ e1.k = k)]_vars
Longer == [][e1.op \in {"r_into", "v_into"} =>
                /\ A(st, e1.to) # NOARR => Len(A(st', e1.to)) >= Len(A(st, e1.to))
                /\ V(st, e1.to) # NOVEC => Len(V(st', e1.to)) >= Len(V(st, e1.to))]_vars
=============================================================================
