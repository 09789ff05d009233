-------------------------------- MODULE Arr --------------------------------
(* Arrays of fixed-size elements and arrays of atoms: bounded sequences.      *)
EXTENDS Access
NOARR == <<<<-1>>>>
NOVEC == <<[t |-> "none", v |-> <<>>]>>
UNSET == [t |-> "unset", v |-> <<>>]
T0 == [a |-> <<NOARR, NOARR, NOARR>>, w |-> <<1, 1, 1>>, v |-> <<NOVEC, NOVEC, NOVEC>>]
Fill(n, x) == [i \in 1..n |-> x]
(* the first n elements, padded with x *)
Sized(s, n, x) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE x]
(* src written over s at offset, growing it if need be *)
Over(s, src, off, x) == LET n == IF Len(s) > off + Len(src) THEN Len(s) ELSE off + Len(src) IN
                        [i \in 1..n |-> IF i > off /\ i <= off + Len(src) THEN src[i - off] ELSE IF i <= Len(s) THEN s[i] ELSE x]
Zero8(n) == [i \in 1..n |-> 0]
A(st, k) == st.a[k + 1]
V(st, k) == st.v[k + 1]
In(s, i) == i >= 0 /\ i < Len(s)
Apply3(st, e) ==
    CASE e.op = "r_new" -> [st EXCEPT !.a[e.k + 1] = Fill(e.n, Zero8(e.w)), !.w[e.k + 1] = e.w]
      [] e.op = "r_put" -> IF A(st, e.k) # NOARR /\ In(A(st, e.k), e.i) /\ Len(e.v) = st.w[e.k + 1] THEN [st EXCEPT !.a[e.k + 1][e.i + 1] = e.v] ELSE st
      [] e.op = "r_clear" -> IF A(st, e.k) = NOARR THEN st ELSE [st EXCEPT !.a[e.k + 1] = Fill(Len(A(st, e.k)), Zero8(st.w[e.k + 1]))]
      [] e.op = "r_resize" -> IF A(st, e.k) = NOARR \/ e.n < 0 THEN st ELSE [st EXCEPT !.a[e.k + 1] = Sized(@, e.n, Zero8(st.w[e.k + 1]))]
      [] e.op = "r_copy" -> [st EXCEPT !.a[e.to + 1] = A(st, e.k), !.w[e.to + 1] = st.w[e.k + 1]]
      [] e.op = "r_into" -> IF A(st, e.k) = NOARR THEN st
                            ELSE LET base == IF A(st, e.to) = NOARR \/ st.w[e.to + 1] # st.w[e.k + 1] THEN NOARR ELSE A(st, e.to)
                                 IN  IF e.off < 0 THEN [st EXCEPT !.a[e.to + 1] = base, !.w[e.to + 1] = st.w[e.k + 1]]
                                     ELSE [st EXCEPT !.a[e.to + 1] = Over(IF base = NOARR THEN <<>> ELSE base, A(st, e.k), e.off, Zero8(st.w[e.k + 1])),
                                                     !.w[e.to + 1] = st.w[e.k + 1]]
      [] e.op = "r_free" -> [st EXCEPT !.a[e.k + 1] = NOARR]
      [] e.op = "v_new" -> [st EXCEPT !.v[e.k + 1] = Fill(e.n, UNSET)]
      [] e.op = "v_put" -> IF V(st, e.k) # NOVEC /\ In(V(st, e.k), e.i) THEN [st EXCEPT !.v[e.k + 1][e.i + 1] = NormAtom(e.x)] ELSE st
      [] e.op = "v_copy" -> [st EXCEPT !.v[e.to + 1] = V(st, e.k)]
      [] e.op = "v_into" -> IF V(st, e.k) = NOVEC \/ e.off < 0 THEN st
                            ELSE [st EXCEPT !.v[e.to + 1] = Over(IF V(st, e.to) = NOVEC THEN <<>> ELSE V(st, e.to), V(st, e.k), e.off, UNSET)]
      [] e.op = "v_grow" -> IF V(st, e.k) = NOVEC \/ e.n < Len(V(st, e.k)) THEN st ELSE [st EXCEPT !.v[e.k + 1] = Sized(@, e.n, UNSET)]
      [] e.op = "v_free" -> [st EXCEPT !.v[e.k + 1] = NOVEC]
      [] OTHER -> st
Ret(st, e) ==
    CASE e.op = "r_put" -> IF A(st, e.k) # NOARR /\ In(A(st, e.k), e.i) THEN 1 ELSE 0
      [] e.op = "v_put" -> IF V(st, e.k) # NOVEC /\ In(V(st, e.k), e.i) THEN 1 ELSE 0
      [] e.op = "r_resize" -> IF A(st, e.k) = NOARR \/ e.n < 0 THEN 1 ELSE 0
      [] e.op = "r_into" -> IF A(st, e.k) = NOARR \/ e.off < 0 THEN 1 ELSE 0
      [] e.op = "v_into" -> IF V(st, e.k) = NOVEC \/ e.off < 0 THEN 1 ELSE 0
      [] e.op = "v_grow" -> IF V(st, e.k) = NOVEC THEN 1 ELSE 0
      [] OTHER -> 0
TypedExp(e) == [ok |-> <<1, 1, 1, 1, 1, 1, 1>>, text |-> Append(FlattenSeq([i \in 1..Len(e.xs) |-> Text(e.xs[i]) \o e.sep]), 0)]
ExpA(st, e) == IF e.op = "v_typed" THEN TypedExp(e)
               ELSE LET s == Apply3(st, e) IN
                    IF e.op \in {"v_new", "v_put", "v_copy", "v_into", "v_grow", "v_free"} THEN [r |-> Ret(st, e), a |-> s.v]
                    ELSE [r |-> Ret(st, e), a |-> s.a]
OkA(st, e) == e.res = ExpA(st, e)
=============================================================================
