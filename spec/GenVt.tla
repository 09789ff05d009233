-------------------------------- MODULE GenVt --------------------------------
(* Every history of the dispatch table over a few selectors, up to Depth steps *)
EXTENDS Dispatch, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Sel == {<<47, 97>>, <<47, 98, 98>>, <<47>>}
Long == {<<47, 99, 99, 99>>}
Ops == [op : {"vt_add"}, s : Sel, m : {1, 2}, c : {5}] \cup [op : {"vt_rebind"}, s : Sel, m : {3}, c : {6}, ctx : {0, 1}]
  \cup {e \in [op : {"vt_rename"}, s : Sel, n : Sel \cup Long, own : {0, 1}] : TRUE}
Start(n) == [op |-> "vt_new", n |-> n]
Look == <<[op |-> "vt_all"]>> \o SetToSeq([op : {"vt_look"}, s : Sel \cup Long]) \o SetToSeq([op : {"vt_call"}, s : Sel \cup Long])
VARIABLES st, h
vars == <<st, h>>
Init == \E n \in {0, 2} : st = V0 /\ h = <<Start(n)>>
(* giving an entry the name of another is left open *)
Clear(v, e) == e.op = "vt_rename" => (e.n = e.s \/ Index(v.es, e.n) = 0)
Next == /\ Len(h) <= Depth
        /\ \E e \in Ops : /\ Clear(st, e)
                          /\ st' = Apply(st, e)
                          /\ h' = Append(h, e)
                          /\ PrintT(<<"BEH", ToJson(h' \o Look)>>)
Spec == Init /\ [][Next]_vars
View == <<st, Len(h), h[1].n, IF Len(h) > 1 /\ h[Len(h)].op = "vt_rename" THEN h[Len(h)].own ELSE 0>>
Distinct == \A i, j \in 1..Len(st.es) : st.es[i].s = st.es[j].s => i = j
(* entries keep their places *)
Stable == [][/\ Len(st'.es) >= Len(st.es)
             /\ \A i \in 1..Len(st.es) : st'.es[i].s = st.es[i].s \/ h'[Len(h')].op = "vt_rename"]_vars
(* a lookup finds exactly what was added and not renamed away *)
Found == \A s \in Sel : (Index(st.es, s) # 0) = (\E i \in 1..Len(h) :
             \/ h[i].op = "vt_add" /\ h[i].s = s /\ ~\E j \in i + 1..Len(h) : h[j].op = "vt_rename" /\ h[j].s = s /\ h[j].n # s
             \/ h[i].op = "vt_rename" /\ h[i].n = s /\ (\E x \in 1..Len(st.es) : st.es[x].s = s))
=============================================================================
