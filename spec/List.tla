-------------------------------- MODULE List --------------------------------
(* The linked list is a sequence of non-zero values; two lists.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NOLIST == <<-1>>
T0 == <<NOLIST, NOLIST>>
Live(l) == l # NOLIST
(* position k counted from 0, -1 the last, as an index; 0 if there is none *)
At(l, k) == IF k = -1 THEN Len(l) ELSE IF k >= 0 /\ k < Len(l) THEN k + 1 ELSE 0
PopPos(l, e) == CASE e.w = "h" -> IF l = <<>> THEN 0 ELSE 1
                  [] e.w = "t" -> Len(l)
                  [] OTHER -> At(l, e.k)
Apply(st, e) ==
    LET i == e.t + 1
        l == st[i]
        set(x) == IF Live(l) THEN [st EXCEPT ![i] = x] ELSE st
    IN CASE e.op = "l_new" -> [st EXCEPT ![i] = <<>>]
         [] e.op = "l_add" -> IF e.v = 0 THEN st ELSE set(IF e.w = "p" THEN <<e.v>> \o l ELSE Append(l, e.v))
         [] e.op = "l_pop" -> IF ~Live(l) \/ PopPos(l, e) = 0 THEN st ELSE set(RemoveAt(l, PopPos(l, e)))
         [] e.op = "l_clear" -> set(<<>>)
         [] e.op = "l_destroy" -> [st EXCEPT ![i] = NOLIST]
         [] e.op = "l_clone" -> IF Live(l) THEN [st EXCEPT ![e.to + 1] = l] ELSE st
         [] e.op = "l_sweep" -> set(SelectSeq(l, LAMBDA x : x % e.every # 0))
         [] OTHER -> st
Ret(st, e) == LET l == st[e.t + 1] IN
    IF ~Live(l) THEN 0
    ELSE CASE e.op = "l_peek" -> IF At(l, e.k) = 0 THEN 0 ELSE l[At(l, e.k)]
           [] e.op = "l_pop" -> IF PopPos(l, e) = 0 THEN 0 ELSE l[PopPos(l, e)]
           [] OTHER -> 0
Steps(l) == [i \in 1..Len(l) |-> <<i - 1, l[i]>>] \o <<<<-1, 0>>>>
Elems(l) == IF Live(l) THEN l ELSE <<>>
Log(st, e) == LET l == Elems(st[e.t + 1]) IN
    CASE e.op = "l_each" -> Steps(l)
      [] e.op = "l_sweep" -> Steps(l)     \* each visited, though some leave on the way
      [] e.op \in {"l_new", "l_clear", "l_destroy"} -> l
      [] e.op = "l_clone" -> IF Live(st[e.t + 1]) THEN Elems(st[e.to + 1]) ELSE <<>>
      [] OTHER -> <<>>
Exp(st, e) == LET s == Apply(st, e) IN
    [r |-> Ret(st, e), log |-> Log(st, e),
     n |-> [i \in 1..2 |-> IF Live(s[i]) THEN Len(s[i]) ELSE -1],
     ends |-> FlattenSeq([i \in 1..2 |-> IF Elems(s[i]) = <<>> THEN <<0, 0>> ELSE <<Head(s[i]), Last(s[i])>>])]
Ok(st, e) == e.res = Exp(st, e)
=============================================================================
