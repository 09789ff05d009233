------------------------------- MODULE Table -------------------------------
(* The hash table is a finite map from keys to values; two tables.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
EMPTY == [x \in {} |-> 0]
NOTABLE == [live |-> FALSE, m |-> EMPTY]
T0 == <<NOTABLE, NOTABLE>>
Fresh == [live |-> TRUE, m |-> EMPTY]
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Entries(m) == {<<k, m[k]>> : k \in DOMAIN m}
Apply(st, e) ==
    LET i == e.t + 1
        t == st[i]
        upd(m) == IF t.live THEN [st EXCEPT ![i].m = m] ELSE st
    IN CASE e.op = "h_new" -> [st EXCEPT ![i] = Fresh]
         [] e.op = "h_store" -> upd(IF e.safe = 1 /\ e.k \in DOMAIN t.m THEN t.m ELSE (e.k :> e.v) @@ t.m)
         [] e.op = "h_remove" -> upd(Without(t.m, e.k))
         [] e.op = "h_clear" -> upd(EMPTY)
         [] e.op = "h_destroy" -> [st EXCEPT ![i] = NOTABLE]
         [] OTHER -> st
(* the value an operation reports, and the entries it visits or hands to the destructor *)
Ret(st, e) == LET m == st[e.t + 1].m IN
    CASE e.op = "h_new" -> 1
      [] e.op = "h_look" -> IF e.k \in DOMAIN m THEN m[e.k] ELSE 0
      [] OTHER -> 0
Log(st, e) == LET m == st[e.t + 1].m IN
    CASE e.op \in {"h_new", "h_clear", "h_destroy", "h_each"} -> Entries(m)
      [] e.op = "h_store" -> IF e.safe = 0 /\ e.k \in DOMAIN m THEN {<<e.k, m[e.k]>>} ELSE {}
      [] e.op = "h_remove" -> IF e.d = 1 /\ e.k \in DOMAIN m THEN {<<e.k, m[e.k]>>} ELSE {}
      [] OTHER -> {}
(* each exactly once, in any order *)
Ok(st, e) == /\ e.res.r = Ret(st, e)
             /\ {e.res.log[j] : j \in 1..Len(e.res.log)} = Log(st, e)
             /\ Len(e.res.log) = Cardinality(Log(st, e))
Exp(st, e) == [r |-> Ret(st, e), log |-> SetToSeq(Log(st, e))]
=============================================================================
