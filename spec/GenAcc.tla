------------------------------- MODULE GenAcc -------------------------------
(* Values around every boundary, in every type that can hold them, and every  *)
(* short history of a table of atoms.                                         *)
EXTENDS Access, Json, IOUtils
VARIABLES kind, j, st, path
vars == <<kind, j, st, path>>
DEPTH == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 3

(* +-(2^k + d) / 2^s *)
Edge(k, d, s, neg) == LET v == Plus(Num(FALSE, <<1>>, k), IntV(d)) IN Times(IF neg THEN Neg(v) ELSE v, Num(FALSE, <<1>>, -s))
EdgeAtoms(k) == {AtomOf(t, v) : t \in IntTypes, v \in {v \in {Edge(k, d, 0, n) : d \in {-1, 0, 1}, n \in BOOLEAN} : TRUE}}
Atoms(k) == LET vs == {Edge(k, d, s, n) : d \in {-1, 0, 1}, s \in {0, 1, 2}, n \in BOOLEAN} IN
            {AtomOf(t, v) : t \in {"f", "d"}, v \in vs}
            \union UNION {{AtomOf(t, v) : v \in {v \in vs : Fits(t, v)}} : t \in IntTypes}

Pool == <<[t |-> "i", v |-> <<0, 0, 1, 200>>], [t |-> "s", v |-> <<97, 98>>], [t |-> "s", v |-> <<98, 99, 100, 101, 102>>],
          [t |-> "b", v |-> <<1, 2, 3>>], [t |-> "T", v |-> <<>>], [t |-> "H", v |-> <<255, 0, 0, 0, 0, 0, 0, 1>>],
          [t |-> ".", v |-> Ser(<<[a |-> <<47, 97>>, d |-> <<[t |-> "s", v |-> <<120>>]>>]>>)]>>
Ops == {[op |-> "aset", k |-> k, x |-> Pool[p], alt |-> a] : k \in {0, 1}, p \in 1..Len(Pool), a \in {0, 1}}
       \union {[op |-> o, k |-> k, j |-> 1 - k] : o \in {"acopy", "aser"}, k \in {0, 1}}
       \union {[op |-> "acopy", k |-> 0, j |-> 0]}
       \union {[op |-> "aneg", k |-> 0], [op |-> "afree", k |-> 1]}

Init == /\ st = A0 /\ path = <<>>
        /\ \/ kind = "value" /\ j \in 0..65
           \/ kind = "table" /\ j = 0
Value == /\ kind = "value" /\ j >= 0
         /\ \A x \in Atoms(j) : PrintT(<<"BEH", ToJson(<<[op |-> "acc", x |-> x], [op |-> "sneg", x |-> x]>>)>>)
         /\ j' = -1 /\ UNCHANGED <<kind, st, path>>
Table == /\ kind = "table" /\ Len(path) < DEPTH
         /\ \E o \in Ops : /\ st' = Apply(st, o)
                           /\ path' = Append(path, o)
                           /\ PrintT(<<"BEH", ToJson(Append(path, o))>>)
         /\ UNCHANGED <<kind, j>>
Next == Value \/ Table
View == <<kind, j, st, IF kind = "table" THEN Len(path) ELSE 0>>
(* every value survives its own encoding; negating twice is the identity on signed values *)
Lossless == kind = "value" /\ j >= 0 =>
            \A x \in Atoms(j) : /\ AtomOf(x.t, ValOf(x)) = x
                                /\ x.t \in {"c", "u", "i", "h", "f", "d"} => Negation(Negation(x)) = x
Spec == Init /\ [][Next]_vars
=============================================================================
