-------------------------------- MODULE GenU --------------------------------
(* Every behaviour of OscU over a small alphabet of operations, up to Depth    *)
(* steps: TLC visits each reachable state once, and prints for every           *)
(* transition out of it a behaviour that takes it.  The invariants state what  *)
(* holds of the data whatever the operations were.                             *)
EXTENDS OscU, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Family == IOEnv.FAMILY

i1 == [t |-> "i", v |-> <<0, 0, 0, 1>>]
i2 == [t |-> "i", v |-> <<0, 0, 0, 2>>]
sx == [t |-> "s", v |-> <<120, 121, 122, 119>>]
tt == [t |-> "T", v |-> <<>>]
bl == [t |-> "b", v |-> <<1, 2, 3, 4, 5>>]
a1 == <<47, 97>>          \* /a
a2 == <<47, 98>>          \* /b
a3 == <<47, 97, 47, 99>>  \* /a/c
bn == [t |-> ".", v |-> Ser(<<[a |-> a1, d |-> <<i1>>]>>)]
be == [t |-> ".", v |-> Ser(<<>>)]
MOps == [op : {"m_new"}, m : {0}, a : {a1}]
    \cup [op : {"m_add"}, r : {<<0>>}, v : {i1, sx}, w : {"a", "p"}, pos : {0}, alt : {0}]
    \cup [op : {"m_add"}, r : {<<0>>}, v : {tt, bn}, w : {"i"}, pos : {1}, alt : {0}]
    \cup [op : {"m_rm"}, r : {<<0>>}, k : {0, 1}]
    \cup [op : {"m_set"}, r : {<<0>>}, k : {0}, v : {bl}]
    \cup [op : {"m_move"}, r : {<<0>>}, k : {0}, to : {<<1>>}, w : {"a", "p"}, pos : {0}]
    \cup [op : {"m_args"}, r : {<<0>>}, to : {<<1>>}]
    \cup [op : {"m_clear"}, r : {<<0>>}]
    \cup [op : {"m_dup"}, r : {<<0>>}, to : {1}]
    \cup [op : {"m_free"}, m : {0}]
MStart == [op |-> "m_new", m |-> 1, a |-> a2]

BOps == [op : {"m_with"}, m : {0}, a : {a1, a2, a3}, v : {i1}]
    \cup [op : {"m_with"}, m : {0}, a : {a1}, v : {i2}]
    \cup [op : {"b_add"}, b : {0}, m : {0}, how : {"add", "nodup", "replace"}]
    \cup [op : {"b_rmaddr"}, b : {0}, a : {a1, a2}]
    \cup [op : {"b_take"}, b : {0}, k : {0, 1}, to : {1}]
    \cup [op : {"b_add"}, b : {0}, m : {1}, how : {"add"}]
    \cup [op : {"b_copy"}, b : {0}, to : {1}]
    \cup [op : {"b_copy"}, b : {1}, to : {0}]
    \cup [op : {"b_union"}, x : {0}, y : {1}, to : {2}]
    \cup [op : {"b_inter"}, x : {0}, y : {1}, to : {2}]
BStart == [op |-> "b_new", b |-> 0]

Ops == IF Family = "m" THEN MOps ELSE BOps
Start == IF Family = "m" THEN MStart ELSE BStart

VARIABLES st, h
vars == <<st, h>>
Init == st = Do(St0, Start).st /\ h = <<Start>>
Next == /\ Len(h) <= Depth
        /\ \E e \in Ops :
             /\ Enabled(st, e)
             /\ st' = Do(st, e).st
             /\ h' = Append(h, e)
             /\ PrintT(<<"BEH", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
View == <<st, Len(h) = Depth + 1>>

AllB == {st.B[i] : i \in 1..4} \ {NilBndl}
AllM == {st.M[i] : i \in 1..4} \ {NilMsg}
Encodes == \A b \in AllB : RoundTrips(b)
EncodesM == \A m \in AllM : RoundTrips(<<m>>)
(* the definitions of the operations have the properties a user expects of them *)
Algebra == \A b, c \in AllB :
    LET u == Union(b, c) n == Intersection(b, c) IN
    /\ {u[i].a : i \in 1..Len(u)} = {b[i].a : i \in 1..Len(b)} \cup {c[i].a : i \in 1..Len(c)}
    /\ {n[i].a : i \in 1..Len(n)} = {b[i].a : i \in 1..Len(b)} \cap {c[i].a : i \in 1..Len(c)}
    /\ \A i, j \in 1..Len(u) : u[i].a = u[j].a => i = j
    /\ Union(b, b) = Union(b, <<>>) /\ Intersection(b, b) = Union(b, <<>>)
Nesting == \A b \in AllB :
    LET x == Explode(b, -1, <<>>) f == Flatten(x, 0, <<>>, 1) IN
    /\ RoundTrips(x)
    /\ ( /\ \A i, j \in 1..Len(b) : i # j => ~IsPrefix(b[i].a, b[j].a)
         /\ \A i \in 1..Len(b) : b[i].d # <<>> /\ \A k \in 1..Len(b[i].d) : ~IsBndl(b[i].d[k]) )
       => {f[i] : i \in 1..Len(f)} = {b[i] : i \in 1..Len(b)}
Matching == \A b \in AllB : \A q \in {a1, a2, a3, <<47, 42>>} :
    /\ \A i \in 1..Len(b) : b[i].a = q => Exists(b, q, 1) = 1
    /\ Exists(b, q, 0) >= Exists(b, q, 1) /\ Exists(b, q, 1) >= Bound(b, q, 1)
(* the serialised set operations mean the same, when no bundle repeats an address *)
SS == INSTANCE OscS
Agree == \A b, c \in AllB :
    LET distinct(x) == \A i, j \in 1..Len(x) : i # j => x[i].a # x[j].a IN
    distinct(b) /\ distinct(c) =>
        /\ Parse(SS!UnionS(Ser(b), Ser(c))) = Union(b, c)
        /\ Parse(SS!InterS(Ser(b), Ser(c))) = Intersection(b, c)
=============================================================================
