-------------------------------- MODULE GenS --------------------------------
(* Every behaviour of OscS over a small alphabet of operations, up to Depth    *)
(* steps (one printed per transition of the state graph), and what holds of    *)
(* the definitions on every reachable state.                                   *)
EXTENDS OscS, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)

i1 == [t |-> "i", v |-> <<0, 0, 0, 1>>]
sx == [t |-> "s", v |-> <<120, 121, 122, 119>>]
a1 == <<47, 97>>          \* /a
a2 == <<47, 98, 98, 98>>  \* /bbb
a3 == <<47, 97, 47, 99>>  \* /a/c
m1 == SerMsg([a |-> a1, d |-> <<i1>>])
m2 == SerMsg([a |-> a1, d |-> <<>>])
m3 == SerMsg([a |-> a2, d |-> <<sx, i1>>])
m4 == SerMsg([a |-> a3, d |-> <<>>])
tm == <<1, 2, 3, 4, 5, 6, 7, 8>>
Ops == [op : {"s_append"}, b : {0}, m : {m1, m2, m3, m4}, how : {0}]
  \cup [op : {"s_append"}, b : {1}, m : {m3}, how : {1}]
  \cup [op : {"s_replace"}, b : {0}, k : {0, 1}, m : {m3}, extra : {0}]
  \cup [op : {"s_replace"}, b : {0}, k : {1}, m : {m2}, extra : {8}]
  \cup [op : {"s_remove"}, b : {0}, a : {a1, a2}]
  \cup [op : {"s_rename"}, b : {0}, k : {0}, a : {a3, <<47>>}, to : {0, 1}]
  \cup [op : {"s_wrap"}, b : {0}, k : {1}, to : {1}, alloc : {1}]
  \cup [op : {"s_settime"}, b : {0}, t : {tm}]
  \cup [op : {"s_concat"}, x : {0}, y : {1}, to : {0}]
  \cup [op : {"s_set"}, what : {"union", "inter", "diff"}, x : {0}, y : {1}, to : {2}, pre : {0}]
  \cup [op : {"s_copy"}, b : {2}, to : {0}]
  \cup [op : {"s_copy"}, b : {0}, to : {1}]
Start == [op |-> "s_empty", b |-> 0]

VARIABLES st, h
vars == <<st, h>>
Init == st = Do(St0, Start).st /\ h = <<Start>>
Next == /\ Len(h) <= Depth
        /\ \E e \in Ops :
             /\ Enabled(st, e)
             /\ st' = Do(st, e).st
             /\ h' = Append(h, e)
             /\ PrintT(<<"BEH", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
View == <<st, Len(h) = Depth + 1>>

All == {st[i] : i \in 1..4} \ {NIL}
(* every edit leaves a well-formed bundle, made of its chunks, which the check accepts and counts right *)
Valid == \A s \in All : /\ WellFormed(s)
                        /\ Join(Header(s), Chunks(s)) = s
                        /\ Checked(s) = <<"ok", Len(Chunks(s))>>
                        /\ [i \in 1..Len(Chunks(s)) |-> ChunkMsg(Chunks(s)[i])] = Parse(s)
(* and cutting one anywhere but between messages is refused *)
Cut == \A s \in All : \A n \in 0..Len(s) :
         Checked(SubSeq(s, 1, n))[1] = "ok" <=> \E k \in 0..Len(Chunks(s)) : n = Len(Join(Header(s), SubSeq(Chunks(s), 1, k)))
Algebra == \A x, y \in All :
    LET cs(s) == Chunks(s)
        as(s) == {ChunkAddr(cs(s)[i]) : i \in 1..Len(cs(s))}
        u == UnionS(x, y) n == InterS(x, y) d == DiffS(x, y)
        distinct(s) == \A i, j \in 1..Len(cs(s)) : i # j => ChunkAddr(cs(s)[i]) # ChunkAddr(cs(s)[j])
    IN  /\ as(u) = as(x) \cup as(y)
        /\ as(n) = as(x) \cap as(y)
        /\ as(d) = (as(x) \ as(y)) \cup (as(y) \ as(x))
        /\ distinct(n) /\ distinct(d)
        /\ IsPrefix(cs(x), cs(u))
        /\ distinct(x) => /\ {cs(n)[i] : i \in 1..Len(cs(n))} \subseteq {cs(x)[i] : i \in 1..Len(cs(x))}
                          /\ cs(UnionS(x, x)) = cs(x) /\ cs(InterS(x, x)) = cs(x) /\ cs(DiffS(x, x)) = <<>>
        /\ ConcatS(x, y) = x \o SubSeq(y, 17, Len(y))
=============================================================================
