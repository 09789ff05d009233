-------------------------------- MODULE OscS --------------------------------
(* Serialised bundles: four slots of bytes, and what reading and editing do.   *)
(* The meaning of a slot is the message list Osc!Parse gives; edits work on    *)
(* the chunks of bytes of the messages.                                        *)
EXTENDS Osc
MM == INSTANCE Match

NIL == <<-2>>
St0 == [i \in 1..4 |-> NIL]
HDR == 16
IsB(st, i) == st[i + 1] # NIL
Header(s) == SubSeq(s, 1, HDR)
RECURSIVE ChunksAt(_, _)
ChunksAt(s, i) == IF i > Len(s) THEN <<>> ELSE <<SubSeq(s, i, i + 3 + B4(s, i))>> \o ChunksAt(s, i + 4 + B4(s, i))
Chunks(s) == ChunksAt(s, HDR + 1)
Join(hdr, cs) == hdr \o FlattenSeq(cs)
(* a message may lack its typetag string altogether *)
ChunkAddr(c) == SubSeq(c, 5, ZeroFrom(c, 5, Len(c)) - 1)
HasTags(c) == StrEnd(c, 5, Len(c)) <= Len(c)
ChunkMsg(c) == IF HasTags(c) THEN ParseMsg(c, 1) ELSE [a |-> ChunkAddr(c), d |-> <<>>]
EmptyBytes == HASHBUNDLE \o ZEROTIME
Idx(cs, P(_)) == SelectSeq([i \in 1..Len(cs) |-> i - 1], LAMBDA i : P(cs[i + 1]))
FirstOf(x) == IF x = <<>> THEN -1 ELSE x[1]

Found(q, c, full) == LET r == MM!Expected(q, ChunkAddr(c))[1] IN IF full = 1 THEN r = 3 ELSE r > 0
Lookup(cs, q, full) == Idx(cs, LAMBDA c : Found(q, c, full))
Bool(p) == IF p THEN 1 ELSE 0
QView(cs, q) ==
    LET lf == Lookup(cs, q, 1)
        lp == Lookup(cs, q, 0)
        bound(x) == Bool(\E k \in 1..Len(x) : ChunkMsg(cs[x[k] + 1]).d # <<>>)
    IN  [full |-> <<Bool(lf # <<>>), bound(lf)>>, part |-> <<Bool(lp # <<>>), bound(lp)>>, lf |-> lf, lp |-> lp,
         ff |-> FirstOf(lf), fe |-> FirstOf(Idx(cs, LAMBDA c : ChunkAddr(c) = q))]
RECURSIVE ArgViews(_, _)
ArgViews(d, off) == IF d = <<>> THEN <<>>
                    ELSE <<<<d[1], Len(Payload(d[1])), off>>>> \o ArgViews(Tail(d), off + Len(Payload(d[1])))
MView(c) ==
    LET m == ChunkMsg(c)
        ta == StrEnd(c, 5, Len(c))
        data == IF HasTags(c) THEN StrEnd(c, ta, Len(c)) - 1 ELSE -1
    IN  [a |-> m.a, tt |-> IF HasTags(c) THEN Typetags(m) ELSE <<-1>>, n |-> Len(m.d), size |-> Len(c) - 4, data |-> data, ptr |-> 1,
         tags |-> [i \in 1..(Len(m.d) + 1) |-> IF i <= Len(m.d) THEN TypeCode[m.d[i].t] ELSE 0],
         args |-> ArgViews(m.d, data), ok |-> 1]
LookS(s, q) ==
    LET cs == Chunks(s)
        all == [i \in 1..Len(cs) |-> i - 1]
    IN  [err |-> 0, count |-> Len(cs), time |-> SubSeq(s, 9, 16), first |-> IF cs = <<>> THEN -1 ELSE 0, cb |-> all, cberr |-> 0,
         msgs |-> [i \in 1..Len(cs) |-> MView(cs[i])], again |-> Len(cs),
         q |-> [i \in 1..Len(q) |-> QView(cs, q[i])], kept |-> 1]

(* ---- set operations, on messages with plain addresses ---- *)
HasA(cs, a) == \E i \in 1..Len(cs) : ChunkAddr(cs[i]) = a
RECURSIVE AddAbsent(_, _)
AddAbsent(out, cs) == IF cs = <<>> THEN out
                      ELSE AddAbsent(IF HasA(out, ChunkAddr(cs[1])) THEN out ELSE Append(out, cs[1]), Tail(cs))
Cs(s) == IF s = NIL THEN <<>> ELSE Chunks(s)
UnionS(x, y) == IF x = NIL \/ y = NIL THEN NIL
                ELSE IF Cs(x) = <<>> /\ Cs(y) = <<>> THEN EmptyBytes
                ELSE Join(Header(x), AddAbsent(Chunks(x), Chunks(y)))
(* where a bundle may be of no bytes at all *)
UnionW(x, y) == IF y = NIL THEN (IF x = NIL THEN EmptyBytes ELSE x) ELSE IF x = NIL THEN y ELSE UnionS(x, y)
InterS(x, y) == IF Cs(x) = <<>> \/ Cs(y) = <<>> THEN EmptyBytes
                ELSE Join(Header(x), AddAbsent(<<>>, SelectSeq(Chunks(x), LAMBDA c : HasA(Chunks(y), ChunkAddr(c)))))
DiffS(x, y) == LET only(p, q) == SelectSeq(Cs(p), LAMBDA c : ~HasA(Cs(q), ChunkAddr(c))) IN
               IF (x = NIL /\ y = NIL) \/ (x # NIL /\ y # NIL /\ Cs(x) = <<>> /\ Cs(y) = <<>>) THEN EmptyBytes
               ELSE Join(Header(IF x # NIL THEN x ELSE y), AddAbsent(AddAbsent(<<>>, only(x, y)), only(y, x)))
ConcatS(x, y) == IF x = NIL THEN y ELSE IF y = NIL THEN x ELSE Join(Header(x), Chunks(x) \o Chunks(y))

(* ---- renaming ---- *)
BadAddr(a) == Len(a) < 2 \/ a[1] # 47 \/ \E i \in 1..Len(a) : a[i] \in {32, 35}
Renamed(c, a) == LET b == PadStr(a) \o SubSeq(c, StrEnd(c, 5, Len(c)), Len(c)) IN Int4(Len(b)) \o b

(* ---- the operations ---- *)
Res(st, r) == [st |-> st, r |-> r]
SetS(st, i, s) == [st EXCEPT ![i + 1] = s]
HasMsg(st, b) == IsB(st, b) /\ Chunks(st[b + 1]) # <<>>
AppendTo(s, c) == IF s = NIL THEN EmptyBytes \o c ELSE s \o c
Enabled(st, e) ==
    CASE e.op \in {"s_copy", "s_look", "s_remove", "s_settime"} -> IsB(st, e.b)
      [] e.op \in {"s_replace", "s_rename", "s_wrap"} -> HasMsg(st, e.b)
      [] OTHER -> TRUE
Kth(st, e) == LET cs == Chunks(st[e.b + 1]) IN (e.k % Len(cs)) + 1
Do(st, e) ==
    CASE e.op = "s_load" -> Res(SetS(st, e.b, e.bytes), 0)
      [] e.op = "s_free" -> Res(SetS(st, e.b, NIL), 0)
      [] e.op = "s_empty" -> Res(SetS(st, e.b, EmptyBytes), 0)
      [] e.op = "s_copy" -> Res(SetS(st, e.to, st[e.b + 1]), 0)
      [] e.op = "s_look" -> Res(st, LookS(st[e.b + 1], e.q))
      [] e.op = "s_append" -> Res(SetS(st, e.b, AppendTo(st[e.b + 1], e.m)), 0)
      [] e.op = "s_replace" -> LET s == st[e.b + 1] cs == Chunks(s) IN
                               Res(SetS(st, e.b, Join(Header(s), [cs EXCEPT ![Kth(st, e)] = e.m])), 0)
      [] e.op = "s_remove" -> LET s == st[e.b + 1] IN
                              Res(SetS(st, e.b, Join(Header(s), SelectSeq(Chunks(s), LAMBDA c : ChunkAddr(c) # e.a))), 0)
      [] e.op = "s_rename" -> IF BadAddr(e.a) THEN Res(st, 0)
                              ELSE LET c == Renamed(Chunks(st[e.b + 1])[Kth(st, e)], e.a) IN
                                   Res(SetS(st, e.to, AppendTo(st[e.to + 1], c)), Len(c) - 4)
      [] e.op = "s_wrap" -> Res(SetS(st, e.to, EmptyBytes \o Chunks(st[e.b + 1])[Kth(st, e)]), 0)
      [] e.op = "s_settime" -> LET s == st[e.b + 1] IN Res(SetS(st, e.b, SubSeq(s, 1, 8) \o e.t \o SubSeq(s, 17, Len(s))), 0)
      [] e.op = "s_concat" -> LET s == ConcatS(st[e.x + 1], st[e.y + 1]) IN Res(SetS(st, e.to, s), IF s = NIL THEN 0 ELSE Len(s))
      [] e.op = "s_set" -> LET x == st[e.x + 1] y == st[e.y + 1] IN
                           Res(SetS(st, e.to, CASE e.what = "union" -> (IF e.pre = 1 THEN UnionW(x, y) ELSE UnionS(x, y)) [] e.what = "inter" -> InterS(x, y) [] OTHER -> DiffS(x, y)), 0)
Apply(st, e) == IF Enabled(st, e) THEN Do(st, e) ELSE Res(st, -9)

(* ---- the sanity checks: framing of raw bytes ---- *)
ErrNone == 0
RECURSIVE Framing(_, _, _)
(* what is wrong with the messages in s[i..]; n counts them *)
Framing(s, i, n) ==
    IF i > Len(s) THEN <<"ok", n>>
    ELSE IF i + 3 > Len(s) THEN <<"large", n>>
    ELSE IF s[i] >= 128 THEN <<"small", n>>                    \* a negative size
    ELSE IF i + 3 + B4(s, i) > Len(s) THEN <<"large", n>>
    ELSE IF B4(s, i) < 4 THEN <<"small", n>>
    ELSE IF s[i + 4] # 47 THEN <<"address", n>>
    ELSE Framing(s, i + 4 + B4(s, i), n + 1)
Checked(s) == IF Len(s) < HDR THEN <<"short", 0>>
              ELSE IF SubSeq(s, 1, 8) # HASHBUNDLE THEN <<"id", 0>>
              ELSE Framing(s, HDR + 1, 0)
=============================================================================
