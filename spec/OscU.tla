-------------------------------- MODULE OscU --------------------------------
(* Unserialised messages and bundles: four message slots M and four bundle     *)
(* slots B, and what every public operation does to them.  Apply(st, e) gives  *)
(* the state after operation e and the value it reports.                       *)
EXTENDS Osc
MM == INSTANCE Match

St0 == [M |-> [i \in 1..4 |-> NilMsg], B |-> [i \in 1..4 |-> NilBndl]]
IsNil(m) == m = NilMsg

HasB(st, i) == st.B[i + 1] # NilBndl
HasM(st, i) == st.M[i + 1] # NilMsg
(* a message reference: <<slot>> or <<bundle slot, position>>; positions count modulo the length *)
RefOk(st, r) == IF Len(r) = 1 THEN HasM(st, r[1]) ELSE HasB(st, r[1]) /\ st.B[r[1] + 1] # <<>>
RefPos(st, r) == (r[2] % Len(st.B[r[1] + 1])) + 1
GetRef(st, r) == IF Len(r) = 1 THEN st.M[r[1] + 1] ELSE st.B[r[1] + 1][RefPos(st, r)]
SetRef(st, r, m) == IF Len(r) = 1 THEN [st EXCEPT !.M[r[1] + 1] = m] ELSE [st EXCEPT !.B[r[1] + 1][RefPos(st, r)] = m]
SetM(st, i, m) == [st EXCEPT !.M[i + 1] = m]
SetB(st, i, b) == [st EXCEPT !.B[i + 1] = b]

Put(d, x, w, pos) == CASE w = "a" -> Append(d, x)
                       [] w = "p" -> <<x>> \o d
                       [] OTHER -> IF pos >= Len(d) THEN Append(d, x) ELSE InsertAt(d, pos + 1, x)
Without(d, k) == RemoveAt(d, k + 1)

SameAddr(m, a) == a # NULLADDR /\ m.a = a
RemoveAddr(b, a) == SelectSeq(b, LAMBDA m : ~SameAddr(m, a))
AddNoDup(b, m) == Append(RemoveAddr(b, m.a), m)
Replace(b, m) == LET w == {i \in 1..Len(b) : SameAddr(b[i], m.a)} IN
                 IF w = {} THEN Append(b, m)
                 ELSE [b EXCEPT ![CHOOSE i \in w : \A k \in w : i <= k] = m]

(* ---- looking messages up: the given address is the pattern ---- *)
Found(q, m, full) == /\ m.a # NULLADDR
                     /\ LET r == MM!Expected(q, m.a)[1] IN IF full = 1 THEN r = 3 ELSE r > 0
Lookup(b, q, full) == SelectSeq(b, LAMBDA m : Found(q, m, full))
Exists(b, q, full) == IF Lookup(b, q, full) # <<>> THEN 1 ELSE 0
Bound(b, q, full) == LET x == Lookup(b, q, full) IN IF x # <<>> /\ x[1].d # <<>> THEN 1 ELSE 0

(* ---- set operations ---- *)
RECURSIVE AddAbsent(_, _)
AddAbsent(out, b) == IF b = <<>> THEN out
                     ELSE AddAbsent(IF \E i \in 1..Len(out) : SameAddr(out[i], b[1].a) THEN out ELSE Append(out, b[1]), Tail(b))
Union(x, y) == AddAbsent(AddAbsent(<<>>, x), y)
Has(b, a) == \E i \in 1..Len(b) : SameAddr(b[i], a)
Intersection(x, y) == AddAbsent(<<>>, SelectSeq(x, LAMBDA m : Has(y, m.a)))

(* ---- flatten ---- *)
IsBndl(x) == x.t = "."
RECURSIVE Flat(_, _, _, _, _, _, _), FlatArgs(_, _, _, _, _, _, _)
Flat(out, b, max, level, pfx, sep, rm) ==
    IF b = <<>> THEN out
    ELSE LET m == b[1]
             name == IF pfx = NULLADDR THEN m.a ELSE pfx \o sep \o m.a
             deep == level < max \/ max <= 0
             o1 == IF deep THEN FlatArgs(out, SelectSeq(m.d, IsBndl), max, level, name, sep, rm) ELSE out
             rest == IF deep THEN SelectSeq(m.d, LAMBDA x : ~IsBndl(x)) ELSE m.d
             o2 == IF rm = 0 \/ rest # <<>> THEN AddNoDup(o1, [a |-> name, d |-> rest]) ELSE o1
         IN  Flat(o2, Tail(b), max, level, pfx, sep, rm)
FlatArgs(out, xs, max, level, name, sep, rm) ==
    IF xs = <<>> THEN out
    ELSE FlatArgs(Flat(out, Parse(xs[1].v), max, level + 1, name, sep, rm), Tail(xs), max, level, name, sep, rm)
Flatten(b, max, sep, rm) == Flat(<<>>, b, max, 0, NULLADDR, sep, rm)

(* ---- explode ---- *)
(* end of the leading component of a: the separator found after its first character(s) *)
RECURSIVE CompEnd(_, _, _)
CompEnd(a, i, s) == IF i >= Len(a) THEN Len(a) ELSE IF a[i + 1] = s THEN i ELSE CompEnd(a, i + 1, s)
Comp1(a, s) == LET i == IF a[1] = s THEN 1 ELSE 0 IN IF i < Len(a) THEN CompEnd(a, i + 1, s) ELSE Len(a)
(* the rest after the component; a separator other than '/' is dropped *)
RestOf(a, k, s) == LET r == SubSeq(a, k + 1, Len(a)) IN
                   IF s = 47 THEN r
                   ELSE IF Len(r) > 1 /\ r[2] = 47 THEN Tail(r) ELSE <<47>> \o Tail(r)
RECURSIVE ExplodeMsg(_, _, _, _, _)
ExplodeMsg(dest, m, level, max, s) ==
    IF level >= max /\ max >= 0 THEN Append(dest, m)
    ELSE LET k == Comp1(m.a, s)
             a1 == SubSeq(m.a, 1, k)
             at == {i \in 1..Len(dest) : dest[i].a = a1}
         IN  IF k = Len(m.a) THEN (IF at = {} THEN Append(dest, m) ELSE AddNoDup(dest, m))
             ELSE LET old == IF at = {} THEN <<>>
                             ELSE LET h == dest[CHOOSE i \in at : \A j \in at : i <= j] IN
                                  IF Len(h.d) = 1 /\ IsBndl(h.d[1]) THEN Parse(h.d[1].v) ELSE <<>>
                      new == ExplodeMsg(old, [m EXCEPT !.a = RestOf(m.a, k, s)], level + 1, max, s)
                  IN  AddNoDup(dest, [a |-> a1, d |-> <<[t |-> ".", v |-> Ser(new)]>>])
RECURSIVE ExplodeAll(_, _, _, _)
ExplodeAll(dest, b, max, s) == IF b = <<>> THEN dest ELSE ExplodeAll(ExplodeMsg(dest, b[1], 0, max, s), Tail(b), max, s)
Explode(b, max, sep) == ExplodeAll(<<>>, b, max, IF sep = <<>> THEN 47 ELSE sep[1])

(* ---- negation in place (numbers only; the sign bit of floats, two's complement of integers) ---- *)
RECURSIVE Neg(_, _, _)
Neg(v, k, carry) == IF k = 0 THEN v
                    ELSE LET x == 255 - v[k] + carry IN Neg([v EXCEPT ![k] = x % 256], k - 1, IF x > 255 THEN 1 ELSE 0)
Ext(v, from) == LET f == IF v[from] > 127 THEN 255 ELSE 0 IN [i \in 1..4 |-> IF i < from THEN f ELSE v[i]]
Negated(x) == CASE x.t = "i" \/ x.t = "h" -> [x EXCEPT !.v = Neg(x.v, Len(x.v), 1)]
                [] x.t = "c" \/ x.t = "C" -> [t |-> "c", v |-> Ext(Neg(x.v, 4, 1), 4)]
                [] x.t = "u" \/ x.t = "U" -> [t |-> "u", v |-> Ext(Neg(x.v, 4, 1), 3)]
                [] x.t = "I" -> [t |-> "i", v |-> Neg(x.v, 4, 1)]
                [] x.t = "H" -> [t |-> "h", v |-> Neg(x.v, 8, 1)]
                [] x.t = "f" \/ x.t = "d" -> [x EXCEPT !.v[1] = (@ + 128) % 256]
                [] OTHER -> x

(* ---- the operations ---- *)
Addrs(b) == [i \in 1..Len(b) |-> b[i].a]
Ones(n) == [i \in 1..n |-> 1]
LookM(m) == [argc |-> Len(m.d), args |-> m.d, past |-> 0, it |-> Ones(Len(m.d)), more |-> 0,
             size |-> Len(SerMsg(m)), bytes |-> SerMsg(m)]
AtomView(x) == [n |-> Len(Payload(x)), w |-> Len(Payload(x)), ok |-> 1, b |-> Payload(x), cp |-> x, s |-> x, back |-> x]
QueryView(b, q) == [full |-> <<Exists(b, q, 1), Bound(b, q, 1)>>, lf |-> Lookup(b, q, 1),
                    part |-> <<Exists(b, q, 0), Bound(b, q, 0)>>, lp |-> Lookup(b, q, 0),
                    ff |-> LET x == Lookup(b, q, 1) IN IF x = <<>> THEN NilMsg ELSE x[1]]
LookB(b, q) == [count |-> Len(b), first |-> IF b = <<>> THEN <<-2>> ELSE b[1].a, cb |-> Addrs(b), it |-> Addrs(b), more |-> 0,
                next |-> Addrs(b), q |-> [i \in 1..Len(q) |-> QueryView(b, q[i])]]
SerView(b) == LET s == Ser(b) IN [n |-> Len(s), len |-> Len(s), bytes |-> s, ok |-> 1, full |-> 1]

Res(st, r) == [st |-> st, r |-> r]
NoAddr(b) == \E i \in 1..Len(b) : b[i].a = NULLADDR

(* operations on something that is not there are not performed *)
Enabled(st, e) ==
    CASE e.op \in {"m_setaddr", "m_add", "m_clear", "m_dup", "m_look", "m_atoms"} -> RefOk(st, e.r)
      [] e.op \in {"m_rm", "m_set", "m_neg"} -> RefOk(st, e.r) /\ GetRef(st, e.r).d # <<>>
      [] e.op = "m_move" -> RefOk(st, e.r) /\ RefOk(st, e.to) /\ GetRef(st, e.r).d # <<>>
      [] e.op = "m_args" -> RefOk(st, e.r) /\ RefOk(st, e.to)
      [] e.op = "b_add" -> HasB(st, e.b) /\ HasM(st, e.m)
      [] e.op = "b_list" -> HasB(st, e.b) /\ e.ms # <<>> /\ \A k \in 1..Len(e.ms) : HasM(st, e.ms[k])
      [] e.op = "b_take" -> HasB(st, e.b) /\ st.B[e.b + 1] # <<>>
      [] e.op \in {"b_rmaddr", "b_clear", "b_copy", "b_ser", "b_look"} -> HasB(st, e.b)
      [] e.op \in {"b_union", "b_inter"} -> HasB(st, e.x) /\ HasB(st, e.y)
      [] e.op \in {"b_flatten", "b_explode", "b_fx_s"} -> HasB(st, e.b) /\ ~NoAddr(st.B[e.b + 1])
      [] OTHER -> TRUE

Do(st, e) ==
    CASE e.op = "m_new" -> Res(SetM(st, e.m, [a |-> e.a, d |-> <<>>]), 0)
      [] e.op = "m_with" -> Res(SetM(st, e.m, [a |-> e.a, d |-> <<e.v>>]), 0)
      [] e.op = "m_setaddr" ->
            IF e.a # NULLADDR /\ (e.a = <<>> \/ e.a[1] # 47) THEN Res(st, 1)
            ELSE Res(SetRef(st, e.r, [GetRef(st, e.r) EXCEPT !.a = e.a]), 0)
      [] e.op = "m_add" -> LET m == GetRef(st, e.r) IN Res(SetRef(st, e.r, [m EXCEPT !.d = Put(@, NormAtom(e.v), e.w, e.pos)]), 1)
      [] e.op = "m_rm" -> LET m == GetRef(st, e.r) IN Res(SetRef(st, e.r, [m EXCEPT !.d = Without(@, e.k % Len(@))]), Len(m.d) - 1)
      [] e.op = "m_move" ->
            LET m == GetRef(st, e.r)
                s1 == SetRef(st, e.r, [m EXCEPT !.d = Without(@, e.k % Len(@))])
                t == GetRef(s1, e.to)
            IN  Res(SetRef(s1, e.to, [t EXCEPT !.d = Put(@, m.d[(e.k % Len(m.d)) + 1], e.w, e.pos)]), Len(t.d) + 1)
      [] e.op = "m_set" -> LET m == GetRef(st, e.r) IN Res(SetRef(st, e.r, [m EXCEPT !.d[(e.k % Len(m.d)) + 1] = NormAtom(e.v)]), 0)
      [] e.op = "m_neg" -> LET m == GetRef(st, e.r) IN Res(SetRef(st, e.r, [m EXCEPT !.d[(e.k % Len(m.d)) + 1] = Negated(@)]), 0)
      [] e.op = "m_clear" -> Res(SetRef(st, e.r, [GetRef(st, e.r) EXCEPT !.d = <<>>]), 0)
      [] e.op = "m_dup" -> Res(SetM(st, e.to, GetRef(st, e.r)), 0)
      [] e.op = "m_args" -> LET m == GetRef(st, e.r) t == GetRef(st, e.to) IN
                            Res(SetRef(st, e.to, [t EXCEPT !.d = @ \o m.d]), Len(m.d))
      [] e.op = "m_free" -> Res(SetM(st, e.m, NilMsg), 0)
      [] e.op = "m_look" -> Res(st, LookM(GetRef(st, e.r)))
      [] e.op = "m_atoms" -> LET d == GetRef(st, e.r).d IN Res(st, [i \in 1..Len(d) |-> AtomView(d[i])])
      [] e.op = "b_new" -> Res(SetB(st, e.b, <<>>), 0)
      [] e.op = "b_add" ->
            LET b == st.B[e.b + 1]
                m == st.M[e.m + 1]
                nb == CASE e.how \in {"nodup", "nodupcopy"} -> AddNoDup(b, m)
                        [] e.how = "replace" -> Replace(b, m)
                        [] OTHER -> Append(b, m)
                s1 == SetB(st, e.b, nb)
            IN  Res(IF e.how \in {"add", "nodup", "replace"} THEN SetM(s1, e.m, NilMsg) ELSE s1, 0)
      [] e.op = "b_list" ->
            Res([M |-> [i \in 1..4 |-> IF \E k \in 1..Len(e.ms) : e.ms[k] + 1 = i THEN NilMsg ELSE st.M[i]],
                 B |-> [st.B EXCEPT ![e.b + 1] = @ \o [k \in 1..Len(e.ms) |-> st.M[e.ms[k] + 1]]]], 0)
      [] e.op = "b_take" -> LET b == st.B[e.b + 1] IN Res(SetM(SetB(st, e.b, Without(b, e.k % Len(b))), e.to, b[(e.k % Len(b)) + 1]), Len(b) - 1)
      [] e.op = "b_rmaddr" -> LET b == RemoveAddr(st.B[e.b + 1], e.a) IN Res(SetB(st, e.b, b), Len(b))
      [] e.op = "b_clear" -> Res(SetB(st, e.b, <<>>), 0)
      [] e.op = "b_free" -> Res(SetB(st, e.b, NilBndl), 0)
      [] e.op = "b_copy" -> Res(SetB(st, e.to, SelectSeq(st.B[e.b + 1], LAMBDA m : m.a # NULLADDR)), 0)
      [] e.op = "b_des" -> Res(SetB(st, e.b, NormBndl(Parse(e.bytes))), 0)
      [] e.op = "b_ser" -> Res(st, SerView(st.B[e.b + 1]))
      [] e.op = "b_look" -> Res(st, LookB(st.B[e.b + 1], e.q))
      [] e.op = "b_union" -> Res(SetB(st, e.to, Union(st.B[e.x + 1], st.B[e.y + 1])), 0)
      [] e.op = "b_inter" -> Res(SetB(st, e.to, Intersection(st.B[e.x + 1], st.B[e.y + 1])), 0)
      [] e.op = "b_flatten" -> Res(SetB(st, e.to, Flatten(st.B[e.b + 1], e.max, e.sep, e.rm)), 0)
      [] e.op = "b_explode" -> Res(SetB(st, e.to, Explode(st.B[e.b + 1], e.max, e.sep)), 0)
      [] e.op = "b_fx_s" -> Res(SetB(st, e.to, IF e.what = "flatten" THEN Flatten(st.B[e.b + 1], e.max, e.sep, e.rm)
                                               ELSE Explode(st.B[e.b + 1], e.max, e.sep)), 0)
Apply(st, e) == IF Enabled(st, e) THEN Do(st, e) ELSE Res(st, -9)
=============================================================================
