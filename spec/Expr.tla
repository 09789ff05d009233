-------------------------------- MODULE Expr --------------------------------
(* Evaluating expressions: the tree of ExprSyn over a bundle.                  *)
(* State st = [b bundle, t time tag]; lx gives the arguments bound to the       *)
(* parameters of the functions being applied; a result is [k, o, st]: "ok" with *)
(* a list, "err", or "any" where the outcome is not laid down.                  *)
EXTENDS ExprVal
LOCAL S == INSTANCE ExprSyn
LOCAL O == INSTANCE OscU

Res(k, o, st) == [k |-> k, o |-> o, st |-> st]
Good(o, st) == Res("ok", o, st)
Bad(st) == Res("err", <<>>, st)
AnyR(st) == Res("any", <<>>, st)
At1(r, st) == Res(r.k, r.o, st)
StrA(b) == [t |-> "s", v |-> b]
BndA(b) == [t |-> ".", v |-> O!Ser(b)]
IntA(n) == AtomOf("i", IntV(n))
NoLx == [x \in {} |-> <<>>]
Bound(lx, x) == x.t = "s" /\ x.v \in DOMAIN lx
ValidAddr(a) == Len(a) >= 2 /\ a[1] = 47 /\ \A i \in DOMAIN a : a[i] \notin {32, 35}
Plain(a) == \A i \in DOMAIN a : a[i] \notin {42, 63, 91, 123}
(* the messages address a names: by pattern *)
Look(b, a) == O!Lookup(b, a, 1)
FirstEq(b, a) == LET w == {i \in DOMAIN b : b[i].a = a} IN IF w = {} THEN 0 ELSE Min(w)
Store(b, a, d) == LET i == FirstEq(b, a) IN IF i = 0 THEN Append(b, [a |-> a, d |-> d]) ELSE [b EXCEPT ![i].d = d]
InSt(st, a, d) == [st EXCEPT !.b = Store(st.b, a, d)]
Inner(x) == O!Parse(x.v)
IndexesOf(l) == [i \in 1..Len(l) |-> CountOf(l[i])]

RECURSIVE Ev(_, _, _), EvAll(_, _, _, _), Apply(_, _, _, _), Bodies(_, _, _, _), MapOver(_, _, _, _, _, _, _), Fold(_, _, _, _, _, _), Seq1(_, _, _, _)
(* arguments from the left; the first that fails decides *)
EvAll(ns, lx, st, acc) ==
    IF ns = <<>> THEN [k |-> "ok", ls |-> acc, st |-> st]
    ELSE LET r == Ev(ns[1], lx, st) IN
         IF r.k = "ok" THEN EvAll(Tail(ns), lx, r.st, Append(acc, r.o)) ELSE [k |-> r.k, ls |-> acc, st |-> r.st]
Lit1(x) == S!Lit(x)
(* the first argument of an assignment names its target: [k, a, st] *)
Target(n, lx, st) ==
    IF n.k = "addr" THEN [k |-> "ok", a |-> n.x.v, st |-> st]
    ELSE LET inner == n.k = "call" /\ n.s = "value" /\ n.a[1].k = "addr"
             r0 == IF inner THEN Ev(n.a[1], lx, st) ELSE Ev(n, lx, st)
         IN  IF r0.k # "ok" THEN [k |-> r0.k, a |-> <<>>, st |-> r0.st]
             ELSE IF r0.o = <<>> THEN [k |-> "any", a |-> <<>>, st |-> r0.st]
             ELSE IF r0.o[1].t # "s" THEN [k |-> "err", a |-> <<>>, st |-> r0.st]
             ELSE [k |-> "ok", a |-> r0.o[1].v, st |-> r0.st]
Assign(tn, vn, lx, st) ==
    LET t == Target(tn, lx, st) IN
    IF t.k # "ok" THEN Res(t.k, <<>>, t.st)
    ELSE IF ~ValidAddr(t.a) THEN Bad(t.st)
    ELSE LET r == Ev(vn, lx, t.st) IN
         IF r.k # "ok" THEN r
         ELSE IF \E i \in DOMAIN r.o : r.o[i].t = "r" THEN Bad(r.st)   \* a function is no value a bundle can hold
         ELSE Good(r.o, InSt(r.st, t.a, r.o))
(* one value per index; a lone value goes to every index, a lone index takes the first value; indexes outside the list are passed over *)
Poke(l, ix, d) ==
    LET n == IF Len(ix) = 1 THEN 1 ELSE IF Len(d) = 1 THEN Len(ix) ELSE IF Len(ix) < Len(d) THEN Len(ix) ELSE Len(d)
        put(m, i) == LET p == ix[i].n + 1 IN IF p \in DOMAIN m THEN [m EXCEPT ![p] = IF Len(d) = 1 THEN d[1] ELSE d[i]] ELSE m
    IN  FoldLeft(put, l, [i \in 1..n |-> i])
AssignIdx(a, lx, st) ==
    IF a[1].k # "addr" THEN AnyR(st)
    ELSE LET r == Ev(a[1], lx, st) IN
         IF r.k # "ok" THEN r
         ELSE LET q == EvAll(Tail(a), lx, r.st, <<>>)
                  ix == IndexesOf(q.ls[1])
                  d == q.ls[2]
              IN  IF q.k # "ok" THEN Res(q.k, <<>>, q.st)
                  ELSE IF ix = <<>> \/ d = <<>> \/ \E i \in DOMAIN d : d[i].t = "r" THEN Bad(q.st)
                  ELSE IF \E i \in DOMAIN ix : ~ix[i].ok THEN AnyR(st)
                  ELSE IF Len(ix) = 1 /\ Len(d) > 1 /\ ix[1].n \notin 0..(Len(r.o) - 1) THEN Bad(q.st)
                  ELSE IF r.st.b # q.st.b THEN AnyR(st)
                  ELSE LET o == Poke(r.o, ix, d) IN
                       IF \E i \in DOMAIN o : o[i].t = "r" THEN AnyR(st)
                       ELSE Good(o, InSt(q.st, Look(st.b, a[1].x.v)[1].a, o))
(* bound() and exists(): the address asked about *)
Ask(n, lx, st, data) ==
    LET say(b, s2) == Good(Truth(b).o, s2)
        about(a, s2) == LET m == Look(s2.b, a) IN say(m # <<>> /\ (data => m[1].d # <<>>), s2)
    IN  CASE n.k = "addr" -> about(n.x.v, st)
          [] n.k = "lit" -> IF n.x.t # "s" THEN Bad(st)
                            ELSE IF ~Bound(lx, n.x) THEN about(n.x.v, st)
                            ELSE LET l == lx[n.x.v] IN IF l = <<>> \/ l[1].t = "r" THEN AnyR(st) ELSE IF l[1].t # "s" THEN Bad(st) ELSE about(l[1].v, st)
          [] n.k = "call" /\ n.s \in {"getbundlemember", "."} ->
                LET r == Ev(n, lx, st) IN CASE r.k = "any" -> r [] r.k = "err" -> say(FALSE, r.st) [] OTHER -> say(~data \/ r.o # <<>>, r.st)
          [] n.k = "call" -> LET r == Ev(n, lx, st) IN
                             IF r.k = "any" THEN r
                             ELSE IF r.k = "err" \/ Len(r.o) # 1 THEN Bad(r.st)
                             ELSE IF r.o[1].t # "s" THEN Bad(r.st)
                             ELSE IF r.o[1].v = <<>> THEN AnyR(st) ELSE IF r.o[1].v[1] # 47 THEN Bad(r.st) ELSE about(r.o[1].v, r.st)
          [] OTHER -> Bad(st)
(* the nested bundle a list of arguments stands for: [k, b] *)
Nested(l, st) == IF l = <<>> THEN [k |-> "any", b |-> <<>>]
                 ELSE CASE l[1].t = "." -> [k |-> "ok", b |-> Inner(l[1])]
                        [] l[1].t = "s" -> LET m == Look(st.b, l[1].v) IN
                                           IF m = <<>> THEN [k |-> "err", b |-> <<>>]
                                           ELSE IF m[1].d = <<>> \/ m[1].d[1].t # "." THEN [k |-> "any", b |-> <<>>]
                                           ELSE [k |-> "ok", b |-> Inner(m[1].d[1])]
                        [] OTHER -> [k |-> "err", b |-> <<>>]
(* the member an expression names: [k, a, st] *)
Member(n, lx, st) == IF n.k = "fn" \/ (n.k = "call" /\ n.s = "value" /\ n.a[1].k # "addr") THEN [k |-> "any", a |-> <<>>, st |-> st]
                     ELSE LET t == Target(n, lx, st) IN IF t.k = "ok" /\ t.a = <<>> THEN [t EXCEPT !.k = "any"] ELSE t
GetMember(a, lx, st) ==
    LET r == Ev(a[1], lx, st) IN
    IF r.k # "ok" THEN r
    ELSE LET q == Nested(r.o, r.st) IN
         IF q.k # "ok" THEN Res(q.k, <<>>, r.st)
         ELSE LET m == Member(a[2], lx, r.st) IN
              IF m.k # "ok" THEN Res(m.k, <<>>, m.st)
              ELSE LET x == Look(q.b, m.a) IN IF x = <<>> THEN Bad(m.st) ELSE Good(x[1].d, m.st)
(* only targets written as addresses, and members of lists of bundles *)
SetMember(a, lx, st) ==
    LET indexed == a[1].k = "call" /\ a[1].s = "nth" /\ Len(a[1].a) = 2 /\ a[1].a[1].k = "addr"
        r == Ev(a[1], lx, st)
        fresh == r.k = "err" /\ a[1].k = "addr"
        st1 == IF fresh THEN InSt(r.st, a[1].x.v, <<BndA(<<>>)>>) ELSE r.st
        l == IF fresh THEN <<BndA(<<>>)>> ELSE r.o
        tgt == IF indexed THEN a[1].a[1].x.v ELSE a[1].x.v
        name == IF a[2].k \in {"addr", "lit"} THEN a[2].x.v ELSE <<>>
    IN  IF ~(a[1].k = "addr" \/ indexed) \/ a[2].k \notin {"addr", "lit"} \/ (a[2].k = "lit" /\ (a[2].x.t # "s" \/ Bound(lx, a[2].x) \/ ~ValidAddr(name))) THEN AnyR(st)
        ELSE IF r.k = "any" \/ (r.k = "err" /\ ~fresh) THEN r
        ELSE IF l = <<>> THEN AnyR(st)
        ELSE IF l[1].t = "s" THEN AnyR(st)
        ELSE IF l[1].t # "." THEN Bad(st1)
        ELSE LET v == Ev(a[3], lx, st1)
                 b2 == BndA(Store(Inner(l[1]), name, v.o))
             IN  IF v.k # "ok" THEN (IF fresh THEN AnyR(st) ELSE v)
                 ELSE IF Look(v.st.b, tgt) # Look(st1.b, tgt) \/ (fresh /\ a[2].k # "addr") \/ (Len(v.o) = 1 /\ Bound(lx, v.o[1])) \/ \E i \in DOMAIN v.o : v.o[i].t = "r" \/ Vague(v.o[i]) THEN AnyR(st)
                 ELSE IF indexed THEN AssignIdx(<<a[1].a[1], a[1].a[2], Lit1(b2)>>, lx, v.st)
                 ELSE LET o == <<b2>> \o Tail(l) IN Good(o, InSt(v.st, a[1].x.v, o))
(* statements one after the other, until one fails *)
Run(ss, st) == Seq1(ss, NoLx, st, <<>>)
Seq1(ss, lx, st, last) == IF ss = <<>> THEN Good(last, st)
                          ELSE LET r == Ev(ss[1], lx, st) IN IF r.k = "ok" THEN Seq1(Tail(ss), lx, r.st, r.o) ELSE r
(* a function f (a tree) of arguments given as trees *)
Bodies(f, vs, lx, st) == LET lx2 == [p \in {f.p[i] : i \in DOMAIN f.p} \union DOMAIN lx |->
                                        IF \E i \in DOMAIN f.p : f.p[i] = p THEN vs[Max({i \in DOMAIN f.p : f.p[i] = p})] ELSE lx[p]]
                         IN  Seq1(f.a, lx2, st, <<>>)
ApplyName(name, as, lx, st) == \* a function by its name
    LET s == S!Str(name) IN
    IF s \in S!Elsewhere THEN AnyR(st)
    ELSE IF S!Known(s) THEN (IF S!ArityOk(s, Len(as)) THEN Ev(S!Call(s, as), lx, st) ELSE AnyR(st))
    ELSE Bad(st)
Apply(f, as, lx, st) ==
    CASE f.k = "fn" -> IF Len(as) # Len(f.p) \/ Cardinality({f.p[i] : i \in DOMAIN f.p}) # Len(f.p) THEN AnyR(st)
                       ELSE LET q == EvAll(as, lx, st, <<>>) IN IF q.k # "ok" THEN Res(q.k, <<>>, q.st) ELSE Bodies(f, q.ls, lx, q.st)
      [] f.k = "lit" -> IF f.x.t # "s" THEN Bad(st)
                        ELSE IF Bound(lx, f.x)
                        THEN (IF S!Known(S!Str(f.x.v)) \/ S!Str(f.x.v) \in S!Elsewhere THEN AnyR(st)
                              ELSE LET l == lx[f.x.v] IN
                                   IF Len(l) # 1 THEN AnyR(st)
                                   ELSE IF l[1].t = "r" THEN Apply(l[1].v, as, lx, st)
                                   ELSE AnyR(st))
                        ELSE ApplyName(f.x.v, as, lx, st)
      [] OTHER -> LET r == Ev(f, lx, st) IN
                  IF r.k # "ok" THEN r
                  ELSE IF Len(r.o) # 1 THEN Bad(r.st)
                  ELSE IF r.o[1].t = "r" THEN AnyR(st)
                  ELSE IF r.o[1].t # "s" THEN Bad(r.st)
                  ELSE IF S!Known(S!Str(r.o[1].v)) \/ S!Str(r.o[1].v) \in S!Elsewhere THEN ApplyName(r.o[1].v, as, lx, r.st)
                  ELSE LET g == S!FnText(r.o[1].v) IN
                       CASE g.ok = "y" -> Apply(g.n, as, lx, r.st)
                         [] g.ok = "n" -> Bad(r.st)
                         [] OTHER -> AnyR(st)
(* an element handed to a function must not be taken for a parameter *)
Capture(lx, x) == Bound(lx, x)
MapOver(f, ls, i, n, lx, st, acc) ==
    IF i > n THEN Good(acc, st)
    ELSE IF \E j \in DOMAIN ls : Capture(lx, ls[j][i]) \/ ls[j][i].t = "r" THEN AnyR(st)
    ELSE LET r == Apply(f, [j \in 1..Len(ls) |-> Lit1(ls[j][i])], lx, st) IN
         IF r.k # "ok" THEN r ELSE MapOver(f, ls, i + 1, n, lx, r.st, acc \o r.o)
(* g: the elements still to come; left: the accumulated value is the first argument *)
Fold(f, acc, g, left, lx, st) ==
    IF g = <<>> THEN Good(acc, st)
    ELSE IF acc = <<>> THEN Bad(st)
    ELSE IF Len(acc) > 1 THEN AnyR(st)
    ELSE IF Capture(lx, acc[1]) \/ Capture(lx, g[1]) \/ acc[1].t = "r" \/ g[1].t = "r" THEN AnyR(st)
    ELSE LET r == Apply(f, IF left THEN <<Lit1(acc[1]), Lit1(g[1])>> ELSE <<Lit1(g[1]), Lit1(acc[1])>>, lx, st) IN
         IF r.k # "ok" THEN r ELSE Fold(f, r.o, Tail(g), left, lx, r.st)
Reduce(left, a, lx, st) ==
    LET q == EvAll(Tail(a), lx, st, <<>>) IN
    IF q.k # "ok" THEN Res(q.k, <<>>, q.st)
    ELSE LET l == IF left THEN q.ls[1] ELSE Reversed(q.ls[1]) IN
         IF Len(q.ls) = 2 THEN (IF q.ls[2] = <<>> \/ (l = <<>> /\ Len(q.ls[2]) > 1) THEN AnyR(st) ELSE Fold(a[1], SubSeq(q.ls[2], 1, 1), l, left, lx, q.st))
         ELSE IF l = <<>> THEN AnyR(st)
         ELSE Fold(a[1], <<l[1]>>, Tail(l), left, lx, q.st)
Shortcut(stop, a, lx, st) ==
    LET r == Ev(a[1], lx, st) IN
    IF r.k # "ok" THEN r
    ELSE IF r.o = <<>> THEN AnyR(st)
    ELSE IF r.o[1].t = "?" THEN AnyR(st)
    ELSE IF r.o[1].t \notin {"T", "F"} THEN Bad(r.st)
    ELSE IF r.o[1].t = stop THEN Good(<<r.o[1]>>, r.st)
    ELSE LET q == Ev(a[2], lx, r.st) IN
         IF q.k # "ok" THEN q
         ELSE IF q.o = <<>> THEN AnyR(st)
         ELSE IF q.o[1].t \notin {"T", "F"} THEN Bad(q.st) ELSE Good(<<q.o[1]>>, q.st)
(* the text a list of values stands for: their texts with a space between *)
TextFrom(o) == IF o = <<>> \/ \E i \in DOMAIN o : o[i].t \notin {"s", "u", "U", "i", "I", "h", "H"} THEN [k |-> "any", v |-> <<>>]
               ELSE [k |-> "ok", v |-> Glue([i \in 1..Len(o) |-> TextOf(o[i])], <<32>>)]
RECURSIVE FramingOk(_, _)
BytesOf(l) == [i \in 1..((Len(l) + 3) \div 4) * 4 |-> IF i <= Len(l) THEN LowByte(l[i]) ELSE 0]
(* a blob, or whole numbers as its bytes, that holds a bundle *)
FramingOk(v, i) == IF i > Len(v) THEN TRUE
                   ELSE IF i + 3 > Len(v) THEN FALSE
                   ELSE LET n == DecodeI(TRUE, SubSeq(v, i, i + 3)) IN
                        IF n.neg \/ NBits(Mag(n)) > 24 THEN FALSE
                        ELSE LET k == ToTlc(n) IN k >= 4 /\ i + 3 + k <= Len(v) /\ v[i + 4] = 47 /\ FramingOk(v, i + 4 + k)
Framed(v) == IF Len(v) < 16 THEN FALSE
             ELSE SubSeq(v, 1, 8) = <<35, 98, 117, 110, 100, 108, 101, 0>> /\ FramingOk(v, 17)
FromBytes(l) ==
    LET blob == Len(l) = 1
        v == IF blob THEN l[1].v ELSE BytesOf(l)
    IN  IF blob /\ l[1].t # "b" THEN E
        ELSE IF ~blob /\ (Len(l) > 4000 \/ \E i \in DOMAIN l : l[i].t \notin IntTypes) THEN A
        ELSE IF ~Framed(v) THEN E
        ELSE LET b == O!Parse(v) IN IF O!Ser(b) = SubSeq(v, 1, 8) \o <<0, 0, 0, 0, 0, 0, 0, 0>> \o SubSeq(v, 17, Len(v)) THEN R(<<BndA(b)>>) ELSE A
BundleOf(ls) ==
    IF Len(ls) = 0 THEN R(<<BndA(<<>>)>>)
    ELSE IF Len(ls) = 1 THEN (IF Len(ls[1]) = 1 /\ ls[1][1].t = "s" THEN R(<<BndA(<<[a |-> ls[1][1].v, d |-> <<>>]>>)>>) ELSE FromBytes(ls[1]))
    ELSE LET names == {i \in DOMAIN ls : i % 2 = 1} IN
         IF \E i \in names : ls[i] = <<>> THEN A
         ELSE IF \E i \in names : ls[i][1].t # "s" THEN E
         ELSE R(<<BndA([j \in 1..Cardinality(names) |-> [a |-> ls[2 * j - 1][1].v, d |-> IF 2 * j <= Len(ls) THEN ls[2 * j] ELSE <<>>]])>>)
Ev(n, lx, st) ==
    LET a == n.a
        one(f(_, _)) == LET r == Ev(a[1], lx, st) IN IF r.k = "ok" THEN f(r.o, r.st) ELSE r
    IN
    CASE n.k = "lit" -> Good(IF Bound(lx, n.x) THEN lx[n.x.v] ELSE <<n.x>>, st)
      [] n.k = "addr" -> LET m == Look(st.b, n.x.v) IN IF m = <<>> THEN Bad(st) ELSE Good(m[1].d, st)
      [] n.k = "fn" -> Good(<<[t |-> "r", v |-> n]>>, st)
      [] n.s \in {"assign", "="} -> Assign(a[1], a[2], lx, st)
      [] n.s = "assign_to_index" -> AssignIdx(a, lx, st)
      [] n.s = "if" -> one(LAMBDA o, s2 : IF o = <<>> THEN Bad(s2)
                                          ELSE IF ~HasTruth(o[1]) THEN AnyR(st)
                                          ELSE IF IsTrue(o[1]) THEN Ev(a[2], lx, s2)
                                          ELSE IF Len(a) = 3 THEN Ev(a[3], lx, s2) ELSE Good(<<>>, s2))
      [] n.s = "emptybundle" -> IF a = <<>> THEN Good(Truth(st.b = <<>>).o, st)
                                ELSE one(LAMBDA o, s2 : IF o = <<>> \/ (o # <<>> /\ o[1].t # ".") THEN AnyR(st) ELSE Good(Truth(Inner(o[1]) = <<>>).o, s2))
      [] n.s \in {"bound", "exists"} -> Ask(a[1], lx, st, n.s = "bound")
      [] n.s = "getaddresses" -> IF a = <<>> THEN Good([i \in 1..Len(st.b) |-> StrA(st.b[i].a)], st)
                                 ELSE LET r == Ev(a[1], lx, st) IN
                                      IF r.k # "ok" THEN r
                                      ELSE IF r.o = <<>> THEN AnyR(st)
                                      ELSE IF r.o[1].t # "." THEN Bad(r.st)
                                      ELSE LET b == Inner(r.o[1]) IN Good([i \in 1..Len(b) |-> StrA(b[i].a)], r.st)
      [] n.s = "delete" -> IF \E i \in DOMAIN a : a[i].k \notin {"addr", "lit"} \/ Bound(lx, a[i].x) THEN AnyR(st)
                           ELSE IF \E i \in DOMAIN a : ~Plain(a[i].x.v) THEN AnyR(st)
                           ELSE Good(<<>>, [st EXCEPT !.b = FoldLeft(LAMBDA b, x : IF x.x.t = "s" THEN O!RemoveAddr(b, x.x.v) ELSE b, st.b, a)])
      [] n.s = "getmsgcount" -> Good(<<IntA(Len(st.b))>>, st)
      [] n.s = "value" -> one(LAMBDA o, s2 : IF o = <<>> THEN AnyR(st)
                                             ELSE IF o[1].t # "s" THEN AnyR(st)
                                             ELSE LET m == Look(s2.b, o[1].v) IN IF m = <<>> THEN AnyR(st) ELSE Good(m[1].d, s2))
      [] n.s = "quote" -> IF a[1].k # "lit" THEN AnyR(st) ELSE Good(<<a[1].x>>, st)
      [] n.s = "eval" -> one(LAMBDA o, s2 : LET x == TextFrom(o) IN
                                            IF x.k # "ok" THEN AnyR(st)
                                            ELSE LET p == S!Program(x.v) IN
                                                 IF p.ok = "n" THEN Good(Whatever.o, s2)
                                                 ELSE IF p.ok # "y" THEN AnyR(st)
                                                 ELSE LET r == Run(p.ss, s2) IN
                                                      CASE r.k = "ok" -> Good(<<IntA(0)>>, r.st)
                                                        [] r.k = "err" -> Good(Whatever.o, r.st)
                                                        [] OTHER -> AnyR(st))
      [] n.s = "gettimetag" -> Good(<<[t |-> "t", v |-> st.t]>>, st)
      [] n.s = "settimetag" -> one(LAMBDA o, s2 : IF o = <<>> THEN Bad(s2) ELSE IF o[1].t # "t" THEN AnyR(st) ELSE Good(<<>>, [s2 EXCEPT !.t = o[1].v]))
      [] n.s \in {"getbundlemember", "."} -> GetMember(a, lx, st)
      [] n.s = "assigntobundlemember" -> SetMember(a, lx, st)
      [] n.s \in {"&&", "andalso"} -> Shortcut("F", a, lx, st)
      [] n.s \in {"||", "orelse"} -> Shortcut("T", a, lx, st)
      [] n.s = "apply" -> Apply(a[1], Tail(a), lx, st)
      [] n.s = "map" -> LET q == EvAll(Tail(a), lx, st, <<>>) IN
                        IF q.k # "ok" THEN Res(q.k, <<>>, q.st) ELSE MapOver(a[1], q.ls, 1, MinLen(q.ls), lx, q.st, <<>>)
      [] n.s \in {"lreduce", "rreduce"} -> Reduce(n.s = "lreduce", a, lx, st)
      [] n.s = "tokenize" -> one(LAMBDA o, s2 : LET x == TextFrom(o) IN
                                                IF x.k # "ok" THEN AnyR(st)
                                                ELSE LET w == S!Words(x.v, 1) IN IF \E i \in DOMAIN w : w[i].t = "?" THEN AnyR(st) ELSE Good(w, s2))
      [] OTHER -> LET q == EvAll(a, lx, st, <<>>) IN
                  IF q.k # "ok" THEN Res(q.k, <<>>, q.st)
                  ELSE IF \E i \in DOMAIN q.ls : \E j \in DOMAIN q.ls[i] : q.ls[i][j].t = "r" \/ Vague(q.ls[i][j]) THEN AnyR(st)
                  ELSE At1(IF n.s = "bundle" THEN BundleOf(q.ls) ELSE Fun(n.s, q.ls), q.st)

(* ----------------------------------------------------------- the events --- *)
(* op "ev": the text is read and its statements run one after the other on a bundle *)
Want(e) == LET p == S!Program(e.text) IN
           IF p.ok # "y" THEN [p |-> p.ok, n |-> 0, r |-> AnyR([b |-> <<>>, t |-> <<>>])]
           ELSE [p |-> "y", n |-> Len(p.ss), r |-> Run(p.ss, [b |-> e.b, t |-> e.t])]
(* the sign of a zero result is left open *)
Unsigned0(l) == [i \in 1..Len(l) |-> IF l[i].t = "d" /\ l[i].v = <<128, 0, 0, 0, 0, 0, 0, 0>> THEN [l[i] EXCEPT !.v = <<0, 0, 0, 0, 0, 0, 0, 0>>] ELSE l[i]]
SameList(l, m) == l = m \/ (Len(l) = Len(m) /\ LET x == Unsigned0(l) y == Unsigned0(m) IN \A i \in 1..Len(x) : Meets(x[i], y[i]))
SameBundle(b, c) == b = c \/ (Len(b) = Len(c) /\ \A i \in DOMAIN b : b[i].a = c[i].a /\ SameList(b[i].d, c[i].d))
EvOk(e) ==
         LET w == Want(e)
             r == e.res
         IN  CASE w.p = "?" -> TRUE
               [] w.p = "n" -> r.parse # 0
               [] OTHER ->
                    /\ r.parse = 0
                    /\ r.n = w.n
                    /\ CASE w.r.k = "ok" -> r.err = 0 /\ SameList(r.out, w.r.o) /\ SameBundle(r.b, w.r.st.b) /\ r.t = w.r.st.t
                         [] w.r.k = "err" -> r.err # 0 /\ SameBundle(r.b, w.r.st.b) /\ r.t = w.r.st.t
                         [] OTHER -> TRUE
Ok(e) == e.op = "ev" => EvOk(e)
Exp(e) == Want(e)
=============================================================================
