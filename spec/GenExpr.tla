-------------------------------- MODULE GenExpr --------------------------------
(* Small expressions, all of them:                                             *)
(*   FAMILY = "stmt"   every sequence of statements of an alphabet              *)
(*   FAMILY = "member" the same, over nested bundles                            *)
(*   FAMILY = "tree"   every chain of operators, read and as a tree             *)
(*   FAMILY = "fn"     every small function applied to small arguments          *)
(*   FAMILY = "list"   every short list under the list functions                *)
(* with what holds of the definitions on all of them; each is printed as an     *)
(* evaluation for the library.                                                  *)
EXTENDS Expr, Json, IOUtils
S == INSTANCE ExprSyn
O == INSTANCE OscU
Family == IOEnv.FAMILY
Depth == atoi(IOEnv.DEPTH)
Unary == IF "UNARY" \in DOMAIN IOEnv THEN atoi(IOEnv.UNARY) ELSE 1      \* the longest chains with a prefix operator in them
(* the characters of a TLA+ string *)
CharOf(c) == IF c = " " THEN 32 ELSE CHOOSE k \in 33..126 : S!Glyphs[k - 32] = c
Codes(s) == [i \in 1..Len(s) |-> CharOf(SubSeq(s, i, i))]
TAG == <<0, 0, 0, 0, 0, 0, 0, 1>>
I(n) == AtomOf("i", IntV(n))
D2(n) == AtomOf("d", IF n = 0 THEN Zero ELSE Times(IntV(n), Num(FALSE, <<1>>, -1)))
M(s, d) == [a |-> Codes(s), d |-> d]
St(s) == [t |-> "s", v |-> Codes(s)]
Bn(b) == BndA(b)
EvOp(b, text) == [op |-> "ev", b |-> b, t |-> TAG, text |-> text]
VARIABLES st, path, x
vars == <<st, path, x>>
Tell(ops) == PrintT(<<"BEH", ToJson(ops)>>)

(* ------------------------------------------------------------ statements --- *)
B0 == IF Family = "member"
      THEN <<M("/p", <<Bn(<<M("/x", <<I(1)>>), M("/y", <<Bn(<<M("/x", <<I(2), I(3)>>)>>)>>)>>)>>), M("/q", <<Bn(<<>>)>>), M("/v", <<I(5), I(6)>>)>>
      ELSE <<M("/a", <<I(1)>>), M("/b", <<I(2), I(3)>>), M("/s", <<St("/a")>>)>>
Plain1 == <<"/a = 7", "/a = /b", "/b = [4, /a]", "/c = /a", "/a += 1", "/b -= /a", "/a ++", "-- /b", "/a ??= 9", "/c ??= 9", "/b[[1]] = 8", "/b[[0]] = /a",
            "delete(/a)", "delete(/c)", "/r = bound(/a)", "/r = exists(/c)", "if(/a == 1, /a = 0, /c = 5)", "/r = /c ?? 1", "/a = /b = 4",
            "/r = value(/s)", "/b = []", "/r = nth(/b, 1)", "assign(value(/s), 6)", "/r = getaddresses()", "/r = length(/b) - /a">>
Member1 == <<"/p./x = 9", "/p./z = [1, 2]", "/r = /p./x", "/r = getbundlemember(/p./y, /x)", "/q = /p", "/q./x = /p./x", "/p./y = /q", "/p = {/x : 3, /y : /p}",
             "/p./x = /p./x + 1", "/r = bound(/p./z)", "/r = exists(/p./x)", "/q = {}", "/r = getaddresses(/q)", "/r = emptybundle(/q)", "/v = [/p, /v]", "/r = getbundlemember(nth(/v, 0), /x)",
             "/q./x = /q", "delete(/p)", "assigntobundlemember(/q, /z, /v)", "/p./x = /p./x">>
Stmts == IF Family = "member" THEN Member1 ELSE Plain1
Texts == [i \in DOMAIN Stmts |-> Codes(Stmts[i])]
Progs == [i \in DOMAIN Texts |-> S!Program(Texts[i])]
TextOf1(p) == FoldLeft(LAMBDA acc, i : IF acc = <<>> THEN Texts[i] ELSE acc \o <<44, 32>> \o Texts[i], <<>>, p)
Step == \E i \in DOMAIN Stmts :
            LET r == Run(Progs[i].ss, st) IN
            /\ Len(path) < Depth
            /\ Tell(<<EvOp(B0, TextOf1(Append(path, i)))>>)
            /\ IF r.k = "ok" THEN st' = r.st /\ path' = Append(path, i) ELSE FALSE
            /\ UNCHANGED x
(* reading all the statements at once and running them does what running them one by one did *)
Whole1 == LET p == S!Program(TextOf1(path)) IN p.ok = "y" /\ Len(p.ss) = Len(path) /\ LET r == Run(p.ss, [b |-> B0, t |-> TAG]) IN r.k = "ok" /\ r.st = st
Apart(b) == \A i, j \in DOMAIN b : b[i].a = b[j].a => i = j
RECURSIVE Sound(_)
Sound(b) == Apart(b) /\ \A i \in DOMAIN b : ValidAddr(b[i].a) /\ \A j \in DOMAIN b[i].d : b[i].d[j].t = "." => (O!Ser(O!Parse(b[i].d[j].v)) = b[i].d[j].v /\ Sound(O!Parse(b[i].d[j].v)))
StmtInv == Family \in {"stmt", "member"} => /\ \A i \in DOMAIN Progs : Progs[i].ok = "y" /\ Len(Progs[i].ss) = 1
                                            /\ Sound(st.b)
                                            /\ path # <<>> => Whole1
(* a statement changes no message but those it assigns, and removes none but those it deletes *)
Writes == [i \in DOMAIN Stmts |->
            {Codes(w) : w \in IF Family = "member"
                              THEN CASE i \in {1, 2, 7, 8, 9, 18, 20} -> {"/p"} [] i \in {3, 4, 10, 11, 13, 14, 16} -> {"/r"} [] i \in {5, 6, 12, 17, 19} -> {"/q"} [] OTHER -> {"/v"}
                              ELSE CASE i \in {1, 2, 5, 7, 9, 13, 23} -> {"/a"} [] i \in {3, 6, 8, 11, 12, 21} -> {"/b"} [] i \in {4, 10, 14} -> {"/c"} [] i = 17 -> {"/a", "/c"} [] i = 19 -> {"/a", "/b"} [] OTHER -> {"/r"}}]
Without(b, w) == SelectSeq(b, LAMBDA m : m.a \notin w)
InOrder(b, c, w) == LET ad(q) == [i \in DOMAIN q |-> q[i].a]                                       \* and keeps the order
                       kept == SelectSeq(ad(c), LAMBDA a : \E i \in DOMAIN b : b[i].a = a)
                       left == SelectSeq(ad(b), LAMBDA a : \E i \in DOMAIN c : c[i].a = a)
                   IN  kept = left
Frame == [][path' # path => LET w == Writes[Last(path')] IN Without(st'.b, w) = Without(st.b, w) /\ InOrder(st.b, st'.b, w)]_vars

(* ----------------------------------------------------------------- trees --- *)
Bins == IF Depth >= 3 THEN {"+", "*", "^", "<", "==", "&", "|", "%"} ELSE {"+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "&", "|", "&&", "||"}
Un == {"", "-", "!"}
Leaves == <<"/a", "3", "/b", "2">>
(* how tightly an operator binds, as the documentation's table orders them *)
Rows == <<{"|", "||"}, {"&", "&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"+", "-"}, {"*", "/", "%"}, {"^"}>>
Row(o) == CHOOSE k \in DOMAIN Rows : o \in Rows[k]
(* x = [o |-> operators, u |-> prefix operators]: leaf o leaf o ... leaf *)
LeafT(j) == LET l == IF SubSeq(Leaves[j], 1, 1) = "/" THEN S!AddrN(St(Leaves[j])) ELSE S!Lit(I(IF Leaves[j] = "3" THEN 3 ELSE 2)) IN
            CASE x.u[j] = "" -> l [] x.u[j] = "-" -> S!Call("-", <<S!Lit(I(0)), l>>) [] OTHER -> S!Call("!", <<l>>)
Name == [o \in Bins |-> CASE o = "+" -> "add" [] o = "-" -> "sub" [] o = "*" -> "mul" [] o = "/" -> "div" [] o = "%" -> "mod" [] o = "<" -> "lt" [] o = "<=" -> "le" [] o = ">" -> "gt"
                          [] o = ">=" -> "ge" [] o = "==" -> "eq" [] o = "!=" -> "ne" [] o = "&" -> "and" [] o = "|" -> "or" [] o = "^" -> "pow" [] o = "&&" -> "andalso" [] OTHER -> "orelse"]
RECURSIVE Paren(_, _), Pre(_, _)
LeafX(j) == IF x.u[j] = "" THEN Leaves[j] ELSE x.u[j] \o Leaves[j]
Loosest(i, j) == CHOOSE k \in i..(j - 1) : (\A m \in i..(j - 1) : Row(x.o[m]) >= Row(x.o[k])) /\ (\A m \in (k + 1)..(j - 1) : Row(x.o[m]) > Row(x.o[k]))
Paren(i, j) == IF i = j THEN LeafX(i) ELSE LET k == Loosest(i, j) IN "(" \o Paren(i, k) \o " " \o x.o[k] \o " " \o Paren(k + 1, j) \o ")"
Pre(i, j) == IF i = j THEN LeafX(i) ELSE LET k == Loosest(i, j) IN Name[x.o[k]] \o "(" \o Pre(i, k) \o ", " \o Pre(k + 1, j) \o ")"
RECURSIVE Flat(_)
Flat(j) == IF j = 1 THEN LeafX(1) ELSE Flat(j - 1) \o " " \o x.o[j - 1] \o " " \o LeafX(j)
NL == Len(x.o) + 1
RECURSIVE Grouped(_, _)
Grouped(i, j) == IF i = j THEN LeafT(i) ELSE LET k == Loosest(i, j) IN S!Call(x.o[k], <<Grouped(i, k), Grouped(k + 1, j)>>)
TreeB == <<M("/a", <<I(7)>>), M("/b", <<I(-2)>>)>>
TreeText == Codes("/r = " \o Flat(NL) \o ", /q = " \o Paren(1, NL) \o ", /s = " \o Pre(1, NL))
TreeInv == Family = "tree" =>
    LET f == S!Program(Codes(Flat(NL)))
        p == S!Program(Codes(Paren(1, NL)))
        r == Run(S!Program(TreeText).ss, [b |-> TreeB, t |-> TAG])
    IN  /\ f.ok = "y" /\ f.ss = <<Grouped(1, NL)>>
        /\ p.ok = "y" /\ p.ss = f.ss
        /\ r.k = "ok" => r.st.b[3].d = r.st.b[4].d /\ r.st.b[4].d = r.st.b[5].d
TreeInit == x \in UNION {{[o |-> o, u |-> u] : o \in [1..n -> Bins], u \in {u \in [1..(n + 1) -> Un] : Cardinality({j \in DOMAIN u : u[j] # ""}) <= (IF n > Unary THEN 0 ELSE 1)}} : n \in (IF Depth >= 3 THEN {3} ELSE 1..Depth)}

(* ------------------------------------------------------------- functions --- *)
(* bodies over the parameter x1 (and a free y1), as texts with a hole for the parameter *)
Holes == IF Depth >= 2 THEN {"#", "y1", "/a", "2"} ELSE {"#", "y1", "/a"}
Op2 == {"add", "sub", "list"}
T1(h) == h \union {o \o "(" \o p \o ", " \o q \o ")" : o \in Op2, p \in h, q \in h}
Bodies1 == LET t == T1(Holes) IN t \union {"apply(lambda([y1], " \o p \o "), " \o q \o ")" : p \in t, q \in {"#", "/a", "add(#, y1)"}}
                                \union {"apply(lambda([x1], " \o p \o "), " \o q \o ")" : p \in {"x1", "add(x1, y1)", "/a"}, q \in {"#", "list(#, y1)"}}
Args1 == {"5", "/a", "list(1, /a)", "add(/a, 1)"}
RECURSIVE Fill(_, _)
Fill(s, w) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = "#" THEN w ELSE SubSeq(s, 1, 1)) \o Fill(SubSeq(s, 2, Len(s)), w)
FnB == <<M("/a", <<I(3), I(-4)>>)>>
Value(s) == LET p == S!Program(Codes(s)) r == Run(p.ss, [b |-> FnB, t |-> TAG]) IN IF p.ok # "y" THEN [k |-> p.ok, o |-> <<>>] ELSE [k |-> r.k, o |-> r.o]
(* applying a function is putting its argument in the place of its parameter; y1 is an argument bound outside *)
Outer(s) == "apply(lambda([y1], " \o s \o "), 9)"
FnInv == Family = "fn" => Value(Outer("apply(lambda([x1], " \o Fill(x.b, "x1") \o "), " \o x.e \o ")")) = Value(Outer(Fill(x.b, x.e)))
FnText == Codes("/r = " \o Outer("apply(lambda([x1], " \o Fill(x.b, "x1") \o "), " \o x.e \o ")")
                \o ", /q = map(lambda([x1, y1], " \o Fill(x.b, "x1") \o "), [1, 2], /a), /s = lreduce(lambda([x1, y1], " \o Fill(x.b, "x1") \o "), [3, 4, 5])")
FnInit == x \in [b : Bodies1, e : Args1]

(* ----------------------------------------------------------------- lists --- *)
Vals == {I(0), I(1), I(-2), D2(1), D2(4)}
Lists == UNION {[1..n -> Vals] : n \in 0..Depth}
F(s, l) == Fun(s, <<l>>)
G(s, l, m) == Fun(s, <<l, m>>)
Ok1(r) == r.k = "ok"
Zr == I(0)
SameV(a, b) == V(a) = V(b)
SameL(l, m) == Len(l) = Len(m) /\ \A i \in DOMAIN l : SameV(l[i], m[i])
Count(l, a) == Cardinality({i \in DOMAIN l : SameV(l[i], a)})
ListLaws(l) ==
    /\ F("reverse", F("reverse", l).o).o = l
    /\ F("length", l).o = <<I(Len(l))>>
    /\ l # <<>> =>
       LET s == F("sort", l).o
           n == Len(l)
           cs == F("cumsum", l).o
           sum == F("sum", l).o
           mn == F("min", l).o
           mx == F("max", l).o
       IN  /\ Len(s) = n /\ \A i \in DOMAIN l : Count(s, l[i]) = Count(l, l[i])
           /\ \A i \in 1..(n - 1) : Cmp(V(s[i]), V(s[i + 1])) <= 0
           /\ SameV(mn[1], s[1]) /\ SameV(mx[1], s[n])
           /\ Len(cs) = n /\ SameV(cs[n], sum[1]) /\ SameV(cs[1], l[1])
           /\ \A i \in 2..n : SameV(cs[i], G("+", <<cs[i - 1]>>, <<l[i]>>).o[1])
           /\ G("list", F("first", l).o, F("rest", l).o).o = l
           /\ G("list", F("butlast", l).o, F("last", l).o).o = l
           /\ Ok1(F("sortidx", l)) => SameL(G("nth", l, F("sortidx", l).o).o, s)
           /\ SameV(G("dot", l, [i \in 1..n |-> I(1)]).o[1], sum[1])
           /\ F("nonzero", l).o # <<>> => SameL(G("nth", l, F("nonzero", l).o).o, SelectSeq(l, LAMBDA a : ~SameV(a, Zr)))
PairLaws(l, m) ==
    LET n == Len(G("+", l, m).o) IN
    /\ G("+", l, m).o = G("+", m, l).o /\ G("*", l, m).o = G("*", m, l).o
    /\ \A o \in {"==", "<", "<="} : G(o, l, m).o = [i \in 1..n |-> Fun("!", <<<<G(CASE o = "==" -> "!=" [] o = "<" -> ">=" [] OTHER -> ">", l, m).o[i]>>>>).o[1]]
    /\ G("<", l, m).o = G(">", m, l).o
    /\ l # <<>> /\ m # <<>> => SameL(G("+", G("-", l, m).o, m).o, IF Len(m) = 1 \/ Len(l) # 1 THEN SubSeq(l, 1, n) ELSE [i \in 1..n |-> l[1]])
ListInv == Family = "list" => ListLaws(x.l) /\ PairLaws(x.l, x.m)
LB == <<[a |-> Codes("/x"), d |-> x.l], [a |-> Codes("/y"), d |-> x.m]>>
ListTexts == IF x.m = <<>> /\ x.l # <<>>
             THEN <<"/r = sort(/x), /t = reverse(/x)", "/r = sortidx(/x)", "/r = sum(/x), /s = cumsum(/x), /t = product(/x)", "/r = min(/x), /s = max(/x), /t = range(/x)", "/r = first(/x), /s = rest(/x), /t = last(/x), /u = butlast(/x)",
                    "/r = nonzero(/x), /s = sign(/x)", "/r = mean(/x)", "/r = median(/x)", "/r = l2norm(/x)", "/r = !/x, /s = -/x, /t = plus1(/x)", "/r = extrema(/x)", "/r = abs(/x), /s = floor(/x)"  >>
             ELSE <<"/r = /x + /y, /s = /x - /y, /t = /x * /y", "/r = /x < /y, /s = /x >= /y, /t = /x == /y", "/r = dot(/x, /y)", "/r = interleave(/x, /y)", "/s = list(/x, /y), /t = [/y, /x]">>
ListInit == x \in {[l |-> l, m |-> m] : l \in Lists, m \in UNION {[1..n -> {I(0), I(3), D2(-1)}] : n \in 0..(Depth - 1)}}

Init == /\ st = [b |-> IF Family \in {"stmt", "member"} THEN B0 ELSE <<>>, t |-> TAG]
        /\ path = <<>>
        /\ CASE Family = "tree" -> TreeInit [] Family = "fn" -> FnInit [] Family = "list" -> ListInit [] OTHER -> x = 0
        /\ CASE Family = "tree" -> Tell(<<EvOp(TreeB, TreeText)>>)
             [] Family = "fn" -> Tell(<<EvOp(FnB, FnText)>>)
             [] Family = "list" -> Tell([i \in DOMAIN ListTexts |-> EvOp(LB, Codes(ListTexts[i]))])
             [] OTHER -> TRUE
Next == IF Family \in {"stmt", "member"} THEN Step ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<st, x>>
=============================================================================
