-------------------------------- MODULE Text --------------------------------
(* Bundles as text: how they are printed, and what a text says.               *)
EXTENDS Osc, Num
Acc == INSTANCE Access
TT == INSTANCE Time

(* ------------------------------------------------------------- printing --- *)
Meta == {34, 92}                                 \* " and \
Quoted(s) == <<34>> \o FlattenSeq([i \in 1..Len(s) |-> IF s[i] \in Meta THEN <<92, s[i]>> ELSE <<s[i]>>]) \o <<34>>
Spaces(n) == [i \in 1..n |-> 32]
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Pad0(s, n) == [i \in 1..(n - Len(s)) |-> 48] \o s
DecW(n, w) == Pad0(Decimal(NSmall(n)), w)
TagText(t) ==
    LET x == NDivMod(TT!Sec(t), NSmall(86400))
        c == TT!Date(ToSmall(x.q))
        s == ToSmall(x.r)
        us == ToSmall(NShr(NMul(Strip(Reversed(SubSeq(t, 5, 8))), NSmall(1000000)), 32))
    IN  DecW(c.y, 4) \o <<45>> \o DecW(c.m, 2) \o <<45>> \o DecW(c.d, 2) \o <<84>>
        \o DecW(s \div 3600, 2) \o <<58>> \o DecW((s \div 60) % 60, 2) \o <<58>> \o DecW(s % 60, 2) \o <<46>> \o DecW(us, 6) \o <<90>>
BlobText(b) == <<98, 108, 111, 98, 40>> \o Join([i \in 1..Len(b) |-> FmtInt(IntV(IF b[i] > 127 THEN b[i] - 256 ELSE b[i]))], <<44, 32>>) \o <<41>>
RECURSIVE FmtMsgs(_, _), FmtMsg(_, _), FmtAtom(_, _)
FmtAtom(x, ind) == CASE x.t = "s" -> Quoted(x.v)
                     [] x.t = "t" -> TagText(x.v)
                     [] x.t = "b" -> BlobText(x.v)
                     [] x.t = "." -> <<123, 10>> \o FmtMsgs(Parse(x.v), ind + 1) \o <<10>> \o Spaces(2 * ind) \o <<125>>
                     [] OTHER -> Acc!Text(x)
FmtMsg(m, ind) == LET args == Join([i \in 1..Len(m.d) |-> FmtAtom(m.d[i], ind)], <<44, 32>>)
                  IN  Spaces(2 * ind) \o m.a \o (IF m.d = <<>> THEN <<>>
                                                 ELSE <<32, 58, 32>> \o (IF Len(m.d) = 1 THEN args ELSE <<91>> \o args \o <<93>>))
FmtMsgs(b, ind) == Join([i \in 1..Len(b) |-> FmtMsg(b[i], ind)], <<44, 10>>)
Fmt(b) == FmtMsgs(b, 0)
Cut(t, n) == IF n = 0 THEN <<>> ELSE SubSeq(t, 1, IF Len(t) < n - 1 THEN Len(t) ELSE n - 1)

(* --------------------------------------------------------------- tokens --- *)
(* [k |-> kind, v |-> characters]: "p" one of : { } , [ ]   "s" string        *)
(* "c" character   "a" address   "w" any other word   "X" no token            *)
(* "?" a text whose meaning is not laid down                                  *)
Ws == {32, 9, 10}
Punct == {58, 123, 125, 44, 91, 93}
Tok(k, v) == [k |-> k, v |-> v]
(* one character read in a lexer state [m |-> mode, cur, toks] *)
Emit(st, k) == [m |-> "ws", cur |-> <<>>, toks |-> Append(st.toks, Tok(k, st.cur))]
RECURSIVE LexStep(_, _)
LexStep(st, ch) ==
    CASE st.m = "ws" ->
            IF ch \in Ws THEN st
            ELSE IF ch \in Punct THEN [st EXCEPT !.toks = Append(@, Tok("p", <<ch>>))]
            ELSE [st EXCEPT !.m = CASE ch = 34 -> "str" [] ch = 39 -> "chr1" [] ch = 47 -> "addr" [] OTHER -> "word",
                            !.cur = IF ch \in {34, 39} THEN <<>> ELSE <<ch>>]
      [] st.m = "str" -> IF ch = 34 THEN Emit(st, "s") ELSE IF ch = 92 THEN [st EXCEPT !.m = "esc"] ELSE [st EXCEPT !.cur = Append(@, ch)]
      [] st.m = "esc" -> IF ch = 10 THEN [m |-> "str", cur |-> st.cur, toks |-> Append(st.toks, Tok("?", <<>>))]
                         ELSE [st EXCEPT !.m = "str", !.cur = Append(@, ch)]
      [] st.m = "chr1" -> IF ch = 10 THEN Emit(st, "X") ELSE [st EXCEPT !.m = "chr2", !.cur = <<ch>>]
      [] st.m = "chr2" -> IF ch = 39 THEN Emit(st, "c") ELSE Emit(st, "X")
      [] st.m = "addr" ->
            IF ch \in Ws THEN (IF Last(st.cur) = 44 THEN [m |-> "ws", cur |-> <<>>, toks |-> st.toks \o <<Tok("a", Front(st.cur)), Tok("p", <<44>>)>>]
                               ELSE Emit(st, "a"))
            ELSE IF ch = 35 THEN Emit(Emit(st, "a"), "X")
            ELSE [st EXCEPT !.cur = Append(@, ch)]
      [] OTHER -> \* a word ends at a space or at punctuation other than a colon
            IF ch \in Ws THEN Emit(st, "w")
            ELSE IF ch \in (Punct \ {58}) \union {34, 39, 47} THEN LexStep(Emit(st, "w"), ch)
            ELSE [st EXCEPT !.cur = Append(@, ch)]
(* a text without its final newline says the same; a string left open says nothing laid down *)
Tokens(s) == LET e == LexStep(FoldLeft(LexStep, [m |-> "ws", cur |-> <<>>, toks |-> <<>>], s), 10) IN
             IF e.m = "ws" THEN e.toks ELSE Append(e.toks, Tok("?", <<>>))

(* --------------------------------------------------------------- values --- *)
Digs(s) == IsDigits(s)
IndexIn(s, cs) == LET x == {i \in DOMAIN s : s[i] \in cs} IN IF x = {} THEN 0 ELSE Min(x)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 16
HexNat(s) == FoldLeft(LAMBDA acc, c : NAdd(NShl(acc, 4), IF Hex(c) = 0 THEN <<>> ELSE <<Hex(c)>>), <<>>, s)
(* digits with a point, an exponent or both, and perhaps a final f or l; [ok, n, x]: digits n times 10^x *)
FloatParts(s0) ==
    LET neg == s0 # <<>> /\ s0[1] = 45
        s1 == IF neg THEN Tail(s0) ELSE s0
        s == IF s1 # <<>> /\ Last(s1) \in {102, 108, 70, 76} THEN Front(s1) ELSE s1
        e == IndexIn(s, {101, 69})
        man == IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1)
        ex0 == IF e = 0 THEN <<>> ELSE SubSeq(s, e + 1, Len(s))
        exs == IF ex0 # <<>> /\ ex0[1] \in {43, 45} THEN Tail(ex0) ELSE ex0
        dot == IndexIn(man, {46})
        a == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
        b == IF dot = 0 THEN <<>> ELSE SubSeq(man, dot + 1, Len(man))
        ok == /\ a \o b # <<>> /\ Digs(a \o b)
              /\ e # 0 => Digs(exs)
              /\ dot # 0 \/ e # 0
        x == IF e = 0 THEN 0 ELSE (IF ex0[1] = 45 THEN -1 ELSE 1) * ToSmall(ParseDigits(exs, 1, <<>>))
    IN  IF ok /\ (e = 0 \/ Len(exs) <= 4) THEN [ok |-> TRUE, neg |-> neg, n |-> ParseDigits(a \o b, 1, <<>>), x |-> x - Len(b)]
        ELSE [ok |-> FALSE, neg |-> neg, n |-> <<>>, x |-> 0]
FloatV(p) == EncodeF(FloatFmt.d, IF p.x >= 0 THEN RoundQ(FloatFmt.d, p.neg, NMul(p.n, NPow10(p.x)), <<1>>, 0) ELSE RoundQ(FloatFmt.d, p.neg, p.n, NPow10(-p.x), 0))
IntWord(s) == s = <<48>> \/ (LET d == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN Digs(d) /\ d[1] # 48)
IntOf(s) == IF s[1] = 45 THEN Num(TRUE, ParseDigits(Tail(s), 1, <<>>), 0) ELSE Num(FALSE, ParseDigits(s, 1, <<>>), 0)
HexWord(s) == Len(s) >= 3 /\ s[1] = 48 /\ s[2] \in {88, 120} /\ \A i \in 3..Len(s) : Hex(s[i]) < 16
InSet(x, S) == x \in S
(* YYYY-MM-DDTHH:MM:SS, a fraction, a zone *)
TagWord(s) == /\ TT!Shape(s)
              /\ LET f == TT!Fields(s)
                     z == TT!Zone(s)
                 IN  /\ f.m \in 1..12 /\ f.d \in 1..31 /\ f.hh < 24 /\ f.mm < 60 /\ f.ss < 60
                     /\ Len(s) >= 20 /\ s[20] = 46 => TT!Frac(s) # <<>>
                     /\ \/ z \in {<<>>, <<90>>}
                        \/ Len(z) = 6 /\ z[1] \in {43, 45} /\ z[4] = 58 /\ Digs(<<z[2], z[3], z[5], z[6]>>) /\ TT!Two(z, 2) < 24 /\ TT!Two(z, 5) < 60
(* the value of a word: an atom, [t |-> "?"] where it is not laid down, [t |-> "X"] where there is none *)
NoVal == [t |-> "X", v |-> <<>>]
Unsaid == [t |-> "?", v |-> <<>>]
WordVal(s) ==
    IF s = <<116, 114, 117, 101>> THEN [t |-> "T", v |-> <<>>]
    ELSE IF s = <<102, 97, 108, 115, 101>> THEN [t |-> "F", v |-> <<>>]
    ELSE IF s = <<110, 105, 108>> THEN [t |-> "N", v |-> <<>>]
    ELSE IF IntWord(s) THEN (IF Fits("i", IntOf(s)) THEN [t |-> "i", v |-> EncodeI(IntOf(s), 4)] ELSE Unsaid)
    ELSE IF HexWord(s) THEN (IF Len(s) <= 10 THEN [t |-> "I", v |-> BigEndian(HexNat(SubSeq(s, 3, Len(s))), 4)]
                             ELSE IF Len(s) <= 18 THEN [t |-> "H", v |-> BigEndian(HexNat(SubSeq(s, 3, Len(s))), 8)] ELSE Unsaid)
    ELSE LET p == FloatParts(s) IN
         IF p.ok THEN (IF p.x < -400 \/ p.x > 300 \/ Len(p.n) > 60 THEN Unsaid ELSE [t |-> "d", v |-> FloatV(p)])
         ELSE IF TagWord(s) THEN (IF TT!Lawful(TT!Fields(s)) /\ TT!Fields(s).y \in 1901..2035 THEN [t |-> "t", v |-> s] ELSE Unsaid)
         ELSE IF s # <<>> /\ Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {88, 120} THEN Unsaid     \* hexadecimal floats
         ELSE IF TT!Shape(SubSeq(s, IF s[1] = 45 THEN 2 ELSE 1, Len(s))) \/ (\E k \in 2..(IF Len(s) > 8 THEN 8 ELSE Len(s)) : TT!Shape(SubSeq(s, k, Len(s)))) THEN Unsaid   \* other years
         ELSE NoVal
CharVal(s) == [t |-> "c", v |-> IF s[1] > 127 THEN <<255, 255, 255, s[1]>> ELSE <<0, 0, 0, s[1]>>]

(* -------------------------------------------------------------- grammar --- *)
(* a stack of bundles being read: [ms |-> messages, st |-> what may come next]  *)
(*   "M" a message   "B" a message or }   "A" : or the end   "V" a value or [    *)
(*   "L" a value in a list   "l" , or ]   "D" the end of the message             *)
Add1(fr, x, st) == [ms |-> [fr.ms EXCEPT ![Len(fr.ms)].d = Append(@, x)], st |-> st]
Bad == <<>>
Step(stack, tok) ==
    IF stack = Bad THEN Bad
    ELSE LET top == Head(stack)
             to(fr) == <<fr>> \o Tail(stack)
             val(x) == IF x.t = "X" THEN Bad
                       ELSE IF top.st = "V" THEN to(Add1(top, x, "D")) ELSE IF top.st = "L" THEN to(Add1(top, x, "l")) ELSE Bad
         IN  IF tok.k = "X" THEN Bad
             ELSE IF tok.k = "a"
             THEN IF Len(tok.v) < 2 THEN Bad
                  ELSE IF top.st \in {"M", "B"} THEN to([ms |-> Append(top.ms, [a |-> tok.v, d |-> <<>>]), st |-> "A"])
                  ELSE val([t |-> "s", v |-> tok.v])
             ELSE IF tok.k = "s" THEN val([t |-> "s", v |-> tok.v])
             ELSE IF tok.k = "c" THEN val(CharVal(tok.v))
             ELSE IF tok.k = "w" THEN val(WordVal(tok.v))
             ELSE CASE tok.v = <<58>> -> IF top.st = "A" THEN to([top EXCEPT !.st = "V"]) ELSE Bad
                    [] tok.v = <<44>> -> IF top.st \in {"A", "D"} THEN to([top EXCEPT !.st = "M"])
                                         ELSE IF top.st = "l" THEN to([top EXCEPT !.st = "L"]) ELSE Bad
                    [] tok.v = <<91>> -> IF top.st = "V" THEN to([top EXCEPT !.st = "L"]) ELSE Bad
                    [] tok.v = <<93>> -> IF top.st = "l" THEN to([top EXCEPT !.st = "D"]) ELSE Bad
                    [] tok.v = <<123>> -> IF top.st \in {"V", "L"} THEN <<[ms |-> <<>>, st |-> "B"]>> \o stack ELSE Bad
                    [] OTHER -> IF top.st \in {"B", "A", "D"} /\ Len(stack) > 1
                                THEN LET up == stack[2] IN <<Add1(up, [t |-> "{", v |-> top.ms], IF up.st = "V" THEN "D" ELSE "l")>> \o SubSeq(stack, 3, Len(stack))
                                ELSE Bad
RECURSIVE HasUnsaid(_)
HasUnsaid(ms) == \E i \in DOMAIN ms : \E k \in DOMAIN ms[i].d : LET x == ms[i].d[k] IN x.t = "?" \/ (x.t = "{" /\ HasUnsaid(x.v))
(* [ok |-> "yes" | "no" | "any", b |-> messages] *)
Read(s) ==
    LET toks == Tokens(s)
        stack == FoldLeft(Step, <<[ms |-> <<>>, st |-> "M"]>>, toks)
    IN  IF \E i \in DOMAIN toks : toks[i].k = "?" THEN [ok |-> "any", b |-> <<>>]
        ELSE IF \E i \in DOMAIN toks : toks[i].k = "w" /\ WordVal(toks[i].v) = Unsaid THEN [ok |-> "any", b |-> <<>>]
        ELSE IF stack # Bad /\ Len(stack) = 1 /\ stack[1].st \in {"A", "D"} THEN [ok |-> "yes", b |-> stack[1].ms]
        ELSE [ok |-> "no", b |-> <<>>]

(* a bundle as reported against one read: time tags within the precision of their text *)
RECURSIVE SameBundle(_, _)
SameAtom(x, y) == CASE x.t = "{" -> y.t = "." /\ WellFormed(y.v) /\ SameBundle(x.v, Parse(y.v))
                    [] x.t = "t" -> y.t = "t" /\ TT!Within(x.v, y.v, TT!Few)
                    [] OTHER -> x = y
SameBundle(b, c) == /\ Len(b) = Len(c)
                    /\ \A i \in DOMAIN b : /\ b[i].a = c[i].a
                                           /\ Len(b[i].d) = Len(c[i].d)
                                           /\ \A k \in DOMAIN b[i].d : SameAtom(b[i].d[k], c[i].d[k])

(* ----------------------------------------------------------- round trip --- *)
(* what the text form can express, and the value it comes back as *)
AddrOk(a) == Len(a) >= 2 /\ a[1] = 47 /\ Last(a) # 44 /\ \A i \in DOMAIN a : a[i] \notin {32, 9, 10, 35, 0}
RECURSIVE Expressible(_), Back(_)
AtomOk(x) == CASE x.t \in {"c", "C"} -> x.v[4] \notin {0, 10}
               [] x.t \in IntTypes -> Fits("i", ValOf(x))
               [] x.t \in {"f", "d"} -> IsNum(ValOf(x))
               [] x.t = "." -> Parse(x.v) = <<>> \/ Expressible(Parse(x.v))
               [] x.t = "b" -> FALSE
               [] OTHER -> TRUE
Expressible(b) == b # <<>> /\ \A i \in DOMAIN b : AddrOk(b[i].a) /\ \A k \in DOMAIN b[i].d : AtomOk(b[i].d[k])
BackAtom(x) == CASE x.t \in {"c", "C"} -> CharVal(<<x.v[4]>>)
                 [] x.t \in IntTypes -> AtomOf("i", ValOf(x))
                 [] x.t \in {"f", "d"} -> WordVal(FmtFloat(ValOf(x)))
                 [] x.t = "t" -> [t |-> "t", v |-> TagText(x.v)]
                 [] x.t = "." -> [t |-> "{", v |-> Back(Parse(x.v))]
                 [] OTHER -> x
Back(b) == [i \in 1..Len(b) |-> [a |-> b[i].a, d |-> [k \in 1..Len(b[i].d) |-> BackAtom(b[i].d[k])]]]
(* the two halves of this module agree: checked on the specification itself *)
TextInverse(b) == Expressible(b) => Read(Fmt(b)) = [ok |-> "yes", b |-> Back(b)]

(* ----------------------------------------------------------- the events --- *)
(* n1 is the size of the buffer the text was cut to *)
CutOk(r, t, n) == r.r = Len(t) /\ r.t = Cut(t, n) /\ r.end = 1
FmtOk(e) ==
    LET r == e.res
        t == Fmt(e.b)
    IN  /\ r.u = t /\ r.s = t /\ r.p = t
        /\ r.size = <<Len(t), Len(t)>>
        /\ CutOk(r.un, t, e.n) /\ CutOk(r.sn, t, e.n)
        /\ Len(r.m) = Len(e.b)
        /\ \A i \in DOMAIN e.b : LET mt == FmtMsg(e.b[i], 0) IN
             r.m[i].u = mt /\ r.m[i].s = mt /\ r.m[i].size = <<Len(mt), Len(mt)>> /\ CutOk(r.m[i].un, mt, e.n) /\ CutOk(r.m[i].sn, mt, e.n)
        /\ Expressible(e.b) => r.back.err = 0 /\ SameBundle(Back(e.b), r.back.b)
ReadOk(e) == LET x == Read(e.s) IN
             CASE x.ok = "yes" -> e.res.err = 0 /\ SameBundle(x.b, e.res.b)
               [] x.ok = "no" -> e.res.err # 0
               [] OTHER -> TRUE
Ok(e) == CASE e.op = "fmt" -> FmtOk(e) [] e.op = "read" -> ReadOk(e) [] OTHER -> TRUE
Exp(e) == CASE e.op = "fmt" -> [u |-> Fmt(e.b), m |-> [i \in 1..Len(e.b) |-> FmtMsg(e.b[i], 0)], back |-> IF Expressible(e.b) THEN Back(e.b) ELSE <<>>]
            [] OTHER -> LET x == Read(e.s) IN [err |-> x.ok, b |-> x.b]
=============================================================================
