------------------------------ MODULE ExprSyn ------------------------------
(* The syntax of the expression language: what the text of an expression says. *)
(* Lex cuts a text into tokens by longest match; Program reads tokens as       *)
(* statements by operator precedence.                                          *)
EXTENDS Num
LOCAL TX == INSTANCE Text

(* ------------------------------------------------------- bytes to names --- *)
Glyphs == <<"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
            "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
            "[", "\\", "]", "^", "_", "`",
            "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "{", "|", "}", "~">>
Glyph(b) == IF b \in 33..126 THEN Glyphs[b - 32] ELSE "~~"
Str(s) == FoldLeft(LAMBDA acc, b : acc \o Glyph(b), "", s)

(* ---------------------------------------------------------------- lexer --- *)
(* token: k = "num" "str" "addr" "lam" "quo" "op" or "?" (a text whose meaning  *)
(* is not laid down); s the operator; x the value; n the characters it takes    *)
Blank == {32, 9, 10}
Dec == 48..57
(* + - * / % ^ ! = [ ] : ; , ? < > & | \ { } ( ) `  *)
Special == {43, 45, 42, 47, 37, 94, 33, 61, 91, 93, 58, 59, 44, 63, 60, 62, 38, 124, 92, 123, 125, 40, 41, 96}
NotAddr == (Special \ {47}) \union Blank \union {46}
NotWord == Special \union Blank \union {34, 39, 46}
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
(* the first position from i on that is outside / inside C *)
SkipIn(s, i, C) == LET w == {j \in i..Len(s) : s[j] \notin C} IN IF w = {} THEN Len(s) + 1 ELSE Min(w)
SkipOut(s, i, C) == LET w == {j \in i..Len(s) : s[j] \in C} IN IF w = {} THEN Len(s) + 1 ELSE Min(w)
Tk(k, s, x, n) == [k |-> k, s |-> s, x |-> x, n |-> n]
NoX == [t |-> "", v |-> <<>>]
StrX(b) == [t |-> "s", v |-> b]
OpTk(s, n) == Tk("op", s, NoX, n)
Odd(n) == Tk("?", "", NoX, n)
Two1 == {"<=", ">=", "!=", "==", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=", "??", "[[", "]]"}
(* end of a number starting at i *)
ExpEnd(s, i) == \* an exponent, if one starts at i
    IF At(s, i) \in {69, 101}
    THEN LET j == IF At(s, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1 IN
         IF At(s, j) \in Dec THEN SkipIn(s, j, Dec) ELSE i
    ELSE i
HexD == Dec \union 65..70 \union 97..102
NumTok(s, i) ==
    LET a == SkipIn(s, i, Dec)                                 \* digits
        dot == At(s, a) = 46
        b == IF dot THEN SkipIn(s, a + 1, Dec) ELSE a           \* and a fraction
        e == ExpEnd(s, b)
        f == IF (dot \/ e > b) /\ At(s, e) \in {102, 108, 70, 76} THEN e + 1 ELSE e
        isf == dot \/ e > b
        h == SkipIn(s, i + 2, HexD)
    IN  IF At(s, i) = 48 /\ At(s, i + 1) \in {88, 120} /\ h > i + 2
        THEN IF At(s, h) \in {46, 80, 112} \/ h - i > 18 THEN Odd(h - i)
             ELSE Tk("num", "", IF h - i <= 10 THEN [t |-> "I", v |-> BigEndian(TX!HexNat(SubSeq(s, i + 2, h - 1)), 4)]
                                ELSE [t |-> "H", v |-> BigEndian(TX!HexNat(SubSeq(s, i + 2, h - 1)), 8)], h - i)
        ELSE IF isf THEN LET p == TX!FloatParts(SubSeq(s, i, f - 1)) IN
                         IF p.ok /\ p.x >= -400 /\ p.x <= 300 /\ Len(p.n) <= 60 THEN Tk("num", "", [t |-> "d", v |-> TX!FloatV(p)], f - i) ELSE Odd(f - i)
        ELSE IF s[i] = 48 THEN Tk("num", "", AtomOf("i", Zero), 1)
        ELSE LET v == Num(FALSE, ParseDigits(SubSeq(s, i, a - 1), 1, <<>>), 0) IN
             IF Fits("i", v) THEN Tk("num", "", AtomOf("i", v), a - i) ELSE Odd(a - i)
(* a quoted string from i (after the quote): \" is a quote, any other backslash stands with what follows it *)
RECURSIVE Quoted(_, _, _)
Quoted(s, i, acc) == IF i > Len(s) THEN [ok |-> FALSE, v |-> acc, n |-> i]
                     ELSE IF s[i] = 34 THEN [ok |-> TRUE, v |-> acc, n |-> i + 1]
                     ELSE IF s[i] = 92 /\ i < Len(s)
                          THEN Quoted(s, i + 2, acc \o (IF s[i + 1] = 34 THEN <<34>> ELSE <<92, s[i + 1]>>))
                     ELSE Quoted(s, i + 1, Append(acc, s[i]))
(* the position after the parenthesis that closes depth d *)
RECURSIVE Close(_, _, _)
Close(s, i, d) == IF i > Len(s) THEN 0
                  ELSE IF s[i] = 41 /\ s[i - 1] # 92 THEN (IF d = 1 THEN i + 1 ELSE Close(s, i + 1, d - 1))
                  ELSE IF s[i] = 40 /\ s[i - 1] # 92 THEN Close(s, i + 1, d + 1)
                  ELSE Close(s, i + 1, d)
WordTok(w, n) == LET z == Str(w) IN
    IF z \in {"true", "True", "TRUE"} THEN Tk("num", "", [t |-> "T", v |-> <<>>], n)
    ELSE IF z \in {"false", "False", "FALSE"} THEN Tk("num", "", [t |-> "F", v |-> <<>>], n)
    ELSE IF z \in {"nil", "Nil", "NIL"} THEN Tk("num", "", [t |-> "N", v |-> <<>>], n)
    ELSE IF z = "lambda" THEN Tk("lam", "", NoX, n)
    ELSE Tk("str", "", StrX(w), n)
TokAt(s, i) ==
    LET c == s[i]
        two == Glyph(c) \o Glyph(At(s, i + 1))
    IN  CASE c \in Dec \/ (c = 46 /\ At(s, i + 1) \in Dec) -> NumTok(s, i)
          [] c = 34 -> IF At(s, i + 1) = 34 THEN Tk("str", "", StrX(<<>>), 2)
                       ELSE LET q == Quoted(s, i + 1, <<>>) IN IF q.ok THEN Tk("str", "", StrX(q.v), q.n - i) ELSE Odd(q.n - i)
          [] c = 39 -> IF At(s, i + 2) = 39 /\ s[i + 1] # 10
                       THEN Tk("num", "", [t |-> "c", v |-> IF s[i + 1] > 127 THEN <<255, 255, 255, s[i + 1]>> ELSE <<0, 0, 0, s[i + 1]>>], 3)
                       ELSE Odd(1)
          [] c = 47 /\ At(s, i + 1) \notin NotAddr \union {0} -> LET e == SkipOut(s, i + 1, NotAddr) IN Tk("addr", "", StrX(SubSeq(s, i, e - 1)), e - i)
          [] c \in {59, 92} -> Odd(1)
          [] c = 63 /\ At(s, i + 1) = 63 /\ At(s, i + 2) = 61 -> OpTk("??=", 3)
          [] c \in Special \union {46} -> IF At(s, i + 1) # 0 /\ two \in Two1 THEN OpTk(two, 2) ELSE OpTk(Glyph(c), 1)
          [] OTHER ->
               LET e == SkipOut(s, i + 1, NotWord)
                   w == SubSeq(s, i, e - 1)
                   p == SkipIn(s, e, Blank)
               IN  IF Str(w) = "quote" /\ At(s, p) = 40
                   THEN LET z == Close(s, p + 1, 1) IN IF z = 0 THEN Odd(Len(s) + 1 - i) ELSE Tk("quo", "", StrX(SubSeq(s, p + 1, z - 2)), z - i)
                   ELSE WordTok(w, e - i)
RECURSIVE Lex(_, _)
Lex(s, i) == IF i > Len(s) THEN <<>>
             ELSE IF s[i] \in Blank THEN Lex(s, SkipIn(s, i, Blank))
             ELSE IF s[i] = 35 THEN Lex(s, SkipOut(s, i, {10}))
             ELSE LET t == TokAt(s, i) IN <<t>> \o Lex(s, i + t.n)
(* the tokens of a text as values *)
RECURSIVE Words(_, _)
Words(s, i) == IF i > Len(s) THEN <<>>
               ELSE IF s[i] \in Blank THEN Words(s, SkipIn(s, i, Blank))
               ELSE IF s[i] = 35 THEN Words(s, SkipOut(s, i, {10}))
               ELSE LET t == TokAt(s, i) IN
                    <<CASE t.k = "?" -> [t |-> "?", v |-> <<>>]
                        [] t.k \in {"op", "lam"} -> StrX(SubSeq(s, i, i + t.n - 1))
                        [] OTHER -> t.x>> \o Words(s, i + t.n)

(* ---------------------------------------------------------------- trees --- *)
(* k = "lit" value x | "addr" address x | "call" function s of arguments a | "fn" parameters p, bodies a *)
Node(k, s, x, a, p) == [k |-> k, s |-> s, x |-> x, a |-> a, p |-> p]
Lit(x) == Node("lit", "", x, <<>>, <<>>)
AddrN(x) == Node("addr", "", x, <<>>, <<>>)
Call(s, a) == Node("call", s, NoX, a, <<>>)
Nought == Call("", <<>>)

(* functions: how many arguments they need, and how many more they take (-1: any number) *)
F2 == {"+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "&", "|", "&&", "||", "add", "sub", "mul", "div", "mod", "lt", "le", "gt", "ge", "eq", "ne",
       "and", "or", "andalso", "orelse", "assign", "=", "pow", "fmod", "atan2", "hypot", "remainder", "dot", "cross", "strchar", "strfind", "cast", "getbundlemember", ".",
       "bitand", "bitor", "jn", "yn", "split", "match"}
F1 == {"++", "--", "plus1", "minus1", "abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "floor", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh",
       "erf", "erfc", "gamma", "j0", "j1", "lgamma", "y0", "y1", "acosh", "asinh", "atanh", "cbrt", "expm1", "logb", "round", "ilogb",
       "product", "sum", "cumsum", "length", "avg", "mean", "median", "reverse", "rev", "sortidx", "nonzero", "first", "last", "rest", "butlast",
       "!", "not", "l2norm", "min", "max", "range", "extrema", "sign", "strlen", "bound", "exists", "identity", "eval", "tokenize", "quote", "value", "settimetag",
       "typetags", "float32", "float64", "int8", "char", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "string", "blob", "readstring"}
Ar(r, o) == [r |-> r, o |-> o]
Consts == {"pi", "twopi", "halfpi", "quarterpi", "oneoverpi", "twooverpi", "degtorad", "radtodeg", "e", "lntwo", "lnten", "logtwoe", "logtene",
           "sqrttwo", "sqrthalf", "phi", "twelfth_root_of_2", "thirteenth_root_of_3"}
ArityOf(s) == CASE s \in F2 -> Ar(2, 0)
                [] s \in F1 -> Ar(1, 0)
                [] s \in {"nth", "interleave", "apply", "map", "join"} -> Ar(2, -1)
                [] s \in {"sort", "det", "prog1", "prog2", "progn", "delete"} -> Ar(1, -1)
                [] s \in {"list", "bundle"} -> Ar(0, -1)
                [] s \in Consts -> Ar(0, 0)
                [] s \in {"hton32", "ntoh32", "hton64", "ntoh64", "strtotime", "floattotime"} -> Ar(1, 0)
                [] s = "quickhull" -> Ar(1, 1)
                [] s \in {"nfill", "mtof", "ftom"} -> Ar(1, 1)
                [] s \in {"aseq", "if", "strcmp", "lreduce", "rreduce"} -> Ar(2, 1)
                [] s \in {"clip", "assign_to_index", "assigntobundlemember"} -> Ar(3, 0)
                [] s = "scale" -> Ar(5, 0)
                [] s \in {"getmsgcount", "gettimetag", "lambda"} -> Ar(0, 0)
                [] s \in {"emptybundle", "getaddresses"} -> Ar(0, 1)
                [] OTHER -> Ar(-1, 0)
Known(s) == ArityOf(s).r >= 0
ArityOk(s, n) == LET a == ArityOf(s) IN n >= a.r /\ (a.o < 0 \/ n <= a.r + a.o)
(* names that are functions of the language but are not described here *)
Elsewhere == {"compile", "imu", "nextafter"}

(* --------------------------------------------------------------- parser --- *)
(* [ok "y" | "n" | "?", n tree, i next token, e: an expression rather than a bare value] *)
P(n, i, e) == [ok |-> "y", n |-> n, i |-> i, e |-> e]
PErr == [ok |-> "n", n |-> Nought, i |-> 0, e |-> FALSE]
POdd == [ok |-> "?", n |-> Nought, i |-> 0, e |-> FALSE]
PS(a, i) == [ok |-> "y", a |-> a, i |-> i]                     \* a list of arguments
PSErr(ok) == [ok |-> ok, a |-> <<>>, i |-> 0]
IsOp(T, i, s) == i \in 1..Len(T) /\ T[i].k = "op" /\ T[i].s = s
KindAt(T, i) == IF i \in 1..Len(T) THEN T[i].k ELSE "end"
OpAt(T, i) == IF KindAt(T, i) = "op" THEN T[i].s ELSE ""
Level(s) == CASE s \in {"+=", "-=", "*=", "/=", "%=", "^="} -> 1
              [] s = "?" -> 2
              [] s \in {"|", "||"} -> 3
              [] s \in {"&", "&&"} -> 4
              [] s \in {"==", "!="} -> 5
              [] s \in {"<", ">", "<=", ">="} -> 6
              [] s \in {"+", "-"} -> 7
              [] s \in {"*", "/", "%"} -> 8
              [] s = "^" -> 9
              [] OTHER -> 0
Tight == 11                                                     \* only [[ ]] binds tighter than a prefix operator
BaseOp(s) == CASE s = "+=" -> "+" [] s = "-=" -> "-" [] s = "*=" -> "*" [] s = "/=" -> "/" [] s = "%=" -> "%" [] OTHER -> "^"
CallP(s, a, i) == IF s \in Elsewhere THEN POdd ELSE IF Known(s) /\ ArityOk(s, Len(a)) THEN P(Call(s, a), i, TRUE) ELSE PErr
ZeroLit == Lit(AtomOf("i", Zero))
RECURSIVE Arg(_, _, _), Loop(_, _, _), Prim(_, _), Args(_, _), Msgs(_, _, _), Params(_, _)
Then(r, f(_)) == IF r.ok = "y" THEN f(r) ELSE [r EXCEPT !.n = Nought]
Need(T, r, s, f(_)) == IF r.ok # "y" THEN r ELSE IF IsOp(T, r.i, s) THEN f(r) ELSE PErr
Arg(T, i, min) == LET r == Prim(T, i) IN IF r.ok # "y" THEN r ELSE Loop(T, r, min)
(* one or more arguments separated by commas *)
Args(T, i) == LET r == Arg(T, i, 1) IN
              IF r.ok # "y" THEN PSErr(r.ok)
              ELSE IF IsOp(T, r.i, ",") /\ ~IsOp(T, r.i + 1, ")")
                   THEN LET rest == Args(T, r.i + 1) IN IF rest.ok # "y" THEN rest ELSE PS(<<r.n>> \o rest.a, rest.i)
              ELSE PS(<<r.n>>, r.i)
(* what follows an argument *)
Loop(T, l, min) ==
    LET o == OpAt(T, l.i)
        v == Level(o)
    IN  IF o = "[["
        THEN LET as == Args(T, l.i + 1) IN
             IF as.ok # "y" THEN [PErr EXCEPT !.ok = as.ok]
             ELSE IF IsOp(T, as.i, "]]") THEN Loop(T, P(Call("nth", <<l.n>> \o as.a), as.i + 1, TRUE), min) ELSE PErr
        ELSE IF v = 0 \/ v < min THEN l
        ELSE IF o = "?"
        THEN LET y == Arg(T, l.i + 1, 1) IN
             IF y.ok # "y" THEN y
             ELSE IF ~IsOp(T, y.i, ":") THEN PErr
             ELSE LET z == Arg(T, y.i + 1, 2) IN IF z.ok # "y" THEN z ELSE Loop(T, P(Call("if", <<l.n, y.n, z.n>>), z.i, TRUE), min)
        ELSE LET r == Arg(T, l.i + 1, IF v = 1 THEN 1 ELSE v + 1) IN
             IF r.ok # "y" THEN r
             ELSE IF v = 1
             THEN IF l.n.k = "addr" THEN Loop(T, P(Call("assign", <<l.n, Call(BaseOp(o), <<l.n, r.n>>)>>), r.i, TRUE), min) ELSE POdd
             ELSE Loop(T, P(Call(o, <<l.n, r.n>>), r.i, TRUE), min)
(* name(args) from the opening parenthesis at i *)
CallArgs(T, i) == IF IsOp(T, i + 1, ")") THEN PS(<<>>, i + 2)
                  ELSE LET as == Args(T, i + 1) IN
                       IF as.ok # "y" THEN as ELSE IF IsOp(T, as.i, ")") THEN PS(as.a, as.i + 1) ELSE PSErr("n")
Msgs(T, i, acc) ==
    IF KindAt(T, i) # "addr" \/ ~IsOp(T, i + 1, ":") THEN PSErr("n")
    ELSE LET r == Arg(T, i + 2, 1)
             a2 == acc \o <<Lit(T[i].x), r.n>>
         IN  IF r.ok # "y" THEN PSErr(r.ok)
             ELSE IF IsOp(T, r.i, ",") THEN Msgs(T, r.i + 1, a2)
             ELSE IF IsOp(T, r.i, "}") THEN PS(a2, r.i + 1)
             ELSE PSErr("n")
Params(T, i) == IF KindAt(T, i) # "str" THEN PSErr("n")
                ELSE IF IsOp(T, i + 1, ",") THEN LET r == Params(T, i + 2) IN IF r.ok # "y" THEN r ELSE PS(<<T[i].x.v>> \o r.a, r.i)
                ELSE PS(<<T[i].x.v>>, i + 1)
(* lambda, from its name at i *)
Fn(T, i) ==
    LET list == IsOp(T, i + 2, "[")
        ps == IF ~list THEN (IF KindAt(T, i + 2) = "str" THEN PS(<<T[i + 2].x.v>>, i + 3) ELSE PSErr("n"))
              ELSE IF IsOp(T, i + 3, "]") THEN PS(<<>>, i + 4)
              ELSE LET r == Params(T, i + 3) IN IF r.ok = "y" /\ IsOp(T, r.i, "]") THEN PS(r.a, r.i + 1) ELSE PSErr("n")
    IN  IF ~IsOp(T, i + 1, "(") \/ ps.ok # "y" \/ ~IsOp(T, ps.i, ",") THEN PErr
        ELSE LET as == Args(T, ps.i + 1) IN
             IF as.ok # "y" THEN [PErr EXCEPT !.ok = as.ok]
             ELSE IF IsOp(T, as.i, ")") THEN P(Node("fn", "", NoX, as.a, ps.a), as.i + 1, FALSE) ELSE PErr
(* after an address at i *)
AfterAddr(T, i) ==
    LET a == AddrN(T[i].x)
        o == OpAt(T, i + 1)
    IN  CASE o = "(" -> LET as == CallArgs(T, i + 1) IN IF as.ok = "y" THEN P(Call("apply", <<a>> \o as.a), as.i, TRUE) ELSE [PErr EXCEPT !.ok = as.ok]
          [] o = "=" -> LET r == Arg(T, i + 2, 1) IN IF r.ok # "y" THEN r ELSE P(Call("assign", <<a, r.n>>), r.i, TRUE)
          [] o \in {"++", "--"} -> P(Call("prog1", <<a, Call("assign", <<a, Call(IF o = "++" THEN "plus1" ELSE "minus1", <<a>>)>>)>>), i + 2, TRUE)
          [] o \in {"??", "??="} ->
                LET r == Arg(T, i + 2, Tight)
                    c == Call("if", <<Call("bound", <<a>>), a, r.n>>)
                IN  IF r.ok # "y" THEN r ELSE P(IF o = "??" THEN c ELSE Call("assign", <<a, c>>), r.i, TRUE)
          [] o = "." -> IF KindAt(T, i + 2) # "addr" THEN PErr
                        ELSE LET b == AddrN(T[i + 2].x) IN
                             IF IsOp(T, i + 3, "=")
                             THEN LET r == Arg(T, i + 4, 1) IN IF r.ok # "y" THEN r ELSE P(Call("assigntobundlemember", <<a, b, r.n>>), r.i, TRUE)
                             ELSE P(Call("getbundlemember", <<a, b>>), i + 3, TRUE)
          [] o = "[[" ->
                LET x == Arg(T, i + 2, 1) IN
                IF x.ok # "y" THEN x
                ELSE IF IsOp(T, x.i, ":")
                THEN LET y == Arg(T, x.i + 1, 1) IN
                     IF y.ok # "y" THEN y
                     ELSE LET z == IF IsOp(T, y.i, ":") THEN Arg(T, y.i + 1, 1) ELSE y
                              ix == IF IsOp(T, y.i, ":") THEN Call("aseq", <<x.n, z.n, y.n>>) ELSE Call("aseq", <<x.n, y.n>>)
                          IN  IF z.ok # "y" THEN z
                              ELSE IF ~IsOp(T, z.i, "]]") \/ ~IsOp(T, z.i + 1, "=") THEN PErr
                              ELSE LET r == Arg(T, z.i + 2, 1) IN IF r.ok # "y" THEN r ELSE P(Call("assign_to_index", <<a, ix, r.n>>), r.i, TRUE)
                ELSE LET as == Args(T, i + 2) IN
                     IF as.ok # "y" THEN [PErr EXCEPT !.ok = as.ok]
                     ELSE IF ~IsOp(T, as.i, "]]") THEN PErr
                     ELSE IF IsOp(T, as.i + 1, "=")
                     THEN LET r == Arg(T, as.i + 2, 1)
                              ix == IF Len(as.a) = 1 THEN as.a[1] ELSE Call("list", as.a)
                          IN  IF r.ok # "y" THEN r ELSE P(Call("assign_to_index", <<a, ix, r.n>>), r.i, TRUE)
                     ELSE P(Call("nth", <<a>> \o as.a), as.i + 1, TRUE)
          [] OTHER -> P(a, i + 1, FALSE)
Prim(T, i) ==
    LET k == KindAt(T, i)
        o == OpAt(T, i)
    IN  CASE k = "?" -> POdd
          [] k = "end" -> PErr
          [] k = "num" -> P(Lit(T[i].x), i + 1, FALSE)
          [] k = "lam" -> Fn(T, i)
          [] k = "quo" -> P(Call("quote", <<Lit(T[i].x)>>), i + 1, TRUE)
          [] k = "addr" -> AfterAddr(T, i)
          [] k = "str" -> IF IsOp(T, i + 1, "(")
                          THEN LET as == CallArgs(T, i + 1) IN IF as.ok = "y" THEN CallP(Str(T[i].x.v), as.a, as.i) ELSE [PErr EXCEPT !.ok = as.ok]
                          ELSE IF IsOp(T, i + 1, ".")
                          THEN (IF KindAt(T, i + 2) = "addr" THEN P(Call("getbundlemember", <<Lit(T[i].x), AddrN(T[i + 2].x)>>), i + 3, TRUE) ELSE PErr)
                          ELSE IF OpAt(T, i + 1) \in {"++", "--"} THEN PErr
                          ELSE P(Lit(T[i].x), i + 1, FALSE)
          [] o = "(" -> IF KindAt(T, i + 1) = "lam"
                        THEN LET f == Fn(T, i + 1) IN
                             IF f.ok # "y" THEN f
                             ELSE IF ~IsOp(T, f.i, ",") THEN (IF Level(OpAt(T, f.i)) > 0 \/ IsOp(T, f.i, "[[") THEN POdd ELSE PErr)
                             ELSE LET as == Args(T, f.i + 1) IN
                                  IF as.ok # "y" THEN [PErr EXCEPT !.ok = as.ok]
                                  ELSE IF IsOp(T, as.i, ")") THEN P(Call("apply", <<f.n>> \o as.a), as.i + 1, TRUE) ELSE PErr
                        ELSE LET r == Arg(T, i + 1, 1) IN
                             IF r.ok # "y" THEN r
                             ELSE IF r.e /\ IsOp(T, r.i, ")") THEN P(r.n, r.i + 1, TRUE) ELSE PErr
          [] o = "[" -> IF IsOp(T, i + 1, "]") THEN P(Call("list", <<>>), i + 2, TRUE)
                        ELSE LET as == Args(T, i + 1) IN
                             IF as.ok # "y" THEN [PErr EXCEPT !.ok = as.ok]
                             ELSE IF IsOp(T, as.i, "]") THEN P(Call("list", as.a), as.i + 1, TRUE) ELSE PErr
          [] o = "{" -> IF IsOp(T, i + 1, "}") THEN P(Call("bundle", <<>>), i + 2, TRUE)
                        ELSE LET ms == Msgs(T, i + 1, <<>>) IN IF ms.ok = "y" THEN P(Call("bundle", ms.a), ms.i, TRUE) ELSE [PErr EXCEPT !.ok = ms.ok]
          [] o \in {"!", "-"} -> LET r == Arg(T, i + 1, Tight) IN
                                 IF r.ok # "y" THEN r ELSE P(IF o = "!" THEN Call("!", <<r.n>>) ELSE Call("-", <<ZeroLit, r.n>>), r.i, TRUE)
          [] o \in {"++", "--"} -> IF KindAt(T, i + 1) # "addr" THEN PErr
                                   ELSE LET a == AddrN(T[i + 1].x) IN P(Call("assign", <<a, Call(IF o = "++" THEN "plus1" ELSE "minus1", <<a>>)>>), i + 2, TRUE)
          [] o = "`" -> IF KindAt(T, i + 1) \in {"str", "addr"} /\ IsOp(T, i + 2, "`")
                        THEN P(Call("value", <<IF KindAt(T, i + 1) = "str" THEN Lit(T[i + 1].x) ELSE AddrN(T[i + 1].x)>>), i + 3, TRUE)
                        ELSE PErr
          [] OTHER -> PErr

(* statements: [ok, ss] *)
RECURSIVE Statements(_, _, _)
Statements(T, i, acc) ==
    LET r == Arg(T, i, 1) IN
    IF r.ok # "y" THEN [ok |-> r.ok, ss |-> <<>>]
    ELSE IF ~r.e /\ r.n.k # "addr" /\ ~(r.n.k = "lit" /\ KindAt(T, i) = "num") THEN [ok |-> "n", ss |-> <<>>]
    ELSE LET a2 == Append(acc, IF r.e THEN r.n ELSE Call("progn", <<r.n>>)) IN
         IF r.i > Len(T) THEN [ok |-> "y", ss |-> a2]
         ELSE IF IsOp(T, r.i, ",") THEN Statements(T, r.i + 1, a2)
         ELSE [ok |-> "n", ss |-> <<>>]
Program(s) == LET T == Lex(s, 1) IN
              IF \E i \in DOMAIN T : T[i].k = "?" THEN [ok |-> "?", ss |-> <<>>]
              ELSE IF T = <<>> THEN [ok |-> "y", ss |-> <<>>]
              ELSE IF IsOp(T, 1, ",") THEN [ok |-> "?", ss |-> <<>>]
              ELSE Statements(T, 1, <<>>)
(* a function on its own *)
FnText(s) == LET T == Lex(s, 1) IN
             IF KindAt(T, 1) # "lam" THEN POdd
             ELSE LET f == Fn(T, 1) IN IF f.ok = "y" /\ f.i = Len(T) + 1 THEN f ELSE IF f.ok = "y" THEN PErr ELSE f
=============================================================================
