------------------------------ MODULE ExprVal ------------------------------
(* What the functions of the expression language make of their arguments.      *)
(* A value is a list of arguments [t, v]; a result is [k, o]: "ok" with a list, *)
(* "err", or "any" where the outcome is not laid down (it must still be an      *)
(* orderly one).                                                               *)
EXTENDS Num
LOCAL Acc == INSTANCE Access
LOCAL TT == INSTANCE Time
LOCAL MM == INSTANCE Match
LOCAL OO == INSTANCE Osc
LOCAL TB == INSTANCE ExprTab

R(o) == [k |-> "ok", o |-> o]
E == [k |-> "err", o |-> <<>>]
A == [k |-> "any", o |-> <<>>]
Cat(rs) == IF \E i \in DOMAIN rs : rs[i].k = "any" THEN A
           ELSE IF \E i \in DOMAIN rs : rs[i].k = "err" THEN E
           ELSE R(FlattenSeq([i \in 1..Len(rs) |-> rs[i].o]))
Each(f(_), l) == Cat([i \in 1..Len(l) |-> f(l[i])])

D == FloatFmt.d
Rd(v) == Round(D, v)
NumT == NumTypes \union {"T", "F"}
IsFl(x) == x.t \in {"f", "d"}
IsN(x) == x.t \in NumT
V(x) == ValOf(x)
(* a number that doubles hold exactly *)
Fin(x) == IsN(x) /\ IsNum(V(x)) /\ Exact(D, V(x))
AllFin(l) == \A i \in DOMAIN l : Fin(l[i])
Dbl(v) == R(<<AtomOf("d", v)>>)
I32(v) == IF Fits("i", v) THEN R(<<AtomOf("i", v)>>) ELSE A
Truth(b) == R(<<[t |-> IF b THEN "T" ELSE "F", v |-> <<>>]>>)
Str1(s) == R(<<[t |-> "s", v |-> s]>>)
(* values laid down only within a tolerance: a double within 2^-p of its size, or within 2^-p, the time tag written as text, that of a    *)
(* number of seconds; "?" is a value left open                                                                          *)
Almost(u, v, p) == R(<<[t |-> "~", u |-> u, v |-> v, p |-> p]>>)
Whatever == R(<<[t |-> "?", v |-> <<>>]>>)
Vague(x) == x.t \in {"~", "?"}
Meets(r, x) ==
    CASE x.t = "?" -> TRUE
      [] x.t = "~" ->
           (CASE x.u = "d" -> r.t = "d" /\ LET a == DecodeF(FloatFmt["d"], r.v) b == DecodeF(FloatFmt["d"], x.v) IN
                                         IsNum(a) /\ Cmp(Abs(Minus(a, b)), Times(Abs(b), Num(FALSE, <<1>>, -x.p))) <= 0
             [] x.u = "near" -> r.t = "d" /\ LET a == DecodeF(FloatFmt["d"], r.v) b == DecodeF(FloatFmt["d"], x.v) IN
                                            IsNum(a) /\ Cmp(Abs(Minus(a, b)), Num(FALSE, <<1>>, -x.p)) <= 0
             [] x.u = "text" -> r.t = "t" /\ TT!Within(x.v, r.v, TT!Few)
             [] x.u = "secs" -> r.t = "t" /\ TT!Slack(TT!SecondsOf(r.v), DecodeF(FloatFmt["d"], x.v), Num(FALSE, <<3>>, -32)))
      [] OTHER -> r = x
(* the entry of a table for a row of arguments *)
Known1(tab, f, xs) == IF f \notin DOMAIN tab THEN A
                      ELSE LET w == {i \in DOMAIN tab[f] : \A j \in DOMAIN xs : tab[f][i][j] = EncodeF(FloatFmt["d"], xs[j])} IN
                           IF w = {} THEN A ELSE Almost("d", Last(tab[f][Min(w)]), 40)
Rank == [T |-> 1, F |-> 2, c |-> 3, C |-> 4, u |-> 5, U |-> 6, i |-> 7, I |-> 8, h |-> 9, H |-> 10, f |-> 11, d |-> 12]
Larger(x, y) == IF Rank[x.t] > Rank[y.t] THEN x.t ELSE y.t
(* the type of an integer result *)
IntRes(x, y) == LET t == Larger(x, y) IN IF t \in {"T", "F"} THEN "i" ELSE t
DivD(v, w) == RoundQ(D, v.neg # w.neg, v.m, w.m, v.e - w.e)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
StrLess(a, b) == LexLess(a, b, 1)

(* ------------------------------------------------------------ operators --- *)
(* elementwise: a single element goes with every element of the other side, otherwise the shorter list decides *)
Bin(f(_, _), a, b) ==
    IF a = <<>> \/ b = <<>> THEN A
    ELSE LET n == IF Len(a) = 1 THEN Len(b) ELSE IF Len(b) = 1 THEN Len(a) ELSE IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
         Cat([i \in 1..n |-> f(IF Len(a) = 1 THEN a[1] ELSE a[i], IF Len(b) = 1 THEN b[1] ELSE b[i])])
(* the time tag of a whole number of seconds; fractions are converted only to within P17's tolerance *)
Coarse(x) == Fin(x) /\ ~V(x).neg /\ V(x).e >= 0 /\ NBits(V(x).m) + V(x).e <= 32
TagOf(x) == IF x.t = "t" THEN x.v ELSE BigEndian(NShl(V(x).m, V(x).e + 32), 8)
TagOk(x) == x.t = "t" \/ Coarse(x)
(* two numbers as C would bring them together: doubles if either is a float *)
Fl2(f(_, _), x, y) == IF IsNum(V(x)) /\ IsNum(V(y)) THEN f(Rd(V(x)), Rd(V(y))) ELSE A
TextOf(x) == Acc!Text(x)
Add(x, y) ==
    IF x.t = "s" /\ y.t = "s" THEN Str1(x.v \o y.v)
    ELSE IF x.t = "s" /\ IsN(y) THEN (IF y.t \in {"c", "C"} THEN A ELSE Str1(x.v \o TextOf(y)))
    ELSE IF y.t = "s" /\ IsN(x) THEN (IF x.t \in {"c", "C"} THEN A ELSE Str1(TextOf(x) \o y.v))
    ELSE IF x.t = "t" \/ y.t = "t"
    THEN IF ~((x.t = "t" \/ IsN(x)) /\ (y.t = "t" \/ IsN(y))) THEN E
         ELSE IF TagOk(x) /\ TagOk(y) THEN R(<<[t |-> "t", v |-> TT!Add(TagOf(x), TagOf(y))]>>) ELSE A
    ELSE IF IsN(x) /\ IsN(y)
    THEN IF IsFl(x) \/ IsFl(y) THEN Fl2(LAMBDA v, w : Dbl(Plus(v, w)), x, y)
         ELSE R(<<AtomOf(IntRes(x, y), Plus(V(x), V(y)))>>)
    ELSE E
SubInt(x, y) == LET t == IntRes(x, y) IN IF Rank[t] < Rank["i"] THEN "i" ELSE t
Sub(x, y) ==
    IF IsN(x) /\ IsN(y)
    THEN IF IsFl(x) \/ IsFl(y) THEN Fl2(LAMBDA v, w : Dbl(Minus(v, w)), x, y)
         ELSE R(<<AtomOf(SubInt(x, y), Minus(V(x), V(y)))>>)
    ELSE IF x.t = "t" /\ y.t = "t" THEN A
    ELSE IF (x.t = "t" \/ y.t = "t") /\ (x.t = "t" \/ IsN(x)) /\ (y.t = "t" \/ IsN(y))
    THEN (IF TagOk(x) /\ TagOk(y) THEN R(<<[t |-> "t", v |-> TT!Dist(TagOf(x), TagOf(y))]>>) ELSE A)
    ELSE E
Mul(x, y) ==
    IF ~(IsN(x) /\ IsN(y)) THEN E
    ELSE IF IsFl(x) \/ IsFl(y) THEN Fl2(LAMBDA v, w : Dbl(Times(v, w)), x, y)
    ELSE R(<<AtomOf(IntRes(x, y), Times(V(x), V(y)))>>)
InfText == Str1(<<73, 110, 102>>)
Div(x, y) ==
    IF ~(IsN(x) /\ IsN(y)) THEN E
    ELSE IF IsFl(x) \/ IsFl(y) THEN (IF V(y).k # "nan" /\ IsZero(V(y)) THEN InfText ELSE Fl2(LAMBDA v, w : Dbl(DivD(v, w)), x, y))
    ELSE LET t == IntRes(x, y)
             v == Wrap(t, V(x))
             w == Wrap(t, V(y))
         IN  IF IsZero(w) THEN InfText ELSE R(<<AtomOf(t, Quot(v, w))>>)
(* x - |y| * floor(x / |y|) *)
Mod(x, y) ==
    IF ~(IsN(x) /\ IsN(y)) THEN A
    ELSE IF IsNum(V(y)) /\ IsZero(V(y)) THEN R(<<x>>)
    ELSE IF ~Fin(x) \/ ~Fin(y) THEN (IF IsFl(x) \/ IsFl(y) THEN A ELSE R(<<AtomOf(SubInt(x, y), FloorMod(V(x), Abs(V(y))))>>))
    ELSE IF IsFl(x) \/ IsFl(y)
    THEN \* only where the arithmetic is exact
         LET q == FloorDiv(V(x), Abs(V(y)))
         IN  IF ~(V(x).neg /\ IsZero(V(x))) /\ NBits(q.m) + NBits(V(y).m) <= 50 /\ V(x).e >= -20 /\ V(y).e >= -20 /\ NBits(V(x).m) <= 40 /\ NBits(q.m) <= 20
             THEN Dbl(FloorMod(V(x), Abs(V(y)))) ELSE A
    ELSE R(<<AtomOf(SubInt(x, y), FloorMod(V(x), Abs(V(y))))>>)
(* order: numbers by value, strings by their bytes, every number before every string, time tags by time *)
Ord(x, y) == \* [k, c]: "ok" with -1, 0, 1
    IF x.t = "s" /\ y.t = "s" THEN [k |-> "ok", c |-> IF x.v = y.v THEN 0 ELSE IF StrLess(x.v, y.v) THEN -1 ELSE 1]
    ELSE IF IsN(x) /\ IsN(y)
    THEN IF V(x).k = "nan" \/ V(y).k = "nan" THEN [k |-> "nan", c |-> 0]
         ELSE [k |-> "ok", c |-> IF IsFl(x) \/ IsFl(y) THEN Cmp(Rd(V(x)), Rd(V(y))) ELSE Cmp(V(x), V(y))]
    ELSE IF (x.t = "t" \/ IsN(x)) /\ (y.t = "t" \/ IsN(y))
    THEN (IF TagOk(x) /\ TagOk(y) THEN [k |-> "ok", c |-> TT!Compare(TagOf(x), TagOf(y))] ELSE [k |-> "any", c |-> 0])
    ELSE [k |-> "err", c |-> 0]
Rel(p(_), x, y) == IF x.t = "s" /\ IsN(y) THEN Truth(p(1)) ELSE IF y.t = "s" /\ IsN(x) THEN Truth(p(-1))
                   ELSE LET o == Ord(x, y) IN CASE o.k = "ok" -> Truth(p(o.c)) [] o.k = "nan" -> Truth(FALSE) [] o.k = "any" -> A [] OTHER -> E
Equal(x, y) == \* [k, b]
    LET o == Ord(x, y) IN
    CASE o.k = "ok" -> [k |-> "ok", b |-> o.c = 0]
      [] o.k = "nan" -> [k |-> "ok", b |-> FALSE]
      [] o.k = "any" -> [k |-> "any", b |-> FALSE]
      [] x.t = "N" \/ y.t = "N" -> [k |-> "ok", b |-> x.t = y.t]
      [] x.t = "." /\ y.t = "." -> [k |-> "ok", b |-> x.v = y.v]
      [] OTHER -> [k |-> "err", b |-> FALSE]
EqR(x, y, want) == LET q == Equal(x, y) IN CASE q.k = "ok" -> Truth(q.b = want) [] q.k = "any" -> A [] OTHER -> E
IsTrue(x) == Acc!BoolWant(x) = 1
HasTruth(x) == x.t \in ValueTypes
And(x, y) == IF HasTruth(x) /\ HasTruth(y) THEN Truth(IsTrue(x) /\ IsTrue(y)) ELSE A
Or(x, y) == IF HasTruth(x) /\ HasTruth(y) THEN Truth(IsTrue(x) \/ IsTrue(y)) ELSE A

Step1(x, n) == IF x.t \in {"T", "F"} \/ ~IsN(x) THEN A
               ELSE IF IsFl(x) THEN (IF IsNum(V(x)) THEN R(<<AtomOf(x.t, Plus(V(x), IntV(n)))>>) ELSE A)
               ELSE R(<<AtomOf(x.t, Plus(V(x), IntV(n)))>>)
Not1(x) == CASE x.t \in IntTypes -> R(<<AtomOf("i", IntV(IF IsZero(V(x)) THEN 1 ELSE 0))>>)
             [] IsFl(x) -> R(<<AtomOf("i", IntV(IF V(x).k = "num" /\ IsZero(V(x)) THEN 1 ELSE 0))>>)
             [] x.t \in {"s", "b", "."} -> R(<<x>>)
             [] x.t = "T" -> Truth(FALSE)
             [] x.t \in {"F", "N"} -> Truth(TRUE)
             [] OTHER -> A

(* ---------------------------------------------- elementwise mathematics --- *)
HalfUp(v) == LET f == Floor(Plus(Abs(v), Num(FALSE, <<1>>, -1))) IN [f EXCEPT !.neg = v.neg]
Ceil(v) == Neg(Floor(Neg(v)))
Small(v) == IsInt(v) /\ NBits(v.m) + v.e <= 20
Int0(v) == ToTlc(v)
RECURSIVE VPow(_, _)
VPow(v, n) == IF n = 0 THEN IntV(1) ELSE Times(v, VPow(v, n - 1))
(* the square root of a square *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF NCmp(NMul(NSmall(m), NSmall(m)), n) <= 0 THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Sqrt(v) == \* of v = r^2, r an integer below 2^16, times a power of four
    IF IsZero(v) THEN Dbl(v)
    ELSE IF v.neg THEN A
    ELSE LET e == IF v.e % 2 = 0 THEN v.e ELSE v.e - 1
             m == NShl(v.m, v.e - e)
         IN  IF NBits(m) > 30 THEN A
             ELSE LET r == NSmall(Root(m, 0, 46340)) IN IF NMul(r, r) = m THEN Dbl(Num(FALSE, r, e \div 2)) ELSE A
(* points where the value of a function is a whole number *)
Is(v, n) == v = IntV(n)
Whole(s, v) ==
    LET at(n, r) == IF Is(v, n) \/ (n = 0 /\ IsZero(v) /\ ~v.neg) THEN Dbl(IntV(r)) ELSE A IN
    CASE s \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf", "expm1", "j1"} -> at(0, 0)
      [] s \in {"cos", "cosh", "exp", "erfc", "j0"} -> at(0, 1)
      [] s \in {"acos", "acosh", "log"} -> at(1, 0)
      [] s = "log10" -> IF Is(v, 1) THEN Dbl(Zero) ELSE IF Is(v, 10) THEN Dbl(IntV(1)) ELSE IF Is(v, 100) THEN Dbl(IntV(2)) ELSE IF Is(v, 1000) THEN Dbl(IntV(3)) ELSE A
      [] s = "lgamma" -> IF Is(v, 1) \/ Is(v, 2) THEN Dbl(Zero) ELSE A
      [] s = "cbrt" -> IF Is(v, 1) THEN Dbl(v) ELSE at(0, 0)
      [] OTHER -> A
Math1 == {"abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "floor", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh",
          "erf", "erfc", "gamma", "j0", "j1", "lgamma", "y0", "y1", "acosh", "asinh", "atanh", "cbrt", "expm1", "logb", "round"}
M1(s, x) ==
    IF ~IsN(x) \/ ~IsNum(V(x)) THEN A
    ELSE LET v == Rd(V(x)) IN
         CASE s = "abs" -> Dbl(Abs(v))
           [] s = "floor" -> (IF IsInt(v) THEN Dbl(v) ELSE LET f == Floor(v) IN Dbl(IF IsZero(f) THEN [f EXCEPT !.neg = v.neg] ELSE f))
           [] s = "ceil" -> (IF IsInt(v) THEN Dbl(v) ELSE LET f == Ceil(v) IN Dbl(IF IsZero(f) THEN [f EXCEPT !.neg = v.neg] ELSE f))
           [] s = "round" -> IF IsInt(v) THEN Dbl(v) ELSE Dbl(HalfUp(v))
           [] s = "sqrt" -> LET w == Sqrt(v) IN IF w.k = "ok" THEN w ELSE Known1(TB!Tab1, s, <<v>>)
           [] s = "logb" -> IF IsZero(v) THEN A ELSE Dbl(IntV(v.e + NBits(v.m) - 1))
           [] OTHER -> LET w == Whole(s, v) IN IF w.k = "ok" THEN w ELSE Known1(TB!Tab1, s, <<v>>)
Math2 == {"pow", "^", "fmod", "atan2", "hypot", "remainder"}
RECURSIVE Exact2(_, _, _)
M2(s, x, y) == LET w == Exact2(s, x, y) IN
               IF w.k # "any" \/ ~(IsN(x) /\ IsN(y)) THEN w
               ELSE IF ~IsNum(V(x)) \/ ~IsNum(V(y)) THEN w ELSE Known1(TB!Tab2, IF s = "^" THEN "pow" ELSE s, <<Rd(V(x)), Rd(V(y))>>)
Exact2(s, x, y) ==
    IF ~(IsN(x) /\ IsN(y)) \/ ~IsNum(V(x)) \/ ~IsNum(V(y)) THEN A
    ELSE LET v == Rd(V(x))
             w == Rd(V(y))
             big == v.e - w.e > 200 \/ w.e - v.e > 200
         IN  CASE s \in {"pow", "^"} -> IF Small(w) /\ ~w.neg /\ Int0(w) <= 40 /\ (NBits(v.m) * Int0(w) <= 53) THEN Dbl(VPow(v, Int0(w))) ELSE A
               [] s = "fmod" -> IF IsZero(w) \/ big THEN A
                                ELSE LET r == Minus(v, Times(w, Quot(v, w))) IN Dbl(IF IsZero(r) THEN [Zero EXCEPT !.neg = v.neg] ELSE r)
               [] s = "remainder" ->
                    IF IsZero(w) \/ big THEN A
                    ELSE LET aw == Abs(w)
                             q == QuotMag(v, w).q
                             r == Minus(Abs(v), Times(aw, Num(FALSE, q, 0)))                 \* 0 <= r < |w|
                             c == Cmp(Plus(r, r), aw)
                             up == c > 0 \/ (c = 0 /\ q # <<>> /\ q[1] % 2 = 1)
                             z == IF up THEN Minus(r, aw) ELSE r
                         IN  Dbl(IF IsZero(z) THEN [Zero EXCEPT !.neg = v.neg] ELSE IF v.neg THEN Neg(z) ELSE z)
               [] s = "hypot" -> IF IsZero(v) THEN Dbl(Abs(w)) ELSE IF IsZero(w) THEN Dbl(Abs(v))
                                 ELSE IF Small(v) /\ Small(w) /\ NBits(v.m) + v.e <= 12 /\ NBits(w.m) + w.e <= 12 THEN Sqrt(Plus(Times(v, v), Times(w, w))) ELSE A
               [] s = "atan2" -> IF IsZero(v) /\ ~v.neg /\ ~w.neg /\ ~IsZero(w) THEN Dbl(Zero) ELSE A
               [] OTHER -> A
ILogb(x) == IF ~IsN(x) \/ ~IsNum(V(x)) \/ IsZero(V(x)) THEN A ELSE LET v == Rd(V(x)) IN I32(IntV(v.e + NBits(v.m) - 1))
Sign1(x) == IF ~IsN(x) \/ V(x).k = "nan" THEN A ELSE R(<<AtomOf("i", IntV(IF V(x).k = "num" /\ IsZero(V(x)) THEN 0 ELSE IF V(x).neg THEN -1 ELSE 1))>>)

(* ---------------------------------------------------------------- lists --- *)
(* the type in which a whole number is reported *)
ByMag(v) == IF Fits("i", v) THEN "i" ELSE IF Fits("I", v) THEN "I" ELSE IF Fits("h", v) THEN "h" ELSE IF Fits("H", v) THEN "H" ELSE "d"
Exact53(v) == IsInt(v) /\ NBits(v.m) + v.e <= 53
RunSum(l) == FoldLeft(LAMBDA acc, x : Rd(Plus(acc, V(x))), Zero, l)
RunProd(l) == FoldLeft(LAMBDA acc, x : Rd(Times(acc, V(x))), IntV(1), l)
HasFl(l) == \E i \in DOMAIN l : IsFl(l[i])
(* every partial sum of whole numbers is exact *)
Held53(v) == IsInt(v) /\ NBits(v.m) <= 53
RECURSIVE Partials(_, _, _)
Partials(f(_, _), l, acc) == IF l = <<>> THEN <<>> ELSE LET v == f(acc, V(l[1])) IN <<v>> \o Partials(f, Tail(l), v)
Total(f(_, _), exactly(_, _), init, l) ==
    IF ~AllFin(l) THEN A
    ELSE LET ps == Partials(f, l, init)
             v == IF ps = <<>> THEN init ELSE Last(ps)
         IN  IF HasFl(l) THEN (IF \A i \in DOMAIN ps : IsNum(ps[i]) THEN Dbl(v) ELSE A)
             ELSE IF (\A i \in DOMAIN l : Held53(V(l[i]))) /\ \A i \in DOMAIN ps : Held53(Partials(exactly, l, init)[i]) THEN R(<<AtomOf(ByMag(v), v)>>) ELSE A
RPlus(v, w) == IF IsNum(v) THEN Rd(Plus(v, w)) ELSE v
RTimes(v, w) == IF IsNum(v) THEN Rd(Times(v, w)) ELSE v
CumType(l) == LET ts == {IF l[i].t \in {"T", "F"} THEN "i" ELSE l[i].t : i \in DOMAIN l} IN CHOOSE t \in ts : \A s \in ts : Rank[s] <= Rank[t]
CumSum(l) ==
    IF l = <<>> THEN R(<<>>)
    ELSE IF ~AllFin(l) THEN A
    ELSE LET t == CumType(l)
             f(v, w) == IF ~IsNum(v) THEN v ELSE IF t \in IntTypes THEN Wrap(t, Plus(v, w)) ELSE Round(FloatFmt[t], Plus(v, Round(FloatFmt[t], w)))
             ps == Partials(f, l, Zero)
         IN  IF \A i \in DOMAIN ps : IsNum(ps[i]) THEN R([i \in 1..Len(ps) |-> AtomOf(t, ps[i])]) ELSE A
Mean(l) == IF l = <<>> \/ ~AllFin(l) THEN A ELSE LET s == RunSum(l) IN IF IsNum(s) THEN Dbl(DivD(s, IntV(Len(l)))) ELSE A
(* order for sorting: [less, tie] only numbers and strings *)
Sortable(l) == \A i \in DOMAIN l : Fin(l[i]) \/ l[i].t = "s"
Before(x, y) == IF x.t = "s" /\ y.t = "s" THEN StrLess(x.v, y.v)
                ELSE IF x.t = "s" THEN FALSE ELSE IF y.t = "s" THEN TRUE ELSE Cmp(V(x), V(y)) < 0
Sorted(l) == SortSeq(l, LAMBDA x, y : Before(x, y))
Sort(l) == IF ~Sortable(l) THEN A
           ELSE LET s == Sorted(l) IN
                IF \E i \in 1..(Len(s) - 1) : ~Before(s[i], s[i + 1]) /\ s[i] # s[i + 1] THEN A ELSE R(s)
Median(l) == IF l = <<>> \/ ~AllFin(l) THEN A
             ELSE LET s == Sorted(l)
                      n == Len(s)
                  IN  IF n % 2 = 1 THEN Dbl(V(s[(n + 1) \div 2]))
                      ELSE LET p == Rd(Plus(V(s[n \div 2]), V(s[n \div 2 + 1]))) IN IF IsNum(p) THEN Dbl(Times(p, Num(FALSE, <<1>>, -1))) ELSE A
SortIdx(l) == IF ~Sortable(l) THEN A
              ELSE LET ix == SortSeq([i \in 1..Len(l) |-> i], LAMBDA i, j : Before(l[i], l[j])) IN
                   IF \E i \in 1..(Len(ix) - 1) : ~Before(l[ix[i]], l[ix[i + 1]]) THEN A
                   ELSE R([i \in 1..Len(ix) |-> AtomOf("i", IntV(ix[i] - 1))])
NonZero(l) == IF \E i \in DOMAIN l : ~HasTruth(l[i]) THEN A
              ELSE LET ix == SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : IsTrue(l[i])) IN R([i \in 1..Len(ix) |-> AtomOf("i", IntV(ix[i] - 1))])
(* a whole number that fits TLC, from an argument used as a count or an index *)
CountOf(x) == IF IsN(x) /\ IsNum(V(x)) /\ Fits("i", Trunc(V(x))) THEN [ok |-> TRUE, n |-> IF NBits(Trunc(V(x)).m) + Trunc(V(x)).e > 30 THEN (IF V(x).neg THEN -1 ELSE 1073741824) ELSE ToTlc(Trunc(V(x)))]
              ELSE [ok |-> FALSE, n |-> 0]
IsBlob(l) == Len(l) = 1 /\ l[1].t = "b"
CharAtom(b) == [t |-> "c", v |-> IF b > 127 THEN <<255, 255, 255, b>> ELSE <<0, 0, 0, b>>]
Nth(l, ix) == Each(LAMBDA x : LET c == CountOf(x)
                                  n == IF IsBlob(l) THEN Len(l[1].v) ELSE Len(l)
                              IN  IF ~c.ok THEN A
                                  ELSE IF c.n < 0 \/ c.n >= n THEN E
                                  ELSE IF IsBlob(l) THEN R(<<CharAtom(l[1].v[c.n + 1])>>) ELSE R(<<l[c.n + 1]>>), ix)
RECURSIVE Copies(_, _)
Copies(n, l) == IF n <= 0 THEN <<>> ELSE l \o Copies(n - 1, l)
NFill(c, l) == IF c = <<>> THEN A ELSE LET k == CountOf(c[1]) IN IF ~k.ok \/ k.n > 2000 THEN A ELSE R(Copies(k.n, l))
Head1(l) == IF l = <<>> THEN [t |-> "?", v |-> <<>>] ELSE l[1]
ASeq(a, b, st) ==
    LET x == Head1(a)
        y == Head1(b)
        z == IF st = <<>> THEN [t |-> "i", v |-> <<0, 0, 0, 1>>] ELSE Head1(st[1])
    IN  IF ~Fin(x) \/ ~Fin(y) \/ ~Fin(z) THEN A
        ELSE IF Cmp(V(x), V(y)) = 0 THEN R(<<x>>)
        ELSE LET up == Cmp(V(x), V(y)) < 0
                 step == IF st = <<>> THEN IntV(IF up THEN 1 ELSE -1) ELSE V(z)
                 fl == IsFl(x) \/ IsFl(y) \/ (st # <<>> /\ IsFl(z))
                 (* only whole numbers and multiples of 2^-10 in a small range are exact *)
                 exact(v) == IsZero(v) \/ (v.e >= -10 /\ NBits(v.m) + v.e <= 30)
                 n == QuotMag(Minus(V(y), V(x)), step).q
             IN  IF IsZero(step) \/ step.neg = up THEN E
                 ELSE IF ~exact(V(x)) \/ ~exact(V(y)) \/ ~exact(step) \/ NBits(n) > 10 THEN A
                 ELSE R([i \in 1..(ToSmall(n) + 1) |-> AtomOf(IF fl THEN "d" ELSE "i", Plus(V(x), Times(step, IntV(i - 1))))])
MinLen(ls) == LET s == {Len(ls[i]) : i \in DOMAIN ls} IN Min(s)
Weave(ls) == R(FlattenSeq([j \in 1..MinLen(ls) |-> [i \in 1..Len(ls) |-> ls[i][j]]]))
Dot(a, b) == IF ~AllFin(a) \/ ~AllFin(b) THEN A
             ELSE LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                      s == FoldLeft(LAMBDA acc, i : IF ~IsNum(acc) THEN acc ELSE LET p == Rd(Times(V(a[i]), V(b[i]))) IN IF IsNum(p) THEN Rd(Plus(acc, p)) ELSE p, Zero, [i \in 1..n |-> i])
                  IN  IF IsNum(s) THEN Dbl(s) ELSE A
Cross(a, b) ==
    IF Len(a) # 3 \/ Len(b) # 3 THEN E
    ELSE IF ~AllFin(a \o b) \/ \E i \in 1..3 : a[i].t \in {"T", "F"} \/ b[i].t \in {"T", "F"} THEN A
    ELSE LET t == CumType(a \o b)
             exact(v) == IsZero(v) \/ (v.e >= -4 /\ NBits(v.m) + v.e <= 6)
             f(i, j) == AtomOf(t, Minus(Times(V(a[i]), V(b[j])), Times(V(a[j]), V(b[i]))))
         IN  IF t \in {"f", "d"} /\ \E i \in 1..3 : ~exact(V(a[i])) \/ ~exact(V(b[i])) THEN A
             ELSE R(<<f(2, 3), f(3, 1), f(1, 2)>>)
RECURSIVE Minor(_)
(* the determinant of a matrix of values by its first row *)
Minor(m) == IF Len(m) = 1 THEN m[1][1]
            ELSE FoldLeft(LAMBDA acc, j : LET c == Times(m[1][j], Minor([i \in 1..(Len(m) - 1) |-> SubSeq(m[i + 1], 1, j - 1) \o SubSeq(m[i + 1], j + 1, Len(m))])) IN
                                          IF j % 2 = 1 THEN Plus(acc, c) ELSE Minus(acc, c), Zero, [j \in 1..Len(m) |-> j])
(* no elimination step has anything to do: at most one entry in each row and column, or upper triangular *)
Easy(m) == \/ \A i \in DOMAIN m : Cardinality({j \in DOMAIN m : ~IsZero(m[i][j])}) <= 1 /\ Cardinality({j \in DOMAIN m : ~IsZero(m[j][i])}) <= 1
           \/ \A i \in DOMAIN m : \A j \in DOMAIN m : j < i => IsZero(m[i][j])
Det(rows) ==
    LET n == Len(rows)
        small(x) == IsInt(V(x)) /\ NBits(V(x).m) + V(x).e <= 12
    IN  IF n = 1 THEN (IF rows[1] = <<>> \/ ~Fin(rows[1][1]) THEN A ELSE Dbl(V(rows[1][1])))
        ELSE IF \E i \in 1..n : Len(rows[i]) # n THEN E
        ELSE IF \E i \in 1..n : ~AllFin(rows[i]) THEN A
        ELSE LET m == [i \in 1..n |-> [j \in 1..n |-> V(rows[i][j])]] IN
             IF \E i \in 1..n : \E j \in 1..n : ~IsZero(m[i][j]) /\ ~small(rows[i][j]) THEN A
             ELSE IF n > 5 \/ (n > 3 /\ ~Easy(m) /\ \E i \in 1..n : \E j \in 1..n : Cmp(Abs(m[i][j]), IntV(8)) > 0) THEN A
             ELSE IF n > 3 /\ ~Easy(m) THEN R(<<[t |-> "~", u |-> "near", v |-> EncodeF(FloatFmt["d"], Minor(m)), p |-> 20]>>)
             ELSE LET d == Minor(m) IN R(<<AtomOf("d", IF IsZero(d) THEN Zero ELSE d)>>)
L2(l) == IF ~AllFin(l) \/ \E i \in DOMAIN l : ~IsZero(V(l[i])) /\ ~(Small(V(l[i])) /\ NBits(V(l[i]).m) + V(l[i]).e <= 12) THEN A
         ELSE Sqrt(FoldLeft(LAMBDA acc, x : Plus(acc, Times(V(x), V(x))), Zero, l))
(* the last of the extreme elements *)
Extreme(l, up) == LET best(i) == \A j \in DOMAIN l : LET c == Cmp(V(l[i]), V(l[j])) IN IF up THEN c >= 0 ELSE c <= 0 IN
                  l[Max({i \in DOMAIN l : best(i)})]
MinMax(l, ups) == IF l = <<>> \/ ~AllFin(l) THEN A ELSE R([i \in 1..Len(ups) |-> Extreme(l, ups[i])])
Spread(l) == IF l = <<>> \/ ~AllFin(l) THEN A
            ELSE LET a == Extreme(l, FALSE)
                     b == Extreme(l, TRUE)
                     v == Minus(V(b), V(a))
                 IN  IF IsFl(a) \/ IsFl(b) THEN Dbl(v) ELSE IF Exact53(v) THEN R(<<AtomOf(ByMag(v), v)>>) ELSE A
Passive == {"s", "T", "F", "N", "b", "."}
Clip(l, lo, hi) ==
    IF ~Fin(Head1(lo)) \/ ~Fin(Head1(hi)) THEN A
    ELSE Each(LAMBDA x : IF x.t \in Passive THEN R(<<x>>)
                         ELSE IF ~Fin(x) THEN A
                         ELSE LET a == V(lo[1])
                                  b == V(hi[1])
                                  v1 == IF Cmp(V(x), a) < 0 THEN a ELSE V(x)
                                  v == IF Cmp(v1, b) > 0 THEN b ELSE v1
                              IN  IF IsFl(x) \/ IsFl(lo[1]) \/ IsFl(hi[1]) THEN Dbl(v) ELSE I32(v), l)
(* linear map of [a, b] to [c, d], where the arithmetic is exact *)
Scale(l, ps) ==
    IF \E i \in 1..4 : ~Fin(Head1(ps[i])) THEN A
    ELSE LET a == V(ps[1][1])
             b == V(ps[2][1])
             c == V(ps[3][1])
             d == V(ps[4][1])
             fl == \E i \in 1..4 : IsFl(ps[i][1])
             exact(v) == IsZero(v) \/ (v.e >= -8 /\ NBits(v.m) + v.e <= 12)
             w == Minus(b, a)
             pow2 == w.m = <<1>>
         IN  IF \E i \in 1..4 : ~exact(V(ps[i][1])) THEN A
             ELSE IF ~pow2 /\ Cmp(c, d) # 0 THEN A
             ELSE Each(LAMBDA x : IF x.t \in Passive THEN R(<<x>>)
                                  ELSE IF ~Fin(x) \/ ~exact(V(x)) THEN A
                                  ELSE LET v == IF Cmp(c, d) = 0 THEN c ELSE Plus(c, DivD(Times(Minus(V(x), a), Minus(d, c)), w))
                                           z == IF IsZero(v) THEN Zero ELSE v
                                       IN  IF fl \/ IsFl(x) THEN (IF IsZero(v) THEN A ELSE Dbl(z)) ELSE I32(Trunc(z)), l)
(* integers bit by bit, in the larger type *)
TwosBytes(t, x) == EncodeI(Wrap(t, V(x)), Width[t] \div 8)
RECURSIVE BitB(_, _, _, _)
BitB(f, a, b, n) == IF n = 0 THEN 0 ELSE 2 * BitB(f, a \div 2, b \div 2, n - 1) + (IF f = "and" THEN (a % 2) * (b % 2) ELSE IF (a % 2) + (b % 2) > 0 THEN 1 ELSE 0)
Bitwise(f, a, b) ==
    IF a = <<>> \/ b = <<>> THEN A
    ELSE IF a[1].t \notin IntTypes \/ b[1].t \notin IntTypes THEN (IF {a[1].t, b[1].t} \subseteq NumT THEN A ELSE E)
    ELSE LET t == Larger(a[1], b[1])
             x == TwosBytes(t, a[1])
             y == TwosBytes(t, b[1])
         IN  R(<<AtomOf(t, DecodeI(t \in Signed, [i \in 1..Len(x) |-> BitB(f, x[i], y[i], 8)]))>>)
TypeByte == [c |-> 99, C |-> 67, u |-> 117, U |-> 85, i |-> 105, I |-> 73, h |-> 104, H |-> 72, f |-> 102, d |-> 100, T |-> 84, F |-> 70, N |-> 78, s |-> 115, b |-> 98, t |-> 116]
CodeOf(x) == IF x.t = "." THEN 46 ELSE TypeByte[x.t]
TypeTags(ls) == R(FlattenSeq([i \in 1..Len(ls) |-> [j \in 1..Len(ls[i]) |-> CharAtom(CodeOf(ls[i][j]))]]))

(* ---------------------------------------------------------------- casts --- *)
CastTo == [float32 |-> "f", float64 |-> "d", int8 |-> "c", char |-> "c", int16 |-> "u", int32 |-> "i", int64 |-> "h",
           uint8 |-> "C", uint16 |-> "U", uint32 |-> "I", uint64 |-> "H"]
Cast(t, x) == IF t \in IntTypes
              THEN IF ~IsN(x) THEN A
                   ELSE LET v == Trunc(V(x)) IN IF IsNum(v) /\ Fits(t, v) THEN R(<<AtomOf(t, v)>>) ELSE A
              ELSE IF IsN(x) THEN (IF V(x).k = "nan" THEN A ELSE R(<<AtomOf(t, V(x))>>)) ELSE A
CastBool(x) == IF HasTruth(x) THEN Truth(IsTrue(x)) ELSE A

(* -------------------------------------------------------------- strings --- *)
AllStr(l) == \A i \in DOMAIN l : l[i].t = "s"
StrLen(l) == Each(LAMBDA x : IF x.t = "s" THEN R(<<AtomOf("h", IntV(Len(x.v)))>>) ELSE A, l)
Cut0(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
(* only the sign of the result is laid down: programs look at it through sign() or a comparison with 0 *)
StrCmp(ls) ==
    IF \E i \in 1..Len(ls) : ls[i] = <<>> THEN A
    ELSE IF ls[1][1].t # "s" \/ ls[2][1].t # "s" THEN A
    ELSE LET n == IF Len(ls) = 3 THEN CountOf(ls[3][1]) ELSE [ok |-> TRUE, n |-> 1000000]
             x == Cut0(ls[1][1].v, n.n)
             y == Cut0(ls[2][1].v, n.n)
         IN  IF ~n.ok \/ n.n < 0 THEN A ELSE R(<<AtomOf("i", IntV(IF x = y THEN 0 ELSE IF StrLess(x, y) THEN -1 ELSE 1))>>)
(* of each string, the characters at the given positions *)
StrChar(ps, l) ==
    IF \E i \in DOMAIN ps : ~CountOf(ps[i]).ok THEN A
    ELSE Each(LAMBDA x : IF x.t # "s" THEN A
                         ELSE IF \E i \in DOMAIN ps : CountOf(ps[i]).n \notin 0..(Len(x.v) - 1) THEN E
                         ELSE Str1([i \in 1..Len(ps) |-> x.v[CountOf(ps[i]).n + 1]]), l)
(* where sub occurs in str from position i on, occurrences that do not overlap *)
RECURSIVE Found(_, _, _)
Found(sub, str, i) == IF i + Len(sub) - 1 > Len(str) THEN <<>>
                      ELSE IF SubSeq(str, i, i + Len(sub) - 1) = sub THEN <<i - 1>> \o Found(sub, str, i + Len(sub))
                      ELSE Found(sub, str, i + 1)
Strs(a, b) == a # <<>> /\ b # <<>> /\ a[1].t = "s" /\ b[1].t = "s"
StrFind(a, b) == IF ~Strs(a, b) \/ a[1].v = <<>> THEN A
                 ELSE LET w == Found(a[1].v, b[1].v, 1) IN R([i \in 1..Len(w) |-> AtomOf("h", IntV(w[i]))])
(* the pieces between separators, without the empty ones; any character of sep separates *)
Pieces(sep, str) ==
    LET seps == {sep[i] : i \in DOMAIN sep}
        f(acc, c) == IF c \in seps THEN (IF acc.cur = <<>> THEN acc ELSE [ps |-> Append(acc.ps, acc.cur), cur |-> <<>>])
                     ELSE [acc EXCEPT !.cur = Append(@, c)]
        z == FoldLeft(f, [ps |-> <<>>, cur |-> <<>>], str)
    IN  IF z.cur = <<>> THEN z.ps ELSE Append(z.ps, z.cur)
Split(a, b) == IF ~Strs(a, b) THEN A
               ELSE IF a[1].v = <<>> THEN R([i \in 1..Len(b[1].v) |-> CharAtom(b[1].v[i])])
               ELSE LET w == Pieces(a[1].v, b[1].v) IN R([i \in 1..Len(w) |-> [t |-> "s", v |-> w[i]]])
RECURSIVE Glue(_, _)
Glue(l, sep) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Glue(Tail(l), sep)
Joinable(x) == x.t \in {"s", "u", "U", "i", "I", "h", "H"} \/ (x.t \in {"c", "C"} /\ x.v[4] \in 1..127)
Join(sep, ls) == LET l == FlattenSeq(ls) IN
                 IF sep = <<>> \/ \E i \in DOMAIN l : ~Joinable(l[i]) THEN A
                 ELSE IF sep[1].t # "s" THEN A
                 ELSE Str1(Glue([i \in 1..Len(l) |-> IF l[i].t \in {"c", "C"} THEN <<l[i].v[4]>> ELSE TextOf(l[i])], sep[1].v))
AsString(x) ==
    CASE x.t = "s" -> R(<<x>>)
      [] x.t = "c" -> Str1(IF x.v[4] \in 32..126 THEN <<x.v[4]>> ELSE FmtInt(V(x)))
      [] x.t = "C" -> Str1(IF x.v[4] \in 32..126 THEN <<x.v[4]>> ELSE FmtInt(V(x)))
      [] x.t = "b" -> Str1(LET z == {i \in DOMAIN x.v : x.v[i] = 0} IN IF z = {} THEN x.v ELSE SubSeq(x.v, 1, Min(z) - 1))
      [] x.t \in ValueTypes -> Str1(TextOf(x))
      [] OTHER -> A
LowByte(x) == x.v[Len(x.v)]
(* the low bytes of whole numbers *)
AsBlob(l) == IF \E i \in DOMAIN l : l[i].t \notin IntTypes THEN A ELSE R(<<[t |-> "b", v |-> [i \in 1..Len(l) |-> LowByte(l[i])]]>>)
(* one argument as its bytes *)
ToBlob(x) == IF x.t = "b" THEN R(<<x>>)
             ELSE IF x.t \in IntTypes THEN R(<<[t |-> "b", v |-> SubSeq(x.v, Len(x.v) - Width[x.t] \div 8 + 1, Len(x.v))]>>) ELSE A
(* each element to the type its tag names; one tag serves for all *)
CastBy(tags, l) ==
    IF \E i \in DOMAIN tags : ~(tags[i].t = "c" \/ (tags[i].t = "s" /\ tags[i].v # <<>>)) THEN A
    ELSE IF ~(Len(tags) = 1 \/ Len(tags) >= Len(l)) THEN A
    ELSE Cat([i \in 1..Len(l) |->
              LET c == LET x == tags[IF Len(tags) = 1 THEN 1 ELSE i] IN IF x.t = "s" THEN x.v[1] ELSE LowByte(x)
                  ts == {t \in {"c", "C", "u", "U", "i", "I", "h", "H", "f", "d", "s", "b"} : TypeByte[t] = c}
              IN  IF ts = {} THEN A
                  ELSE LET t == CHOOSE t \in ts : TRUE IN CASE t = "s" -> AsString(l[i]) [] t = "b" -> ToBlob(l[i]) [] OTHER -> Cast(t, l[i])])
(* for each pattern a bundle: the addresses it matches whole, those it matches down to a slash of its own, and the others *)
MatchFn(ps, l) ==
    IF \E i \in DOMAIN ps : ps[i].t # "s" THEN A
    ELSE IF \E j \in DOMAIN l : l[j].t # "s" THEN A
    ELSE LET X(i, j) == MM!Expected(ps[i].v, l[j].v) IN
         IF \E i \in DOMAIN ps : \E j \in DOMAIN l : X(i, j)[1] < 0 \/ MM!Overlong(ps[i].v, l[j].v) THEN A
         ELSE LET bnd(i) == LET pick(p(_)) == SelectSeq([j \in 1..Len(l) |-> [x |-> l[j], m |-> X(i, j)[1]]], LAMBDA z : p(z.m))
                                vals(p(_)) == LET w == pick(p) IN [j \in 1..Len(w) |-> w[j].x]
                            IN  [t |-> ".", v |-> OO!Ser(<<[a |-> <<47, 112, 97, 116, 116, 101, 114, 110>>, d |-> <<ps[i]>>],
                                                          [a |-> <<47, 102, 117, 108, 108>>, d |-> vals(LAMBDA m : m = MM!BOTH)],
                                                          [a |-> <<47, 112, 97, 114, 116, 105, 97, 108>>, d |-> vals(LAMBDA m : m = MM!ADDRESS)],
                                                          [a |-> <<47, 117, 110, 109, 97, 116, 99, 104, 101, 100>>, d |-> vals(LAMBDA m : m \notin {MM!BOTH, MM!ADDRESS})]>>)]
              IN  R([i \in 1..Len(ps) |-> bnd(i)])
(* functions of a whole number and a number *)
Bessel(s, a, b) == IF Len(a) # 1 \/ Len(b) # 1 THEN A
                   ELSE IF ~Fin(a[1]) \/ ~Fin(b[1]) THEN A ELSE Known1(TB!Tab2, s, <<V(a[1]), V(b[1])>>)
(* notes and frequencies; what is no number stays as it is *)
Tone(s, as) == Each(LAMBDA x : IF x.t \in {"s", "T", "F", "N", "b", "."} THEN R(<<x>>)
                               ELSE IF ~Fin(x) THEN A
                               ELSE IF Len(as) = 1 THEN Known1(TB!Tab1, s, <<V(x)>>)
                               ELSE IF as[2] = <<>> THEN Known1(TB!Tab1, s, <<V(x)>>)
                               ELSE IF ~Fin(as[2][1]) THEN A ELSE Known1(TB!Tab2, s, <<V(x), V(as[2][1])>>), as[1])
(* the bytes of 32 and 64 bits in the other order *)
Swapped(s, l) ==
    Each(LAMBDA x : IF x.t \notin IntTypes THEN A
                    ELSE IF s \in {"hton32", "ntoh32"}
                    THEN IF x.t \in {"h", "H"} THEN A ELSE R(<<[t |-> IF x.t \in Signed THEN "i" ELSE "I", v |-> Reversed(EncodeI(V(x), 4))]>>)
                    ELSE IF x.t \in Signed /\ s = "hton64" THEN A
                    ELSE R(<<[t |-> IF x.t \in Signed THEN "h" ELSE "H", v |-> Reversed(EncodeI(V(x), 8))]>>), l)
TimeOf(a) == IF Len(a) > 1 THEN E ELSE IF a = <<>> THEN A
             ELSE IF a[1].t # "s" THEN E
             ELSE IF ~TT!Shape(a[1].v) THEN A
             ELSE IF ~TT!Lawful(TT!Fields(a[1].v)) \/ TT!Fields(a[1].v).y > 2035 \/ TT!Zone(a[1].v) \notin {<<>>, <<90>>} THEN A ELSE Almost("text", a[1].v, 0)
TimeFrom(a) == IF Len(a) > 1 THEN E ELSE IF a = <<>> THEN A
               ELSE IF ~IsFl(a[1]) THEN E
               ELSE IF ~IsNum(V(a[1])) THEN A
               ELSE IF V(a[1]).neg \/ NBits(V(a[1]).m) + V(a[1]).e > 31 THEN A ELSE Almost("secs", EncodeF(FloatFmt["d"], V(a[1])), 0)
(* the corners of the convex hull of points no three of which lie on a line, in the order of the list *)
Hull(as) ==
    LET two == Len(as) = 2
        n == IF two THEN Len(as[1]) ELSE Len(as[1]) \div 2
        xat(i) == IF two THEN as[1][i] ELSE as[1][2 * i - 1]
        yat(i) == IF two THEN as[2][i] ELSE as[1][2 * i]
        small(x) == IsN(x) /\ IsNum(V(x)) /\ IsInt(V(x)) /\ NBits(V(x).m) + V(x).e <= 10
    IN  IF (two /\ Len(as[1]) # Len(as[2])) \/ n < 3 \/ n > 12 THEN A
        ELSE IF \E i \in 1..n : ~small(xat(i)) \/ ~small(yat(i)) THEN A
        ELSE LET px == [i \in 1..n |-> ToTlc(V(xat(i)))]
                 py == [i \in 1..n |-> ToTlc(V(yat(i)))]
                 turn(i, j, k) == (px[j] - px[i]) * (py[k] - py[i]) - (py[j] - py[i]) * (px[k] - px[i])
                 corner(i) == \E j \in (1..n) \ {i} : \A k \in (1..n) \ {i, j} : turn(i, j, k) > 0
             IN  IF \E i, j, k \in 1..n : i < j /\ j < k /\ turn(i, j, k) = 0 THEN A
                 ELSE R(FlattenSeq([i \in 1..n |-> IF corner(i) THEN <<AtomOf("d", V(xat(i))), AtomOf("d", V(yat(i)))>> ELSE <<>>]))
ReadString(a) == IF Len(a) # 1 THEN (IF a = <<>> THEN A ELSE E) ELSE IF a[1].t # "s" THEN E ELSE R(a)

(* a function other than the ones that steer evaluation, of lists of arguments *)
Fun(s, as) ==
    LET a == IF Len(as) >= 1 THEN as[1] ELSE <<>>
        b == IF Len(as) >= 2 THEN as[2] ELSE <<>>
        c == IF Len(as) >= 3 THEN as[3] ELSE <<>>
    IN
    CASE s \in {"+", "add"} -> Bin(Add, a, b)
      [] s \in {"-", "sub"} -> Bin(Sub, a, b)
      [] s \in {"*", "mul"} -> Bin(Mul, a, b)
      [] s \in {"/", "div"} -> Bin(Div, a, b)
      [] s \in {"%", "mod"} -> Bin(Mod, a, b)
      [] s \in {"<", "lt"} -> Bin(LAMBDA x, y : Rel(LAMBDA q : q < 0, x, y), a, b)
      [] s \in {"<=", "le"} -> Bin(LAMBDA x, y : Rel(LAMBDA q : q <= 0, x, y), a, b)
      [] s \in {">", "gt"} -> Bin(LAMBDA x, y : Rel(LAMBDA q : q > 0, x, y), a, b)
      [] s \in {">=", "ge"} -> Bin(LAMBDA x, y : Rel(LAMBDA q : q >= 0, x, y), a, b)
      [] s \in {"==", "eq"} -> Bin(LAMBDA x, y : EqR(x, y, TRUE), a, b)
      [] s \in {"!=", "ne"} -> Bin(LAMBDA x, y : EqR(x, y, FALSE), a, b)
      [] s \in {"&", "and"} -> Bin(And, a, b)
      [] s \in {"|", "or"} -> Bin(Or, a, b)
      [] s \in {"++", "plus1"} -> Each(LAMBDA x : Step1(x, 1), a)
      [] s \in {"--", "minus1"} -> Each(LAMBDA x : Step1(x, -1), a)
      [] s \in {"!", "not"} -> Each(Not1, a)
      [] s \in Math1 -> IF a = <<>> THEN E ELSE Each(LAMBDA x : M1(s, x), a)
      [] s \in DOMAIN TB!Constants -> IF s \in {"degtorad", "radtodeg"} THEN Almost("d", TB!Constants[s], 15) ELSE Almost("d", TB!Constants[s], 51)
      [] s \in {"jn", "yn"} -> Bessel(s, a, b)
      [] s \in {"mtof", "ftom"} -> Tone(s, as)
      [] s \in {"hton32", "ntoh32", "hton64", "ntoh64"} -> Swapped(s, FlattenSeq(as))
      [] s = "strtotime" -> TimeOf(a)
      [] s = "floattotime" -> TimeFrom(a)
      [] s = "quickhull" -> Hull(as)
      [] s \in Math2 -> Bin(LAMBDA x, y : M2(s, x, y), a, b)
      [] s = "ilogb" -> Each(ILogb, a)
      [] s = "sign" -> Each(Sign1, a)
      [] s = "nth" -> Nth(a, FlattenSeq(Tail(as)))
      [] s = "product" -> Total(RTimes, Times, IntV(1), a)
      [] s = "sum" -> Total(RPlus, Plus, Zero, a)
      [] s = "cumsum" -> CumSum(a)
      [] s = "length" -> R(<<AtomOf("i", IntV(Len(a)))>>)
      [] s \in {"avg", "mean"} -> Mean(a)
      [] s = "median" -> Median(a)
      [] s \in {"reverse", "rev"} -> R(Reversed(a))
      [] s = "sort" -> Sort(FlattenSeq(as))
      [] s = "sortidx" -> SortIdx(a)
      [] s = "nonzero" -> NonZero(a)
      [] s = "list" -> R(FlattenSeq(as))
      [] s = "nfill" -> IF Len(as) < 2 THEN E ELSE NFill(a, b)
      [] s = "aseq" -> ASeq(a, b, SubSeq(as, 3, Len(as)))
      [] s = "interleave" -> Weave(as)
      [] s = "first" -> R(IF a = <<>> THEN <<>> ELSE <<a[1]>>)
      [] s = "last" -> R(IF a = <<>> THEN <<>> ELSE <<Last(a)>>)
      [] s = "rest" -> R(IF a = <<>> THEN <<>> ELSE Tail(a))
      [] s = "butlast" -> R(IF a = <<>> THEN <<>> ELSE Front(a))
      [] s = "dot" -> Dot(a, b)
      [] s = "cross" -> Cross(a, b)
      [] s = "det" -> Det(as)
      [] s = "l2norm" -> L2(a)
      [] s = "min" -> MinMax(a, <<FALSE>>)
      [] s = "max" -> MinMax(a, <<TRUE>>)
      [] s = "extrema" -> MinMax(a, <<FALSE, TRUE>>)
      [] s = "range" -> Spread(a)
      [] s = "clip" -> Clip(a, b, c)
      [] s = "scale" -> Scale(a, Tail(as))
      [] s = "bitand" -> Bitwise("and", a, b)
      [] s = "bitor" -> Bitwise("or", a, b)
      [] s = "typetags" -> TypeTags(as)
      [] s \in {"prog1", "identity"} -> R(a)
      [] s = "prog2" -> IF Len(as) < 2 THEN A ELSE R(b)
      [] s = "progn" -> R(Last(as))
      [] s \in DOMAIN CastTo -> Each(LAMBDA x : Cast(CastTo[s], x), a)
      [] s = "bool" -> Each(CastBool, a)
      [] s = "strlen" -> StrLen(a)
      [] s = "strcmp" -> StrCmp(as)
      [] s = "strchar" -> StrChar(a, b)
      [] s = "strfind" -> StrFind(a, b)
      [] s = "split" -> Split(a, b)
      [] s = "join" -> Join(a, Tail(as))
      [] s = "string" -> Each(AsString, a)
      [] s = "blob" -> AsBlob(a)
      [] s = "cast" -> CastBy(a, b)
      [] s = "match" -> MatchFn(a, b)
      [] s = "readstring" -> ReadString(a)
      [] OTHER -> A
=============================================================================
