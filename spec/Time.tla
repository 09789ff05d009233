-------------------------------- MODULE Time --------------------------------
(* Time tags: 64-bit fixed-point seconds since 1900-01-01T00:00:00Z, the       *)
(* calendar they are written in, and what the operations on them return.       *)
EXTENDS Num

(* ------------------------------------------------------------- calendar --- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
(* days from 1900-01-01 to the first of January of y *)
YearStart(y) == 365 * (y - 1900) + ((y - 1) \div 4 - 1899 \div 4) - ((y - 1) \div 100 - 1899 \div 100) + ((y - 1) \div 400 - 1899 \div 400)
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthLen(y, m - 1)
DayNo(c) == YearStart(c.y) + MonthStart(c.y, c.m) + c.d - 1
Date(n) == LET y == CHOOSE y \in (1899 + n \div 366)..(1900 + n \div 365) : YearStart(y) <= n /\ n < YearStart(y + 1)
               r == n - YearStart(y)
               m == CHOOSE m \in 1..12 : MonthStart(y, m) <= r /\ r < MonthStart(y, m) + MonthLen(y, m)
           IN  [y |-> y, m |-> m, d |-> r - MonthStart(y, m) + 1]
NextDay(c) == IF c.d < MonthLen(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
              ELSE IF c.m < 12 THEN [c EXCEPT !.m = @ + 1, !.d = 1]
              ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]

(* ------------------------------------------------------- fixed-point times --- *)
T(bytes) == Strip(Reversed(bytes))          \* as a natural
Tag(n) == BigEndian(n, 8)                   \* modulo 2^64
Add(a, b) == Tag(NAdd(T(a), T(b)))
Dist(a, b) == Tag(IF NCmp(T(a), T(b)) >= 0 THEN NSub(T(a), T(b)) ELSE NSub(T(b), T(a)))
Compare(a, b) == NCmp(T(a), T(b))
AbsDiff(a, b) == IF NCmp(a, b) >= 0 THEN NSub(a, b) ELSE NSub(b, a)
Sec(a) == NShr(T(a), 32)
Million == NSmall(1000000)
SecsPerDay == NSmall(86400)
(* naturals may be larger than TLC's integers: seconds of n days *)
DaySecs(n) == NMul(NSmall(n), SecsPerDay)

(* ----------------------------------------------------------------- text --- *)
D(s, i) == s[i] - 48
IsD(s, i) == s[i] \in 48..57
Two(s, i) == 10 * D(s, i) + D(s, i + 1)
Shape(s) == /\ Len(s) >= 19
            /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : IsD(s, i)
            /\ s[5] = 45 /\ s[8] = 45 /\ s[11] = 84 /\ s[14] = 58 /\ s[17] = 58
Fields(s) == [y |-> 1000 * D(s, 1) + 100 * D(s, 2) + Two(s, 3), m |-> Two(s, 6), d |-> Two(s, 9), hh |-> Two(s, 12), mm |-> Two(s, 15), ss |-> Two(s, 18)]
Lawful(f) == f.y >= 1900 /\ f.m \in 1..12 /\ f.d \in 1..MonthLen(f.y, f.m) /\ f.hh < 24 /\ f.mm < 60 /\ f.ss < 60
Secs(f) == NAdd(DaySecs(DayNo(f)), NSmall(3600 * f.hh + 60 * f.mm + f.ss))
(* digits of the fraction: from the 21st character while they last *)
RECURSIVE FracLen(_, _)
FracLen(s, i) == IF i <= Len(s) /\ IsD(s, i) THEN 1 + FracLen(s, i + 1) ELSE 0
Frac(s) == IF Len(s) >= 20 /\ s[20] = 46 THEN SubSeq(s, 21, 20 + FracLen(s, 21)) ELSE <<>>
Zone(s) == SubSeq(s, IF Len(s) >= 20 /\ s[20] = 46 THEN 21 + Len(Frac(s)) ELSE 20, Len(s))
ZoneSecs(z) == IF Len(z) = 6 THEN 60 * (60 * Two(z, 2) + Two(z, 5)) ELSE 0
(* numerator of the time over 10^digits *)
Written(s) == LET f == Fields(s)
                  z == Zone(s)
                  local == Secs(f)
                  utc == IF z # <<>> /\ z[1] = 43 THEN NSub(local, NSmall(ZoneSecs(z)))
                         ELSE IF z # <<>> /\ z[1] = 45 THEN NAdd(local, NSmall(ZoneSecs(z)))
                         ELSE local
                  p == NPow10(Len(Frac(s)))
              IN  [n |-> NAdd(NMul(utc, p), ParseDigits(Frac(s), 1, <<>>)), p |-> p]
(* |written - tag| * 2^32 * p <= slack * p, in units of 2^-32 s *)
Within(s, tag, slack) == LET w == Written(s) IN NCmp(AbsDiff(NShl(w.n, 32), NMul(T(tag), w.p)), NMul(slack, w.p)) <= 0
Micro == NSmall(4295)                        \* a microsecond in units of 2^-32 s
Few == NSmall(3)
Canonical(s) == Len(s) = 27 /\ Shape(s) /\ s[20] = 46 /\ Len(Frac(s)) = 6 /\ s[27] = 90 /\ Lawful(Fields(s))

(* ------------------------------------------------------------- seconds --- *)
SecondsOf(tag) == Num(FALSE, T(tag), -32)
(* |v - w| <= 2^-31 + w * 2^-52 *)
Near(v, w) == Cmp(Abs(Minus(v, w)), Plus(Num(FALSE, <<1>>, -31), Times(w, Num(FALSE, <<1>>, -52)))) <= 0
Slack(v, w, e) == Cmp(Abs(Minus(v, w)), e) <= 0

Prefix(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Ok(e) == LET r == e.res IN
    CASE e.op = "tt_arith" -> r = [add |-> Add(e.a, e.b), sub |-> Dist(e.a, e.b), cmp |-> Compare(e.a, e.b)]
      [] e.op = "tt_parts" -> r = [sec |-> SubSeq(e.a, 1, 4), frac |-> SubSeq(e.a, 5, 8), head |-> e.a, back |-> e.a, imm |-> IF T(e.a) = <<1>> THEN 1 ELSE 0]
      [] e.op = "tt_text" -> /\ Canonical(r.text)
                             /\ Within(r.text, e.a, Micro)
                             /\ r.size = 27
                             /\ r.r = 27
                             /\ r.end = 1
                             /\ r.cut = (IF e.n = 0 THEN <<>> ELSE Prefix(r.text, e.n - 1))
                             /\ Within(r.text, r.back, Few)
      [] e.op = "tt_parse" -> Within(e.s, r, Few)
      [] e.op = "tt_float" -> Slack(SecondsOf(r), DecodeF(FloatFmt["d"], e.d), Num(FALSE, <<3>>, -32))
      [] e.op = "tt_secs" -> Near(DecodeF(FloatFmt["d"], r), SecondsOf(e.a))
      [] e.op = "tt_now" -> LET w == NAdd(NMul(NAdd(NSmall(e.sec), <<128, 126, 170, 131>>), Million), NSmall(e.usec)) IN   \* 2208988800 s to 1970
                            NCmp(AbsDiff(NShl(w, 32), NMul(T(r), Million)), NShl(<<1>>, 32)) <= 0
=============================================================================
