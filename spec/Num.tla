-------------------------------- MODULE Num --------------------------------
(* Exact numbers for TLC, whose own integers have 32 bits.                    *)
(*   natural   little-endian bytes, no trailing zero                          *)
(*   value     [k |-> "num" | "inf" | "nan", neg, m |-> natural, e |-> Int]:   *)
(*             (-1)^neg * m * 2^e, m odd or empty (then e = 0)                 *)
(* with the machine encodings of OSC's integer and IEEE 754 types, correctly   *)
(* rounded where a result is not representable.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

(* ------------------------------------------------------------- naturals --- *)
Strip(s) == LET nz == {i \in DOMAIN s : s[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(s, 1, Max(nz))
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
Pow2(i) == P2[i + 1]
Dig(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0

RECURSIVE NSmall(_)
NSmall(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NSmall(n \div 256)

RECURSIVE Carry(_, _, _)
(* normalise digits that may exceed a byte *)
Carry(s, i, c) == IF i > Len(s) THEN NSmall(c)
                  ELSE LET x == s[i] + c IN <<x % 256>> \o Carry(s, i + 1, x \div 256)
NAdd(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN
              Carry([i \in 1..n |-> Dig(a, i) + Dig(b, i)], 1, 0)
RECURSIVE SubB(_, _, _, _)
SubB(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET x == a[i] - Dig(b, i) - c IN
                         <<IF x < 0 THEN x + 256 ELSE x>> \o SubB(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)
NSub(a, b) == Strip(SubB(a, b, 1, 0))                                   \* a >= b
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, i) == IF i > Len(a) THEN 0 ELSE a[i] * Dig(b, k + 1 - i) + SumTo(a, b, k, i + 1)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE IF a = <<1>> THEN b ELSE IF b = <<1>> THEN a
              ELSE Strip(Carry([k \in 1..(Len(a) + Len(b) - 1) |-> SumTo(a, b, k, 1)], 1, 0))
NShl(a, k) == IF a = <<>> \/ k = 0 THEN a
              ELSE [i \in 1..(k \div 8) |-> 0] \o (IF k % 8 = 0 THEN a ELSE Carry([i \in 1..Len(a) |-> a[i] * Pow2(k % 8)], 1, 0))
NShr(a, k) == IF k = 0 THEN a
              ELSE IF k \div 8 >= Len(a) THEN <<>>
              ELSE LET s == SubSeq(a, k \div 8 + 1, Len(a))
                       r == k % 8
                   IN  IF r = 0 THEN s
                       ELSE Strip([i \in 1..Len(s) |-> (s[i] \div Pow2(r)) + (Dig(s, i + 1) % Pow2(r)) * Pow2(8 - r)])
BitsOf(b) == IF b >= 128 THEN 8 ELSE IF b >= 64 THEN 7 ELSE IF b >= 32 THEN 6 ELSE IF b >= 16 THEN 5
             ELSE IF b >= 8 THEN 4 ELSE IF b >= 4 THEN 3 ELSE IF b >= 2 THEN 2 ELSE b
NBits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + BitsOf(a[Len(a)])
NBit(a, i) == (Dig(a, i \div 8 + 1) \div Pow2(i % 8)) % 2                 \* bit i, from 0
Tz(b) == CHOOSE i \in 0..7 : b % Pow2(i + 1) # 0 /\ b % Pow2(i) = 0
(* trailing zero bits of a non-zero natural *)
NTz(a) == LET i == CHOOSE i \in DOMAIN a : a[i] # 0 /\ \A j \in 1..(i - 1) : a[j] = 0 IN 8 * (i - 1) + Tz(a[i])
RECURSIVE DivDigit(_, _, _, _)
(* the largest d in lo..hi with d * b <= r *)
DivDigit(r, b, lo, hi) == IF lo = hi THEN lo
                          ELSE LET mid == (lo + hi + 1) \div 2 IN
                               IF NCmp(NMul(b, <<mid>>), r) <= 0 THEN DivDigit(r, b, mid, hi) ELSE DivDigit(r, b, lo, mid - 1)
RECURSIVE DivStep(_, _, _, _)
(* bytes i..1 of a, remainder r so far; the quotient's digits from the top *)
DivStep(a, b, i, r) ==
    IF i = 0 THEN [q |-> <<>>, r |-> r]
    ELSE LET r2 == Strip(<<a[i]>> \o r) IN
         IF NCmp(r2, b) < 0 THEN LET x == DivStep(a, b, i - 1, r2) IN [q |-> Append(x.q, 0), r |-> x.r]
         ELSE LET d == DivDigit(r2, b, 1, 255)
                  x == DivStep(a, b, i - 1, NSub(r2, NMul(b, <<d>>)))
              IN  [q |-> Append(x.q, d), r |-> x.r]
RECURSIVE DivSmall(_, _, _, _)
DivSmall(a, d, i, r) == IF i = 0 THEN [q |-> <<>>, r |-> r]
                        ELSE LET x == r * 256 + a[i]
                                 rest == DivSmall(a, d, i - 1, x % d)
                             IN  [q |-> Append(rest.q, x \div d), r |-> rest.r]
RECURSIVE ToSmall(_)
ToSmall(a) == IF a = <<>> THEN 0 ELSE Head(a) + 256 * ToSmall(Tail(a))     \* at most 3 bytes, or 4 with the top bit clear
NDivMod(a, b) == IF NCmp(a, b) < 0 THEN [q |-> <<>>, r |-> a]
                 ELSE IF Len(b) <= 2 THEN LET x == DivSmall(a, ToSmall(b), Len(a), 0) IN [q |-> Strip(x.q), r |-> NSmall(x.r)]
                 ELSE LET x == DivStep(a, b, Len(a), <<>>) IN [q |-> Strip(x.q), r |-> x.r]
RECURSIVE SlowPow10(_)
SlowPow10(n) == IF n = 0 THEN <<1>> ELSE NMul(<<10>>, SlowPow10(n - 1))
P10 == [n \in 0..24 |-> SlowPow10(n)]
RECURSIVE NPow10(_)
NPow10(n) == IF n <= 24 THEN P10[n] ELSE NMul(P10[24], NPow10(n - 24))
RECURSIVE Digits(_)
(* decimal digits as characters *)
Digits(a) == IF a = <<>> THEN <<>> ELSE LET x == DivSmall(a, 10, Len(a), 0) IN Append(Digits(Strip(x.q)), 48 + x.r)
Decimal(a) == IF a = <<>> THEN <<48>> ELSE Digits(a)

(* --------------------------------------------------------------- values --- *)
Zero == [k |-> "num", neg |-> FALSE, m |-> <<>>, e |-> 0]
NegZero == [Zero EXCEPT !.neg = TRUE]
Inf(neg) == [k |-> "inf", neg |-> neg, m |-> <<>>, e |-> 0]
NaN == [k |-> "nan", neg |-> FALSE, m |-> <<>>, e |-> 0]
Num(neg, m, e) == IF m = <<>> THEN [Zero EXCEPT !.neg = neg]
                  ELSE LET z == NTz(m) IN [k |-> "num", neg |-> neg, m |-> NShr(m, z), e |-> e + z]
IntV(n) == IF n < 0 THEN Num(TRUE, NSmall(-n), 0) ELSE Num(FALSE, NSmall(n), 0)
IsNum(v) == v.k = "num"
IsZero(v) == IsNum(v) /\ v.m = <<>>
Abs(v) == [v EXCEPT !.neg = FALSE]
Neg(v) == IF v.k = "nan" THEN v ELSE [v EXCEPT !.neg = ~v.neg]
Same(v, w) == v = w \/ (IsZero(v) /\ IsZero(w))
IsInt(v) == IsNum(v) /\ v.e >= 0
(* the magnitude of an integer *)
Mag(v) == NShl(v.m, v.e)
(* towards zero *)
Trunc(v) == IF ~IsNum(v) \/ v.e >= 0 THEN v ELSE LET m == NShr(v.m, -v.e) IN IF m = <<>> THEN Zero ELSE Num(v.neg, m, 0)
RECURSIVE ToTlc(_)
(* a small integer as TLC's own *)
ToTlc(v) == IF v.neg THEN -ToSmall(Mag(v)) ELSE ToSmall(Mag(v))

MagCmp(v, w) == LET e == IF v.e < w.e THEN v.e ELSE w.e IN NCmp(NShl(v.m, v.e - e), NShl(w.m, w.e - e))
(* comparison of numbers and infinities *)
Cmp(v, w) ==
    IF IsZero(v) /\ IsZero(w) THEN 0
    ELSE IF v.k = "inf" \/ w.k = "inf"
         THEN LET r(x) == IF x.k # "inf" THEN 0 ELSE IF x.neg THEN -1 ELSE 1 IN
              IF r(v) < r(w) THEN -1 ELSE IF r(v) > r(w) THEN 1 ELSE 0
    ELSE IF IsZero(v) THEN (IF w.neg THEN 1 ELSE -1)
    ELSE IF IsZero(w) THEN (IF v.neg THEN -1 ELSE 1)
    ELSE IF v.neg # w.neg THEN (IF v.neg THEN -1 ELSE 1)
    ELSE IF v.neg THEN -MagCmp(v, w) ELSE MagCmp(v, w)

(* exact sum and product of finite numbers *)
Plus(v, w) ==
    IF IsZero(v) THEN (IF IsZero(w) THEN [Zero EXCEPT !.neg = v.neg /\ w.neg] ELSE w)
    ELSE IF IsZero(w) THEN v
    ELSE LET e == IF v.e < w.e THEN v.e ELSE w.e
             a == NShl(v.m, v.e - e)
             b == NShl(w.m, w.e - e)
         IN  IF v.neg = w.neg THEN Num(v.neg, NAdd(a, b), e)
             ELSE LET c == NCmp(a, b) IN
                  IF c = 0 THEN Zero ELSE IF c > 0 THEN Num(v.neg, NSub(a, b), e) ELSE Num(w.neg, NSub(b, a), e)
Minus(v, w) == Plus(v, Neg(w))
Times(v, w) == Num(v.neg # w.neg, NMul(v.m, w.m), v.e + w.e)
(* integer quotient towards zero and floor, by a non-zero number, of finite numbers *)
QuotMag(v, w) == LET e == IF v.e < w.e THEN v.e ELSE w.e IN NDivMod(NShl(v.m, v.e - e), NShl(w.m, w.e - e))
Quot(v, w) == LET q == QuotMag(v, w).q IN IF q = <<>> THEN Zero ELSE Num(v.neg # w.neg, q, 0)
FloorDiv(v, w) == LET x == QuotMag(v, w) IN
                  IF v.neg # w.neg /\ x.r # <<>> THEN Num(TRUE, NAdd(x.q, <<1>>), 0) ELSE IF x.q = <<>> THEN Zero ELSE Num(v.neg # w.neg, x.q, 0)
FloorMod(v, w) == Minus(v, Times(w, FloorDiv(v, w)))
Floor(v) == FloorDiv(v, IntV(1))

(* ------------------------------------------------------------- IEEE 754 --- *)
FloatFmt == [f |-> [p |-> 24, emin |-> -126, emax |-> 127, bytes |-> 4], d |-> [p |-> 53, emin |-> -1022, emax |-> 1023, bytes |-> 8]]
(* round num/den (naturals times 2^e, den > 0) to the format: nearest, ties to even *)
RoundQ(F, neg, num, den, e) ==
    IF num = <<>> THEN [Zero EXCEPT !.neg = neg]
    ELSE LET sh == LET s == F.p + 2 + NBits(den) - NBits(num) IN IF s < 0 THEN 0 ELSE s     \* quotient has at least p + 1 bits
             x == IF den = <<1>> THEN [q |-> NShl(num, sh), r |-> <<>>] ELSE NDivMod(NShl(num, sh), den)
             eq == e - sh                                   \* value is (q + r/den) * 2^eq
             top == eq + NBits(x.q) - 1
             lo == IF top < F.emin THEN F.emin - (F.p - 1) ELSE top - (F.p - 1)               \* exponent of the last bit kept
             cut == lo - eq
         IN  IF cut <= 0 THEN Num(neg, x.q, eq)             \* only when r = 0
             ELSE LET k == NShr(x.q, cut)
                      half == NBit(x.q, cut - 1) = 1
                      rest == x.r # <<>> \/ (cut > 1 /\ NTz(x.q) < cut - 1)
                      up == half /\ (rest \/ NBit(k, 0) = 1)
                      m == IF up THEN NAdd(k, <<1>>) ELSE k
                  IN  IF m # <<>> /\ lo + NBits(m) - 1 > F.emax THEN Inf(neg) ELSE Num(neg, m, lo)
Round(F, v) == IF ~IsNum(v) THEN v ELSE RoundQ(F, v.neg, v.m, <<1>>, v.e)
(* v is exactly representable *)
Exact(F, v) == ~IsNum(v) \/ Same(Round(F, v), v)

DecodeF(F, s) ==   \* s big-endian
    LET neg == s[1] >= 128
        eb == IF F.bytes = 8 THEN 11 ELSE 8
        ex == IF F.bytes = 8 THEN (s[1] % 128) * 16 + s[2] \div 16 ELSE (s[1] % 128) * 2 + s[2] \div 128
        fr == Strip([i \in 1..(F.bytes - 1) |-> LET b == s[F.bytes + 1 - i] IN
                     IF i < F.bytes - 1 THEN b ELSE IF F.bytes = 8 THEN b % 16 ELSE b % 128])
        emaxb == IF F.bytes = 8 THEN 2047 ELSE 255
    IN  IF ex = emaxb THEN (IF fr = <<>> THEN Inf(neg) ELSE NaN)
        ELSE IF ex = 0 THEN Num(neg, fr, F.emin - (F.p - 1))
        ELSE Num(neg, NAdd(fr, NShl(<<1>>, F.p - 1)), ex - F.emax - (F.p - 1))
BigEndian(m, n) == [i \in 1..n |-> Dig(m, n + 1 - i)]
EncodeF(F, v) ==   \* v representable
    LET eb == IF F.bytes = 8 THEN 2047 ELSE 255
        sign == NShl(<<1>>, 8 * F.bytes - 1)
        body == IF v.k = "inf" THEN NShl(NSmall(eb), F.p - 1)
                ELSE IF v.k = "nan" THEN NShl(NSmall(2 * eb + 1), F.p - 2)
                ELSE IF v.m = <<>> THEN <<>>
                ELSE LET top == v.e + NBits(v.m) - 1 IN
                     IF top < F.emin THEN NShl(v.m, v.e - (F.emin - (F.p - 1)))
                     ELSE LET m == NShl(v.m, F.p - NBits(v.m)) IN
                          NAdd(NSub(m, NShl(<<1>>, F.p - 1)), NShl(NSmall(top + F.emax), F.p - 1))
    IN  BigEndian(IF v.neg THEN NAdd(body, sign) ELSE body, F.bytes)

(* ------------------------------------------------------------- integers --- *)
(* the widths of the integer types, and of their OSC encodings *)
IntTypes == {"c", "C", "u", "U", "i", "I", "h", "H"}
Signed == {"c", "u", "i", "h"}
Width == [c |-> 8, C |-> 8, u |-> 16, U |-> 16, i |-> 32, I |-> 32, h |-> 64, H |-> 64]
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
DecodeI(signed, s) == LET m == Strip(Reversed(s)) IN
                      IF signed /\ s[1] >= 128 THEN Num(TRUE, NSub(NShl(<<1>>, 8 * Len(s)), m), 0) ELSE Num(FALSE, m, 0)
(* n bytes, big-endian, two's complement, of an integer that fits *)
EncodeI(v, n) == IF v.neg /\ v.m # <<>> THEN BigEndian(NSub(NShl(<<1>>, 8 * n), Mag(v)), n) ELSE BigEndian(Mag(v), n)
FitsW(signed, w, v) ==
    /\ IsInt(v)
    /\ IF v.neg /\ v.m # <<>>
       THEN signed /\ NCmp(Mag(v), NShl(<<1>>, w - 1)) <= 0
       ELSE NBits(Mag(v)) <= (IF signed THEN w - 1 ELSE w)
Fits(t, v) == FitsW(t \in Signed, Width[t], v)
(* modulo 2^w, in the type's range *)
WrapW(signed, w, v) == LET r == FloorMod(v, Num(FALSE, <<1>>, w)) IN
                       IF signed /\ NBits(Mag(r)) = w THEN Minus(r, Num(FALSE, <<1>>, w)) ELSE r
Wrap(t, v) == WrapW(t \in Signed, Width[t], v)

(* ----------------------------------------------------------- arguments --- *)
NumTypes == IntTypes \union {"f", "d"}
ValueTypes == NumTypes \union {"T", "F", "N"}
OscBytes(t) == IF t \in {"h", "H", "d"} THEN 8 ELSE 4
(* the value of an argument [t, v] of a ValueType *)
ValOf(x) == CASE x.t \in IntTypes -> DecodeI(x.t \in Signed, x.v)
              [] x.t \in {"f", "d"} -> DecodeF(FloatFmt[x.t], x.v)
              [] x.t = "T" -> IntV(1)
              [] OTHER -> Zero
(* the argument of numeric type t holding v, rounded or wrapped if need be *)
AtomOf(t, v) == [t |-> t, v |-> IF t \in IntTypes THEN EncodeI(Wrap(t, v), OscBytes(t)) ELSE EncodeF(FloatFmt[t], Round(FloatFmt[t], v))]

(* ---------------------------------------------------------------- text --- *)
RECURSIVE ParseDigits(_, _, _)
ParseDigits(s, i, acc) == IF i > Len(s) THEN acc ELSE ParseDigits(s, i + 1, NAdd(NMul(acc, <<10>>), IF s[i] = 48 THEN <<>> ELSE <<s[i] - 48>>))
IsDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
(* "-12.5": [neg, n |-> digits as a natural, k |-> digits after the point], or k = -1 *)
DecimalParts(s0) ==
    LET neg == s0 # <<>> /\ s0[1] = 45
        s == IF neg THEN Tail(s0) ELSE s0
        dots == {i \in DOMAIN s : s[i] = 46}
        d == IF dots = {} THEN Len(s) + 1 ELSE Min(dots)
        a == SubSeq(s, 1, d - 1)
        b == SubSeq(s, d + 1, Len(s))
    IN  IF IsDigits(a) /\ (b = <<>> \/ IsDigits(b)) THEN [neg |-> neg, n |-> ParseDigits(a \o b, 1, <<>>), k |-> Len(b)]
        ELSE [neg |-> FALSE, n |-> <<>>, k |-> -1]
(* the nearest number of the format *)
ParseF(F, s) == LET p == DecimalParts(s) IN RoundQ(F, p.neg, p.n, NPow10(p.k), 0)

(* round(v * 10^k) to the nearest integer, ties to even; v >= 0 *)
ScaleTen(v, k) ==
    LET num == IF v.e >= 0 THEN Mag(v) ELSE v.m
        den == IF v.e >= 0 THEN <<1>> ELSE NShl(<<1>>, -v.e)
        a == IF k >= 0 THEN NMul(num, NPow10(k)) ELSE num
        b == IF k >= 0 THEN den ELSE NMul(den, NPow10(-k))
        x == NDivMod(a, b)
        c == NCmp(NShl(x.r, 1), b)
    IN  IF c > 0 \/ (c = 0 /\ NBit(x.q, 0) = 1) THEN NAdd(x.q, <<1>>) ELSE x.q
RECURSIVE DecExp(_, _)
(* the largest x with 10^x <= v, v > 0, searching from x *)
DecExp(v, x) ==
    LET ge(y) == IF y >= 0 THEN Cmp(v, Num(FALSE, NPow10(y), 0)) >= 0 ELSE Cmp(Times(v, Num(FALSE, NPow10(-y), 0)), IntV(1)) >= 0
    IN  IF ge(x) THEN (IF ge(x + 1) THEN DecExp(v, x + 1) ELSE x) ELSE DecExp(v, x - 1)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ Last(s) = 48 THEN StripZeros(Front(s)) ELSE s
(* C's %g, six significant digits, of a finite number *)
FmtG(v0) ==
    LET sg == IF v0.neg THEN <<45>> ELSE <<>>
        v == Abs(v0)
    IN  IF v0.k = "inf" THEN sg \o <<105, 110, 102>>
        ELSE IF v.m = <<>> THEN Append(sg, 48)
        ELSE LET bits == v.e + NBits(v.m)
                 x0 == DecExp(v, IF bits >= 0 THEN (bits * 3) \div 10 ELSE -((-bits) * 3) \div 10)
                 r == ScaleTen(v, 5 - x0)
                 over == Len(Decimal(r)) = 7
                 x == IF over THEN x0 + 1 ELSE x0
                 ds == IF over THEN SubSeq(Decimal(r), 1, 6) ELSE Decimal(r)      \* six digits
                 frac(s) == LET t == StripZeros(s) IN IF t = <<>> THEN <<>> ELSE <<46>> \o t
             IN  sg \o
                 IF x < -4 \/ x >= 6
                 THEN LET ax == IF x < 0 THEN -x ELSE x
                          es == Decimal(NSmall(ax))
                      IN  <<ds[1]>> \o frac(Tail(ds)) \o <<101, IF x < 0 THEN 45 ELSE 43>> \o (IF Len(es) = 1 THEN <<48>> \o es ELSE es)
                 ELSE IF x < 0 THEN <<48>> \o frac([i \in 1..(-x - 1) |-> 48] \o ds)
                 ELSE SubSeq(ds, 1, x + 1) \o frac(SubSeq(ds, x + 2, 6))
(* libo's floats: a trailing point marks whole numbers below a million *)
FmtFloat(v) == IF v.k = "nan" THEN <<110, 97, 110>>
               ELSE IF IsNum(v) /\ IsInt(v) /\ Cmp(Abs(v), IntV(1000000)) < 0 THEN Append(FmtG(v), 46)
               ELSE FmtG(v)
FmtInt(v) == (IF v.neg /\ v.m # <<>> THEN <<45>> ELSE <<>>) \o Decimal(Mag(v))
=============================================================================
