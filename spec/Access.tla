------------------------------- MODULE Access -------------------------------
(* Single arguments: what every typed accessor reports of every value, the    *)
(* text of a value, setting, copying, negating, and the trip over the wire.   *)
EXTENDS Osc, Num

(* what accessor k (an integer type, "n" for int) reports: big-endian bytes   *)
Bits == [c |-> 8, C |-> 8, u |-> 16, U |-> 16, i |-> 32, I |-> 32, h |-> 64, H |-> 64, n |-> 32]
IsSigned(k) == k \in Signed \union {"n"}
IntKeys == DOMAIN Bits
FitsK(k, v) == FitsW(IsSigned(k), Bits[k], v)
IntBytes(k, v) == EncodeI(v, Bits[k] \div 8)
(* an argument's own value, byte for byte, in its own accessor *)
Own(x) == CASE x.t \in {"c", "C"} -> <<x.v[4]>>
            [] x.t \in {"u", "U"} -> SubSeq(x.v, 3, 4)
            [] OTHER -> x.v
HasValue(x) == x.t \in ValueTypes \/ (x.t = "s" /\ DecimalParts(x.v).k >= 0)
StrVal(x) == LET p == DecimalParts(x.v) IN Trunc(Num(p.neg, NDivMod(p.n, NPow10(p.k)).q, 0))

(* the value of x as accessor k must report it; [any |-> TRUE] where it has no such value *)
Free == [any |-> TRUE, b |-> <<>>]
Want(b) == [any |-> FALSE, b |-> b]
IntWant(k, x) ==
    IF x.t = k \/ (x.t = "i" /\ k = "n") THEN Want(Own(x))
    ELSE IF x.t \in ValueTypes
    THEN LET v == Trunc(ValOf(x)) IN IF FitsK(k, v) THEN Want(IntBytes(k, v)) ELSE Free
    ELSE IF x.t = "s" /\ k \notin {"c", "C"} /\ HasValue(x)
    THEN LET v == StrVal(x) IN IF FitsK(k, v) THEN Want(IntBytes(k, v)) ELSE Free
    ELSE Free
FloatWant(k, x) ==
    IF x.t = k THEN Want(x.v)
    ELSE IF x.t \in ValueTypes
    THEN LET v == ValOf(x) IN IF v.k = "nan" THEN Free ELSE Want(EncodeF(FloatFmt[k], Round(FloatFmt[k], v)))
    ELSE IF x.t = "s" /\ HasValue(x) THEN Want(EncodeF(FloatFmt[k], ParseF(FloatFmt[k], x.v)))
    ELSE Free
BoolWant(x) == IF x.t \in ValueTypes THEN (IF ValOf(x).k = "nan" \/ ~IsZero(ValOf(x)) THEN 1 ELSE 0) ELSE 0
TimeWant(x) == IF x.t = "t" THEN Want(x.v) ELSE Want(ZEROTIME)
Meets(w, b) == w.any \/ w.b = b

(* the two forms agree on whatever has a value, except for floats out of an integer type's range *)
Agree(x, k) == \/ x.t \in ValueTypes \ {"f", "d"}
               \/ x.t \in {"f", "d"} /\ k \in {"f", "d"}
               \/ x.t = "s" /\ k \notin {"c", "C"}

AccBad(x, r) ==
    {k \in IntKeys : ~Meets(IntWant(k, x), r[k])}
    \union {k \in {"f", "d"} : ~Meets(FloatWant(k, x), r[k])}
    \union (IF r.z # BoolWant(x) THEN {"z"} ELSE {})
    \union (IF ~Meets(TimeWant(x), r.t) THEN {"t"} ELSE {})
IsNaNAtom(x) == x.t \in {"f", "d"} /\ ValOf(x).k = "nan"
AccOk(x, r) == /\ AccBad(x, r.u) = {} /\ AccBad(x, r.s) = {}
               /\ \A k \in IntKeys \union {"f", "d"} : Agree(x, k) => r.u[k] = r.s[k]
               /\ IsNaNAtom(x) => DecodeF(FloatFmt.d, r.u.d).k = "nan" /\ DecodeF(FloatFmt.f, r.u.f).k = "nan"
               /\ r.size = <<Len(Payload(x)), Len(Payload(x))>>
AccExp(x) == [int |-> [k \in IntKeys |-> IntWant(k, x)], f |-> FloatWant("f", x), d |-> FloatWant("d", x), z |-> BoolWant(x), t |-> TimeWant(x)]

(* ---------------------------------------------------------------- text --- *)
TextTypes == ValueTypes \union {"s"}
(* the bytes of a blob as signed numbers *)
BlobItems(v) == FoldLeft(LAMBDA t, k : t \o (IF k = 1 THEN <<>> ELSE <<44, 32>>) \o FmtInt(DecodeI(TRUE, <<v[k]>>)), <<>>, [k \in 1..Len(v) |-> k])
Text(x) == CASE x.t = "s" -> x.v
             [] x.t \in {"c", "C"} -> <<39, x.v[4], 39>>
             [] x.t \in IntTypes -> FmtInt(ValOf(x))
             [] x.t \in {"f", "d"} -> FmtFloat(ValOf(x))
             [] x.t = "T" -> <<116, 114, 117, 101>>
             [] x.t = "F" -> <<102, 97, 108, 115, 101>>
             [] x.t = "b" -> <<98, 108, 111, 98, 40>> \o BlobItems(x.v) \o <<41>>
             [] x.t = "." -> <<>> \* a bundle has no text form
             [] OTHER -> <<110, 105, 108>>
(* a buffer of n bytes, full of '#', after the text was written to it *)
Clipped(t, n) == IF n = 0 THEN <<>>
                 ELSE LET k == IF Len(t) < n - 1 THEN Len(t) ELSE n - 1
                      IN  SubSeq(t, 1, k) \o <<0>> \o [i \in 1..(n - 1 - k) |-> 35]
TextExp(x, n) == LET t == Text(x)
                     r == [len |-> Len(t), r |-> Len(t), all |-> Append(t, 0), rn |-> Len(t), n |-> Clipped(t, n)]
                 IN  [u |-> r, s |-> r]

(* ------------------------------------------------------------- blob copy --- *)
BlobTypes == {"b", "i", "I", "h", "H", "f", "d", "t", "s"}
BlobBytes(x) == IF x.t = "b" THEN x.v ELSE Payload(x)
(* a string is copied with the whole room given, for the unserialised form *)
BlobExp(x, r) == LET w == BlobBytes(x)
                     padded(b) == Len(b) >= Len(w) /\ SubSeq(b, 1, Len(w)) = w /\ \A i \in (Len(w) + 1)..Len(b) : b[i] = 0
                 IN  /\ r.u = w /\ r.s = w /\ r.sb = w
                     /\ IF x.t = "s" THEN padded(r.ub) ELSE r.ub = w
                     /\ r.isblob = (IF x.t = "b" THEN <<1, 1>> ELSE <<0, 0>>)

(* ------------------------------------------------------------- negation --- *)
FlipSign(s) == [s EXCEPT ![1] = (@ + 128) % 256]
NegType(t) == CASE t = "C" -> "c" [] t = "U" -> "u" [] t = "I" -> "i" [] t = "H" -> "h" [] OTHER -> t
Negation(x) == IF x.t \in IntTypes THEN AtomOf(NegType(x.t), Neg(ValOf(x)))
               ELSE IF x.t \in {"f", "d"} THEN [x EXCEPT !.v = FlipSign(@)]
               ELSE x

(* ------------------------------------------------------ a table of atoms --- *)
NoAtom == [t |-> "nil", v |-> <<>>]
A0 == <<NoAtom, NoAtom, NoAtom, NoAtom>>
Put1(st, k, x) == [st EXCEPT ![k + 1] = x]
Apply(st, e) ==
    CASE e.op = "aset" -> Put1(st, e.k, NormAtom(e.x))
      [] e.op \in {"acopy", "aser"} -> IF st[e.j + 1] = NoAtom THEN st ELSE Put1(st, e.k, st[e.j + 1])
      [] e.op = "aneg" -> IF st[e.k + 1] = NoAtom THEN st ELSE Put1(st, e.k, Negation(st[e.k + 1]))
      [] e.op = "afree" -> Put1(st, e.k, NoAtom)
      [] OTHER -> st

(* one event of a trace: is the reported result right, and what should it be *)
Ok(st, e) ==
    CASE e.op = "acc" -> AccOk(e.x, e.res)
      [] e.op = "text" -> e.res = TextExp(e.x, e.n)
      [] e.op = "blob" -> BlobExp(e.x, e.res)
      [] e.op = "sset" -> e.res = (IF e.neg = 1 THEN Negation(e.y) ELSE e.y)
      [] e.op = "sneg" -> e.res = Negation(e.x)
      [] OTHER -> e.res = Apply(st, e)
Exp(st, e) ==
    CASE e.op = "acc" -> [bad |-> <<AccBad(e.x, e.res.u), AccBad(e.x, e.res.s)>>, exp |-> AccExp(e.x)]
      [] e.op = "text" -> TextExp(e.x, e.n)
      [] e.op = "blob" -> [blob |-> BlobBytes(e.x)]
      [] e.op = "sset" -> (IF e.neg = 1 THEN Negation(e.y) ELSE e.y)
      [] e.op = "sneg" -> Negation(e.x)
      [] OTHER -> Apply(st, e)
=============================================================================
