-------------------------------- MODULE Osc --------------------------------
(* OSC data as libo holds it, and its wire format, both directions.           *)
(*   atom    [t |-> one-letter type, v |-> bytes]                             *)
(*   message [a |-> address bytes, d |-> sequence of atoms]                   *)
(*   bundle  sequence of messages                                             *)
(* An atom's v: 4 bytes for c C u U i I f (small integers extended to 32      *)
(* bits), 8 for h H d t, the characters of a string, the data of a blob, the  *)
(* serialised form of a nested bundle, nothing for T F N.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NULLADDR == <<-1>>                       \* a message without an address
NilMsg == [a |-> <<-2>>, d |-> <<>>]     \* an empty slot
NilBndl == <<NilMsg>>
HASHBUNDLE == <<35, 98, 117, 110, 100, 108, 101, 0>>
ZEROTIME == <<0, 0, 0, 0, 0, 0, 0, 0>>

Types4 == {"c", "C", "u", "U", "i", "I", "f"}
Types8 == {"h", "H", "d", "t"}
Types0 == {"T", "F", "N"}
TypeCode == [c |-> 99, C |-> 67, u |-> 117, U |-> 85, i |-> 105, I |-> 73, h |-> 104, H |-> 72, f |-> 102, d |-> 100,
             s |-> 115, T |-> 84, F |-> 70, N |-> 78, t |-> 116, b |-> 98] @@ ("." :> 46)
TypeName == (99 :> "c") @@ (67 :> "C") @@ (117 :> "u") @@ (85 :> "U") @@ (105 :> "i") @@ (73 :> "I") @@ (104 :> "h") @@ (72 :> "H")
            @@ (102 :> "f") @@ (100 :> "d") @@ (115 :> "s") @@ (84 :> "T") @@ (70 :> "F") @@ (78 :> "N") @@ (116 :> "t")
            @@ (98 :> "b") @@ (46 :> ".")
TypeCodes == DOMAIN TypeName

Zeros(n) == [i \in 1..n |-> 0]
Pad4(n) == ((n + 3) \div 4) * 4
PadStr(s) == s \o Zeros(((Len(s) + 4) \div 4) * 4 - Len(s))      \* at least one zero byte
Int4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

(* ------------------------------------------------------------- encoding --- *)
Payload(x) ==
    CASE x.t = "s" -> PadStr(x.v)
      [] x.t = "b" -> Int4(Len(x.v)) \o x.v \o Zeros(Pad4(Len(x.v)) - Len(x.v))
      [] x.t = "." -> Int4(Len(x.v)) \o x.v
      [] OTHER -> x.v

Typetags(m) == <<44>> \o [i \in 1..Len(m.d) |-> TypeCode[m.d[i].t]]
MsgBody(m) == PadStr(m.a) \o PadStr(Typetags(m)) \o FlattenSeq([i \in 1..Len(m.d) |-> Payload(m.d[i])])
SerMsg(m) == IF m.a = NULLADDR THEN <<>> ELSE LET b == MsgBody(m) IN Int4(Len(b)) \o b
SerAt(time, b) == HASHBUNDLE \o time \o FlattenSeq([i \in 1..Len(b) |-> SerMsg(b[i])])
Ser(b) == SerAt(ZEROTIME, b)

(* ------------------------------------------------------------- decoding --- *)
(* B(s, i) is the big-endian number at index i; anything at or above 2^24 is   *)
(* only ever too large here                                                    *)
BIG == 16777216
B4(s, i) == IF s[i] # 0 THEN BIG ELSE s[i + 1] * 65536 + s[i + 2] * 256 + s[i + 3]

RECURSIVE ZeroFrom(_, _, _)
(* first index in i..e with s[index] = 0, or e + 1 *)
ZeroFrom(s, i, e) == IF i > e THEN e + 1 ELSE IF s[i] = 0 THEN i ELSE ZeroFrom(s, i + 1, e)

AllZero(s, i, e) == \A k \in i..e : s[k] = 0

(* a padded string in s[i..e]: index after it, or 0 if there is none *)
StrEnd(s, i, e) == LET z == ZeroFrom(s, i, e)
                       n == z - i                        \* characters
                       x == i + ((n + 4) \div 4) * 4
                   IN  IF z > e \/ x - 1 > e \/ ~AllZero(s, z, x - 1) THEN 0 ELSE x

RECURSIVE WfBundle(_, _, _), WfMsgs(_, _, _), WfArgs(_, _, _, _, _)
(* s[i..e] is a well-formed bundle *)
WfBundle(s, i, e) == /\ e - i + 1 >= 16
                     /\ SubSeq(s, i, i + 7) = HASHBUNDLE
                     /\ WfMsgs(s, i + 16, e)
(* s[i..e] is a sequence of size-prefixed messages *)
WfMsgs(s, i, e) ==
    IF i = e + 1 THEN TRUE
    ELSE /\ i + 3 <= e
         /\ LET n == B4(s, i) IN
            /\ n % 4 = 0
            /\ i + 3 + n <= e
            /\ LET f == i + 4
                   x == i + 3 + n
                   ta == StrEnd(s, f, x)
               IN  /\ n > 0 /\ s[f] = 47 /\ ta # 0
                   /\ ta <= x /\ s[ta] = 44
                   /\ LET pa == StrEnd(s, ta, x) IN
                      /\ pa # 0
                      /\ WfArgs(s, ta + 1, ZeroFrom(s, ta, x) - 1, pa, x)
            /\ WfMsgs(s, i + 4 + n, e)
(* typetags s[k..kz], payloads from p, message ends at x *)
WfArgs(s, k, kz, p, x) ==
    IF k > kz THEN p = x + 1
    ELSE /\ s[k] \in TypeCodes
         /\ LET t == TypeName[s[k]] IN
            CASE t \in Types0 -> WfArgs(s, k + 1, kz, p, x)
              [] t \in Types4 -> p + 3 <= x /\ WfArgs(s, k + 1, kz, p + 4, x)
              [] t \in Types8 -> p + 7 <= x /\ WfArgs(s, k + 1, kz, p + 8, x)
              [] t = "s" -> LET q == StrEnd(s, p, x) IN q # 0 /\ WfArgs(s, k + 1, kz, q, x)
              [] t = "b" -> /\ p + 3 <= x
                            /\ LET n == B4(s, p) IN
                               /\ p + 3 + Pad4(n) <= x
                               /\ WfArgs(s, k + 1, kz, p + 4 + Pad4(n), x)
              [] OTHER   -> /\ p + 3 <= x
                            /\ LET n == B4(s, p) IN
                               /\ p + 3 + n <= x
                               /\ WfBundle(s, p + 4, p + 3 + n)
                               /\ WfArgs(s, k + 1, kz, p + 4 + n, x)
WellFormed(s) == WfBundle(s, 1, Len(s))

RECURSIVE ParseArgs(_, _, _, _), ParseMsgs(_, _)
ParseArgs(s, k, kz, p) ==
    IF k > kz THEN <<>>
    ELSE LET t == TypeName[s[k]] IN
         CASE t \in Types0 -> <<[t |-> t, v |-> <<>>]>> \o ParseArgs(s, k + 1, kz, p)
           [] t \in Types4 -> <<[t |-> t, v |-> SubSeq(s, p, p + 3)]>> \o ParseArgs(s, k + 1, kz, p + 4)
           [] t \in Types8 -> <<[t |-> t, v |-> SubSeq(s, p, p + 7)]>> \o ParseArgs(s, k + 1, kz, p + 8)
           [] t = "s" -> LET z == ZeroFrom(s, p, Len(s)) IN
                         <<[t |-> t, v |-> SubSeq(s, p, z - 1)]>> \o ParseArgs(s, k + 1, kz, StrEnd(s, p, Len(s)))
           [] t = "b" -> LET n == B4(s, p) IN
                         <<[t |-> t, v |-> SubSeq(s, p + 4, p + 3 + n)]>> \o ParseArgs(s, k + 1, kz, p + 4 + Pad4(n))
           [] OTHER   -> LET n == B4(s, p) IN
                         <<[t |-> t, v |-> SubSeq(s, p + 4, p + 3 + n)]>> \o ParseArgs(s, k + 1, kz, p + 4 + n)
(* the message whose size field is at i *)
ParseMsg(s, i) == LET ta == StrEnd(s, i + 4, Len(s)) IN
                  [a |-> SubSeq(s, i + 4, ZeroFrom(s, i + 4, Len(s)) - 1),
                   d |-> ParseArgs(s, ta + 1, ZeroFrom(s, ta, Len(s)) - 1, StrEnd(s, ta, Len(s)))]
ParseMsgs(s, i) == IF i > Len(s) THEN <<>> ELSE <<ParseMsg(s, i)>> \o ParseMsgs(s, i + 4 + B4(s, i))
Parse(s) == ParseMsgs(s, 17)

(* ----------------------------------------------- what the library keeps --- *)
(* unserialised bundles carry no time tag: a nested bundle read in keeps none  *)
RECURSIVE NormAtom(_)
NormAtom(x) == IF x.t # "." THEN x
               ELSE [x EXCEPT !.v = Ser([i \in 1..Len(Parse(x.v)) |->
                                         [a |-> Parse(x.v)[i].a,
                                          d |-> [k \in 1..Len(Parse(x.v)[i].d) |-> NormAtom(Parse(x.v)[i].d[k])]]])]
NormMsg(m) == [m EXCEPT !.d = [k \in 1..Len(m.d) |-> NormAtom(m.d[k])]]
NormBndl(b) == [i \in 1..Len(b) |-> NormMsg(b[i])]

(* the forms agree: what is encoded is well formed and decodes to itself *)
RoundTrips(b) == LET s == Ser(b) IN WellFormed(s) /\ Parse(s) = SelectSeq(b, LAMBDA m : m.a # NULLADDR)
=============================================================================
