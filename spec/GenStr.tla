-------------------------------- MODULE GenStr --------------------------------
(* Every short string, quoted; and split, searched, compared with every shorter *)
(* one.  What the definitions say of each other is checked on all of them.      *)
EXTENDS Str, Json, IOUtils
LOCAL TX == INSTANCE Text
LOCAL EV == INSTANCE ExprVal
Chars == {97, 98, 47, Q, 92}
Most == atoi(IOEnv.LEN)
VARIABLES s, w
TAG == <<0, 0, 0, 0, 0, 0, 0, 1>>
A1(x) == [t |-> "s", v |-> x]
Ev(b, text) == [op |-> "ev", b |-> b, t |-> TAG, text |-> text]
Ops == <<[op |-> "quote", s |-> s, n |-> (Len(s) * 7 + (IF s = <<>> THEN 0 ELSE s[1])) % 12]>>
(* "/r = F(/w, /s)" and so on: texts as characters *)
Say == [split |-> <<47, 114, 32, 61, 32, 115, 112, 108, 105, 116, 40, 47, 119, 44, 47, 115, 41>>,
        find |-> <<47, 114, 32, 61, 32, 115, 116, 114, 102, 105, 110, 100, 40, 47, 119, 44, 47, 115, 41>>,
        less |-> <<47, 114, 32, 61, 32, 115, 116, 114, 99, 109, 112, 40, 47, 119, 44, 47, 115, 41, 60, 48>>,
        again |-> <<47, 114, 32, 61, 32, 106, 111, 105, 110, 40, 47, 119, 44, 115, 112, 108, 105, 116, 40, 47, 119, 44, 47, 115, 41, 41>>]
B == <<[a |-> <<47, 119>>, d |-> <<A1(w)>>], [a |-> <<47, 115>>, d |-> <<A1(s)>>]>>
Init == /\ s \in UNION {[1..n -> Chars] : n \in 0..Most}
        /\ w \in UNION {[1..n -> Chars] : n \in 0..2}
        /\ IF w = <<>> THEN PrintT(<<"BEH", ToJson(Ops)>>) ELSE TRUE
        /\ IF Q \notin {s[i] : i \in DOMAIN s} /\ 92 \notin {w[i] : i \in DOMAIN w}
           THEN PrintT(<<"BEH", ToJson(<<Ev(B, Say.split), Ev(B, Say.find), Ev(B, Say.less), Ev(B, Say.again)>>)>>) ELSE TRUE
Next == UNCHANGED <<s, w>>
Spec == Init /\ [][Next]_<<s, w>>
(* reading a quoted string gives it back; so does the lexer of texts *)
QuoteInv == Unquoted(Quoted(s)) = s /\ Len(Quoted(s)) = Len(s) + 2 + MetaCount(s)
            /\ UnEsc(Esc(s), 1) = s /\ TX!Quoted(s) = Quoted(s)
In(x, l) == \E i \in DOMAIN l : l[i] = x
SplitInv == w # <<>> =>
    LET ps == EV!Pieces(w, s) IN
    /\ \A i \in DOMAIN ps : ps[i] # <<>> /\ \A j \in DOMAIN w : ~In(w[j], ps[i])
    /\ FlattenSeq(ps) = SelectSeq(s, LAMBDA c : ~In(c, w))
    /\ EV!Pieces(w, EV!Glue(ps, w)) = ps
    (* without empty pieces, nothing is lost *)
    /\ (Len(w) = 1 /\ s # <<>> /\ s[1] # w[1] /\ s[Len(s)] # w[1] /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = w[1] /\ s[i + 1] = w[1])) => EV!Glue(ps, w) = s
Occ(i) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
FindInv == w # <<>> =>
    LET ps == EV!Found(w, s, 1) IN
    /\ \A k \in DOMAIN ps : Occ(ps[k] + 1)
    /\ \A k \in 1..(Len(ps) - 1) : ps[k] + Len(w) <= ps[k + 1]
    /\ \A i \in DOMAIN s : Occ(i) => \E k \in DOMAIN ps : ps[k] + 1 <= i /\ i <= ps[k] + Len(w)
Cmp(x, y) == EV!StrCmp(<<<<A1(x)>>, <<A1(y)>>>>).o
CmpInv == /\ (Cmp(s, w) = <<EV!AtomOf("i", EV!IntV(0))>>) <=> s = w
          /\ (Cmp(s, w) = <<EV!AtomOf("i", EV!IntV(1))>>) <=> (Cmp(w, s) = <<EV!AtomOf("i", EV!IntV(-1))>>)
=============================================================================
