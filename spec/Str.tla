-------------------------------- MODULE Str --------------------------------
(* Quoting: the character " and the escape character \ in a string are told   *)
(* apart from the ones around it by a \ before them.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Q == 34
Meta == {34, 92}
Esc(s) == FlattenSeq([i \in 1..Len(s) |-> IF s[i] \in Meta THEN <<92, s[i]>> ELSE <<s[i]>>])
Quoted(s) == <<Q>> \o Esc(s) \o <<Q>>
Around(s) == <<Q>> \o s \o <<Q>>
(* quotes where they are missing *)
AddQuotes(s) == (IF s # <<>> /\ s[1] = Q THEN <<>> ELSE <<Q>>) \o s \o (IF s # <<>> /\ s[Len(s)] = Q THEN <<>> ELSE <<Q>>)
MetaCount(s) == Cardinality({i \in DOMAIN s : s[i] \in Meta})
PadLen(s) == ((Len(s) + 4) \div 4) * 4
Cut(t, n) == IF n = 0 THEN <<>> ELSE SubSeq(t, 1, IF Len(t) < n - 1 THEN Len(t) ELSE n - 1)
(* what a buffer of n bytes gets of the text t *)
Buffered(t, n) == [full |-> Len(t), r |-> Len(t), over |-> 0, end |-> 1, t |-> Cut(t, n)]
(* reading a quoted string back: [ok, v] *)
RECURSIVE UnEsc(_, _)
UnEsc(s, i) == IF i > Len(s) THEN <<>> ELSE IF s[i] = 92 /\ i < Len(s) THEN <<s[i + 1]>> \o UnEsc(s, i + 2) ELSE <<s[i]>> \o UnEsc(s, i + 1)
Unquoted(t) == UnEsc(SubSeq(t, 2, Len(t) - 1), 1)
Exp(e) == LET s == e.s IN
          [meta |-> MetaCount(s), is |-> [i \in 1..Len(s) |-> IF s[i] \in Meta THEN 1 ELSE 0], pad |-> <<PadLen(s), PadLen(s)>>,
           q |-> Buffered(Around(s), e.n), m |-> Buffered(Esc(s), e.n), qm |-> Buffered(Quoted(s), e.n),
           aq |-> [r |-> Len(AddQuotes(s)), t |-> AddQuotes(s)], aqm |-> [r |-> Len(Quoted(s)), t |-> Quoted(s)], dup |-> [r |-> Len(s), t |-> s]]
Ok(e) == e.op = "quote" => e.res = Exp(e)
=============================================================================
