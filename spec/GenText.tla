------------------------------- MODULE GenText -------------------------------
(* Every text of up to Depth tokens whose tokens but the last can begin a      *)
(* bundle: the parser of Text.tla, step by step.                               *)
EXTENDS Text, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
P(c) == Tok("p", <<c>>)
Toks == {P(58), P(44), P(91), P(93), P(123), P(125), Tok("a", <<47, 97>>), Tok("w", <<45, 49>>), Tok("s", <<34, 92>>)}
VARIABLES stack, h
vars == <<stack, h>>
Spell(t) == CASE t.k = "s" -> Quoted(t.v) [] OTHER -> t.v
(* an address swallows what follows up to a space *)
Written(ts) == FlattenSeq([i \in 1..Len(ts) |-> Spell(ts[i]) \o (IF i < Len(ts) /\ ts[i].k = "a" THEN <<32>> ELSE <<>>)])
Init == stack = <<[ms |-> <<>>, st |-> "M"]>> /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ stack # Bad
        /\ \E t \in Toks : /\ stack' = Step(stack, t)
                           /\ h' = Append(h, t)
                           /\ PrintT(<<"BEH", ToJson(<<[op |-> "read", s |-> Written(h')]>>)>>)
Spec == Init /\ [][Next]_vars
(* reading the text in one go is reading it token by token *)
Agree == h # <<>> => Read(Written(h)).ok = (IF stack # Bad /\ Len(stack) = 1 /\ stack[1].st \in {"A", "D"} THEN "yes" ELSE "no")
(* what was read prints, and reads again as itself *)
Again == (h # <<>> /\ Read(Written(h)).ok = "yes") => LET b == Read(Written(h)).b IN Len(b) >= 1
=============================================================================
