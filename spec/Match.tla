------------------------------- MODULE Match -------------------------------
(* OSC address pattern matching: what a pattern means, stated declaratively.  *)
(* Patterns and addresses are sequences of character codes.                   *)
EXTENDS Integers, Sequences, FiniteSets

SLASH == 47  STAR == 42  QUEST == 63  LSQ == 91  RSQ == 93  LCU == 123  RCU == 125
COMMA == 44  DASH == 45  BANG == 33

NOMATCH == 0  ADDRESS == 1  PATTERN == 2  BOTH == 3

(* index of the first occurrence of c in s at or after i, or Len(s)+1 *)
RECURSIVE Find(_, _, _)
Find(s, i, c) == IF i > Len(s) THEN Len(s) + 1 ELSE IF s[i] = c THEN i ELSE Find(s, i + 1, c)

(* ---- one segment (no slash in it) ---- *)
(* a set: '[' '!'? ']'? ... ']'.  SetStart: first member; SetClose: the closing bracket *)
SetNeg(p, i) == i + 1 <= Len(p) /\ p[i + 1] = BANG
SetStart(p, i) == IF SetNeg(p, i) THEN i + 2 ELSE i + 1
SetClose(p, i) == LET s == SetStart(p, i) IN
                  IF s <= Len(p) /\ p[s] = RSQ THEN Find(p, s + 1, RSQ) ELSE Find(p, s, RSQ)

Between(c, x, y) == (x <= c /\ c <= y) \/ (y <= c /\ c <= x)

(* is c listed in the members p[i..e-1] *)
RECURSIVE InMembers(_, _, _, _)
InMembers(p, i, e, c) ==
    IF i >= e THEN FALSE
    ELSE IF i + 2 < e /\ p[i + 1] = DASH
         THEN Between(c, p[i], p[i + 2]) \/ InMembers(p, i + 3, e, c)
         ELSE p[i] = c \/ InMembers(p, i + 1, e, c)

InSet(p, i, c) == LET m == InMembers(p, SetStart(p, i), SetClose(p, i), c) IN
                  IF SetNeg(p, i) THEN ~m ELSE m

(* the alternatives p[i..e-1] of '{..}' as a set of index pairs <<from, upto>> *)
RECURSIVE Alts(_, _, _)
Alts(p, i, e) == LET k == Find(p, i, COMMA) IN
                 IF k >= e THEN {<<i, e>>} ELSE {<<i, k>>} \cup Alts(p, k + 1, e)

RECURSIVE WfSeg(_, _)
WfSeg(p, i) ==
    IF i > Len(p) THEN TRUE
    ELSE CASE p[i] = LSQ -> LET e == SetClose(p, i) IN e <= Len(p) /\ e > SetStart(p, i) /\ WfSeg(p, e + 1)
           [] p[i] = LCU -> LET e == Find(p, i, RCU) IN e <= Len(p) /\ WfSeg(p, e + 1)
           [] p[i] = RSQ \/ p[i] = RCU -> FALSE
           [] OTHER -> WfSeg(p, i + 1)

(* the specification leaves patterns with an empty alternative open *)
RECURSIVE EmptyAlt(_, _)
EmptyAlt(p, i) ==
    IF i > Len(p) THEN FALSE
    ELSE CASE p[i] = LSQ -> EmptyAlt(p, SetClose(p, i) + 1)
           [] p[i] = LCU -> LET e == Find(p, i, RCU) IN
                            (e <= Len(p) /\ \E x \in Alts(p, i + 1, e) : x[1] = x[2]) \/ EmptyAlt(p, e + 1)
           [] OTHER -> EmptyAlt(p, i + 1)

RECURSIVE MatchSeg(_, _, _, _)
MatchSeg(p, i, a, j) ==
    IF i > Len(p) THEN j > Len(a)
    ELSE CASE p[i] = QUEST -> j <= Len(a) /\ MatchSeg(p, i + 1, a, j + 1)
           [] p[i] = STAR  -> MatchSeg(p, i + 1, a, j) \/ (j <= Len(a) /\ MatchSeg(p, i, a, j + 1))
           [] p[i] = LSQ   -> j <= Len(a) /\ InSet(p, i, a[j]) /\ MatchSeg(p, SetClose(p, i) + 1, a, j + 1)
           [] p[i] = LCU   -> LET e == Find(p, i, RCU) IN
                              \E x \in Alts(p, i + 1, e) :
                                  LET n == x[2] - x[1] IN
                                  /\ j + n - 1 <= Len(a)
                                  /\ \A k \in 0..(n - 1) : p[x[1] + k] = a[j + k]
                                  /\ MatchSeg(p, e + 1, a, j + n)
           [] OTHER -> j <= Len(a) /\ p[i] = a[j] /\ MatchSeg(p, i + 1, a, j + 1)

(* ---- whole addresses ---- *)
Malformed == -1          \* a malformed segment was reached: no match or an error, offsets zero
Open == -2               \* outside what is specified

RECURSIVE Run(_, _, _, _)
Run(p, i, a, j) ==
    LET pe == Find(p, i, SLASH)  ae == Find(a, j, SLASH)
        ps == SubSeq(p, i, pe - 1)  as == SubSeq(a, j, ae - 1)
        lone == as = <<STAR>>
    IN  IF ~lone /\ ~WfSeg(ps, 1) THEN <<Malformed, 0, 0>>
        ELSE IF ~lone /\ EmptyAlt(ps, 1) THEN <<Open, 0, 0>>
        ELSE IF ~(lone \/ MatchSeg(ps, 1, as, 1)) THEN <<NOMATCH, 0, 0>>
        ELSE IF pe > Len(p) /\ ae > Len(a) THEN <<BOTH, Len(p), Len(a)>>
        ELSE IF ae > Len(a) THEN <<ADDRESS, pe - 1, Len(a)>>
        ELSE IF pe > Len(p) THEN <<PATTERN, Len(p), ae - 1>>
        ELSE Run(p, pe + 1, a, ae + 1)

Expected(p, a) ==
    IF p = <<>> \/ p[1] # SLASH THEN <<Malformed, 0, 0>>
    ELSE IF a = <<>> \/ a[1] # SLASH THEN <<Malformed, 0, 0>>
    ELSE Run(p, 2, a, 2)

(* the matcher may give up on very long addresses, and says so *)
CAPACITY == 2048
Overlong(p, a) == Cardinality({k \in 1..Len(p) : p[k] = STAR}) * Len(a) > 900

(* does an observed result <<ret, pattern offset, address offset>> agree *)
Agrees(exp, got, big) ==
    CASE exp[1] = Open -> TRUE
      [] exp[1] = Malformed -> (got[1] = NOMATCH \/ got[1] >= 256) /\ got[2] = 0 /\ got[3] = 0
      [] OTHER -> got = exp \/ (big /\ got = <<CAPACITY, 0, 0>>)

Matches(p, a) == Expected(p, a)[1] = BOTH
=============================================================================
