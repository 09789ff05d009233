-------------------------------- MODULE Serial --------------------------------
(* A packet checked one byte at a time, as it arrives: the state after a byte  *)
(* is all that is kept.  A packet is a bundle (header, then messages, each     *)
(* preceded by its size) or one bare message.                                  *)
EXTENDS Osc
(* ph   where the next byte belongs                                            *)
(* k    bytes already seen of the part, where its length is known; in a bare   *)
(*      message all bytes seen                                                 *)
(* n    the size as far as it is known, then the bytes left of the message     *)
(* br   the bracket that is open, pv the byte before within it                 *)
S0 == [ph |-> "first", bare |-> FALSE, k |-> 0, n |-> 0, br |-> 0, pv |-> 0, err |-> 0]

HEADER == 1  NEGATIVE == 2  NOSLASH == 3  NESTED == 4  WILDCARD == 5  ALIGN == 6  TYPETAG == 7  NOTAGS == 8  OVERRUN == 9
DASHES == 10  COMMAS == 11  RCURLY == 12  LCURLY == 13  RSQUARE == 14  LSQUARE == 15

Err(s, e) == [s EXCEPT !.err = e]
(* one more byte of the message has been seen; a message whose last byte that was is complete *)
Took(s) == IF s.bare THEN [s EXCEPT !.k = @ + 1]
           ELSE IF s.n = 1 /\ s.ph \in {"tagpad", "data"} THEN [s EXCEPT !.ph = "size", !.k = 0, !.n = 0]
           ELSE [s EXCEPT !.n = @ - 1]
Aligned(s) == IF s.bare THEN s.k % 4 = 0 ELSE s.n % 4 = 0

InCurly(s, b) ==
    CASE b = 44 /\ s.pv = 44 -> Err(s, COMMAS)
      [] b \in {91, 93, 123} -> Err(s, NESTED)
      [] b \in {42, 63} -> Err(s, WILDCARD)
      [] b = 0 -> Err(s, LCURLY)
      [] b = 125 -> Took([s EXCEPT !.br = 0])
      [] OTHER -> Took([s EXCEPT !.pv = b])
InSquare(s, b) ==
    CASE b = 45 /\ s.pv = 45 -> Err(s, DASHES)
      [] b \in {91, 123, 125} -> Err(s, NESTED)
      [] b \in {42, 63} -> Err(s, WILDCARD)
      [] b = 0 -> Err(s, LSQUARE)
      [] b = 93 -> Took([s EXCEPT !.br = 0])
      [] OTHER -> Took([s EXCEPT !.pv = b])
InAddress(s, b) ==
    CASE s.br = 123 -> InCurly(s, b)
      [] s.br = 91 -> InSquare(s, b)
      [] b \in {91, 123} -> Took([s EXCEPT !.br = b, !.pv = 0])
      [] b = 93 -> Err(s, RSQUARE)
      [] b = 125 -> Err(s, RCURLY)
      [] b = 0 -> Took([s EXCEPT !.ph = "addrpad"])
      [] OTHER -> Took(s)

Step(s, b) ==
    CASE s.err # 0 -> s
      [] s.ph = "first" -> (CASE b = 35 -> [s EXCEPT !.ph = "id", !.k = 1]
                              [] b = 47 -> [s EXCEPT !.ph = "address", !.bare = TRUE, !.k = 1]
                              [] OTHER -> Err(s, HEADER))
      [] s.ph = "id" -> IF b # HASHBUNDLE[s.k + 1] THEN Err(s, HEADER)
                        ELSE IF s.k = 7 THEN [s EXCEPT !.ph = "time", !.k = 0] ELSE [s EXCEPT !.k = @ + 1]
      [] s.ph = "time" -> IF s.k = 7 THEN [s EXCEPT !.ph = "size", !.k = 0] ELSE [s EXCEPT !.k = @ + 1]
      [] s.ph = "size" -> IF s.k = 0 /\ b >= 128 THEN Err(s, NEGATIVE)
                          ELSE [s EXCEPT !.n = @ * 256 + b, !.k = @ + 1, !.ph = IF s.k = 3 THEN "slash" ELSE "size"]
      [] ~s.bare /\ s.n = 0 -> Err(s, OVERRUN)
      [] s.ph = "slash" -> IF b = 47 THEN Took([s EXCEPT !.ph = "address"]) ELSE Err(s, NOSLASH)
      [] s.ph = "address" -> InAddress(s, b)
      [] s.ph = "addrpad" -> (CASE Aligned(s) /\ b = 44 -> Took([s EXCEPT !.ph = "tags"])
                                [] Aligned(s) /\ b = 0 -> Err(s, ALIGN)
                                [] Aligned(s) -> Err(s, NOTAGS)
                                [] b = 0 -> Took(s)
                                [] OTHER -> Err(s, ALIGN))
      [] s.ph = "tags" -> IF b = 0 THEN Took([s EXCEPT !.ph = "tagpad"]) ELSE IF b \in TypeCodes THEN Took(s) ELSE Err(s, TYPETAG)
      [] s.ph = "tagpad" -> IF Aligned(s) THEN Took([s EXCEPT !.ph = "data"]) ELSE IF b = 0 THEN Took(s) ELSE Err(s, ALIGN)
      [] OTHER -> Took(s)

(* the bytes eaten before the error or the end, the state there, and whether a size on the way was no multiple of *)
(* four: what follows such a size is left open                                                                    *)
Odd(s) == ~s.bare /\ s.ph = "slash" /\ s.n % 4 # 0
Eat(r, b) == IF r.s.err # 0 THEN r
             ELSE LET t == Step(r.s, b) IN [n |-> IF t.err # 0 THEN r.n ELSE r.n + 1, s |-> t, odd |-> r.odd \/ Odd(t)]
Run(bs) == FoldLeft(Eat, [n |-> 0, s |-> S0, odd |-> FALSE], bs)
Check(bs) == LET r == Run(bs) IN <<r.n, r.s>>
(* between two packets' worth of messages, or anywhere it is defined, what is left of the current message *)
Left(s) == IF s.err # 0 \/ s.bare \/ s.ph \in {"first", "id", "time"} \/ (s.ph = "size" /\ s.k > 0) THEN -1 ELSE s.n
Ok(e) == LET x == Run(e.b)  r == <<x.n, x.s>> IN
         \/ x.odd
         \/ /\ e.res.n = r[1] /\ e.res.e = r[2].err
            /\ (Left(r[2]) >= 0 /\ Len(e.b) > 16 => e.res.left = Left(r[2]))
Exp(e) == [n |-> Check(e.b)[1], s |-> Check(e.b)[2]]
=============================================================================
