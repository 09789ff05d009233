------------------------------ MODULE NumCheck ------------------------------
(* Cross-checks Num.tla against values computed elsewhere (tools/numcheck.py) *)
EXTENDS Num, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Init == l = 1
B(s) == s
Res(c) ==
    LET F == FloatFmt.d
        x == DecodeF(F, c.x)
        y == DecodeF(F, c.y)
    IN CASE c.o = "add" -> EncodeF(F, Round(F, Plus(x, y)))
         [] c.o = "mul" -> EncodeF(F, Round(F, Times(x, y)))
         [] c.o = "div" -> EncodeF(F, LET e == x.e - y.e IN RoundQ(F, x.neg # y.neg, x.m, y.m, e))
         [] c.o = "f" -> EncodeF(FloatFmt.f, Round(FloatFmt.f, x))
         [] c.o = "fd" -> EncodeF(F, DecodeF(FloatFmt.f, c.x))
         [] c.o = "cmp" -> Cmp(x, y)
         [] c.o = "g" -> FmtG(x)
         [] c.o = "i64" -> EncodeF(F, Round(F, DecodeI(TRUE, c.x)))
         [] c.o = "dec" -> FmtInt(DecodeI(TRUE, c.x))
         [] c.o = "parse" -> EncodeF(F, ParseF(F, c.x))
         [] c.o = "mod" -> FmtInt(FloorMod(DecodeI(TRUE, c.x), DecodeI(TRUE, c.y)))
         [] c.o = "quot" -> FmtInt(Quot(DecodeI(TRUE, c.x), DecodeI(TRUE, c.y)))
         [] c.o = "imul" -> EncodeI(Wrap("h", Times(DecodeI(TRUE, c.x), DecodeI(TRUE, c.y))), 8)
Next == /\ l <= Len(Cases) /\ l' = l + 1
        /\ IF Res(Cases[l]) = Cases[l].r THEN TRUE ELSE PrintT(<<"BAD", Cases[l], Res(Cases[l])>>)
Spec == Init /\ [][Next]_l
=============================================================================
