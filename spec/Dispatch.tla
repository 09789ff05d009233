------------------------------ MODULE Dispatch ------------------------------
(* The dispatch table is a map from selectors to handlers that keeps the order *)
(* in which selectors were added.  Dispatching a bundle hands every entry, in  *)
(* that order, the messages whose address (a pattern) matches its selector:    *)
(* completely, or up to the end of the selector with segments of the pattern   *)
(* left over, from which the matched part may be stripped.  Messages no entry  *)
(* matches go to the delegate.  A query does the same for a list of selectors  *)
(* and collects the results in a set.                                          *)
EXTENDS Osc
M == INSTANCE Match

(* -------------------------------------------------------------- the table *)
(* es: the entries <<[s |-> selector, m |-> method, c |-> context]>>           *)
NODELEG == [on |-> 0, c |-> 0]
V0 == [es |-> <<>>, del |-> NODELEG]
(* index of selector s, or 0 *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(es, s, i) == IF i > Len(es) THEN 0 ELSE IF es[i].s = s THEN i ELSE IndexFrom(es, s, i + 1)
Index(es, s) == IndexFrom(es, s, 1)
AddE(es, s, m, c) == LET i == Index(es, s) IN
    IF i = 0 THEN Append(es, [s |-> s, m |-> m, c |-> c]) ELSE [es EXCEPT ![i].m = m, ![i].c = c]
Rebind(es, s, m) == LET i == Index(es, s) IN IF i = 0 THEN es ELSE [es EXCEPT ![i].m = m]
RebindC(es, s, m, c) == LET i == Index(es, s) IN IF i = 0 THEN es ELSE [es EXCEPT ![i].m = m, ![i].c = c]
Rename(es, s, n) == LET i == Index(es, s) IN IF i = 0 THEN es ELSE [es EXCEPT ![i].s = n]

(* -------------------------------------------------------------- matching *)
How(m, s) == M!Expected(m.a, s)
Complete(m, s) == How(m, s)[1] = M!BOTH
(* what is left over has to be an address for the matched part to be stripped *)
IsAddress(a) == Len(a) >= 2 /\ a[1] = 47 /\ \A i \in 1..Len(a) : a[i] \notin {32, 35}
Partial(m, s, strip) == LET h == How(m, s) IN h[1] = M!ADDRESS /\ (strip = 1 => IsAddress(SubSeq(m.a, h[2] + 1, Len(m.a))))
Hit(m, s, strip) == Complete(m, s) \/ Partial(m, s, strip)
Unclear(m, s) == How(m, s)[1] = M!Open \/ M!Overlong(m.a, s)
Strip(m, s) == [m EXCEPT !.a = SubSeq(m.a, How(m, s)[2] + 1, Len(m.a))]
CompOf(b, s) == SelectSeq(b, LAMBDA m : Complete(m, s))
PartOf(b, s, strip) == LET p == SelectSeq(b, LAMBDA m : Partial(m, s, strip)) IN
                       IF strip = 1 THEN [i \in 1..Len(p) |-> Strip(p[i], s)] ELSE p
RestOf(b, ss, strip) == SelectSeq(b, LAMBDA m : \A s \in ss : ~Hit(m, s, strip))

(* a bundle of matches: none at all, or a well-formed bundle of exactly these messages; its time tag is open *)
Holds(got, ms) == IF ms = <<>> THEN got = <<>> \/ (WellFormed(got) /\ Len(got) = 16)
                  ELSE WellFormed(got) /\ SubSeq(got, 17, Len(got)) = SubSeq(Ser(ms), 17, Len(Ser(ms)))

(* ---------------------------------------------------------------- calls *)
(* what a handler is called with: [m, c, s, part, comp]; the delegate is method 0 *)
NOSEL == <<-1>>
CallE(x, part, comp) == [m |-> x.m, c |-> x.c, s |-> x.s, part |-> part, comp |-> comp]
CallD(v, un) == IF v.del.on = 0 THEN <<>> ELSE <<[m |-> 0, c |-> v.del.c, s |-> NOSEL, part |-> <<>>, comp |-> un]>>
Selectors(v) == {v.es[i].s : i \in 1..Len(v.es)}
Delivered(v, b, strip) == [i \in 1..Len(v.es) |-> CallE(v.es[i], PartOf(b, v.es[i].s, strip), CompOf(b, v.es[i].s))]
Undelivered(v, b, strip) == LET un == RestOf(b, Selectors(v), strip) IN IF b = <<>> \/ un # <<>> THEN CallD(v, un) ELSE <<>>
All(v, b, strip) == Undelivered(v, b, strip) \o (IF b = <<>> THEN <<>> ELSE Delivered(v, b, strip))
Chosen(v, b, strip, ss) == Undelivered(v, b, strip) \o
    (IF b = <<>> THEN <<>>
     ELSE LET k == SelectSeq(ss, LAMBDA s : Index(v.es, s) # 0) IN
          [i \in 1..Len(k) |-> Delivered(v, b, strip)[Index(v.es, k[i])]])

Bare(v) == [i \in 1..Len(v.es) |-> CallE(v.es[i], <<>>, <<>>)]
SameCall(got, c) == /\ got.m = c.m /\ got.c = c.c /\ got.s = c.s /\ got.same = 1
                    /\ Holds(got.part, c.part) /\ Holds(got.comp, c.comp)
SameCalls(got, cs) == Len(got) = Len(cs) /\ \A i \in 1..Len(cs) : SameCall(got[i], cs[i])

Apply(v, e) ==
    CASE e.op = "vt_new" -> V0
      [] e.op = "vt_add" -> [v EXCEPT !.es = AddE(@, e.s, e.m, e.c)]
      [] e.op = "vt_rebind" -> [v EXCEPT !.es = IF e.ctx = 1 THEN RebindC(@, e.s, e.m, e.c) ELSE Rebind(@, e.s, e.m)]
      [] e.op = "vt_rename" -> [v EXCEPT !.es = Rename(@, e.s, e.n)]
      [] e.op = "vt_deleg" -> [v EXCEPT !.del = [on |-> e.on, c |-> e.c]]
      [] OTHER -> v

(* [r, calls] *)
Want(v, e) ==
    LET one(s) == LET i == Index(v.es, s) IN IF i = 0 THEN <<>> ELSE <<Bare(v)[i]>>
        missing(s) == IF Index(v.es, s) = 0 THEN 1 ELSE 0
    IN CASE e.op = "vt_look" -> [r |-> Index(v.es, e.s) - 1, log |-> one(e.s)]
         [] e.op = "vt_call" -> [r |-> missing(e.s), log |-> one(e.s)]
         [] e.op = "vt_all" -> [r |-> Len(v.es), log |-> Bare(v)]
         [] e.op \in {"vt_rebind", "vt_rename"} -> [r |-> missing(e.s), log |-> <<>>]
         [] e.op = "vt_dispatch" -> IF e.null = 1 THEN [r |-> 1, log |-> <<>>]
                                    ELSE [r |-> 0, log |-> IF e.sel = 1 THEN Chosen(v, Parse(e.b), e.strip, e.ss) ELSE All(v, Parse(e.b), e.strip)]
         [] OTHER -> [r |-> 0, log |-> <<>>]

(* ---------------------------------------------------------------- query *)
(* selectors in the order of their first result; NOSEL stands for none given  *)
Given(ss) == SelectSeq(ss, LAMBDA s : s # NOSEL)
RECURSIVE FirstHits(_, _, _, _)
FirstHits(b, ss, strip, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET h == SelectSeq(ss, LAMBDA s : Hit(b[i], s, strip)) IN h \o FirstHits(b, ss, strip, i + 1)
RECURSIVE Once(_, _)
Once(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Once(Tail(s), seen) ELSE <<Head(s)>> \o Once(Tail(s), seen \cup {Head(s)})
ToSet2(s) == {s[i] : i \in 1..Len(s)}
QueryWant(e) ==
    LET b == Parse(e.b)
        ss == Given(e.ss)
        hs == Once(FirstHits(b, ss, e.strip, 1), {})
    IN [r |-> e.null,
        un |-> IF e.null = 1 THEN <<>> ELSE RestOf(b, ToSet2(ss), e.strip),
        rs |-> IF e.null = 1 THEN <<>> ELSE [i \in 1..Len(hs) |-> [s |-> hs[i], part |-> PartOf(b, hs[i], e.strip), comp |-> CompOf(b, hs[i])]]]
QueryOk(e) ==
    LET w == QueryWant(e)
        g == e.res
        at(s) == IndexFrom(w.rs, s, 1)
    IN /\ g.r = w.r /\ g.more = 0 /\ Holds(g.un, w.un)
       /\ Len(g.rs) = Len(w.rs)
       /\ \A i \in 1..Len(w.rs) : /\ g.rs[i].s = w.rs[i].s /\ g.rs[i].sel = 1
                                  /\ Holds(g.rs[i].part, w.rs[i].part) /\ Holds(g.rs[i].comp, w.rs[i].comp)
       /\ \A i \in 1..Len(e.ss) : LET k == at(e.ss[i]) IN
            IF e.ss[i] = NOSEL \/ k = 0 THEN g.by[i].k = 0
            ELSE g.by[i].k = 1 /\ Holds(g.by[i].part, w.rs[k].part) /\ Holds(g.by[i].comp, w.rs[k].comp)

(* left open: a pattern with an empty alternative, one the matcher may give up on, and (in a query) one selector given twice *)
Vague(v, e) ==
    CASE e.op = "vt_dispatch" -> e.null = 0 /\ \E m \in ToSet2(Parse(e.b)), s \in Selectors(v) : Unclear(m, s)
      [] e.op = "query" -> e.null = 0 /\ (Len(Given(e.ss)) # Cardinality(ToSet2(Given(e.ss))) \/ \E m \in ToSet2(Parse(e.b)), s \in ToSet2(Given(e.ss)) : Unclear(m, s))
      [] OTHER -> FALSE
Ok(v, e) == \/ Vague(v, e)
            \/ IF e.op = "query" THEN QueryOk(e)
               ELSE LET w == Want(v, e) IN e.res.r = w.r /\ SameCalls(e.res.log, w.log)
Exp(v, e) == IF e.op = "query" THEN [q |-> QueryWant(e)] ELSE [q |-> Want(v, e)]
=============================================================================
