---- MODULE Alloc ----
(* Who owns the memory the library takes from its allocator.
   An operation is seen as the sequence of its calls to the allocator: n > 0 is a block taken (blocks are numbered in the
   order in which they are taken), -n gives block n back, 0 gives back something that was never taken.
   The discipline: a block is given back only while it is held, and when the caller has freed everything it holds nothing is
   left.  This module also models why the discipline follows from ownership: every block has one owner - the caller or one
   other block - and freeing a block frees what it owns (see AllocOwner). *)
EXTENDS Integers, Sequences, FiniteSets

Taken(al) == {al[i] : i \in {j \in 1..Len(al) : al[j] > 0}}
Given(al) == {-al[i] : i \in {j \in 1..Len(al) : al[j] <= 0}}
Gifts(al) == Cardinality({j \in 1..Len(al) : al[j] <= 0})

(* the calls of one operation are in order, starting with the blocks live *)
Fine(live, al) == /\ Cardinality(Taken(al)) = Len(al) - Gifts(al)  \* no number twice
                  /\ Taken(al) \intersect live = {}
                  /\ 0 \notin Given(al)                          \* nothing foreign
                  /\ Cardinality(Given(al)) = Gifts(al)          \* nothing twice
                  /\ Given(al) \subseteq (live \union Taken(al)) \* nothing that is not held
After(live, al) == (live \union Taken(al)) \ Given(al)

(* the same, one call at a time: what the two definitions above abbreviate when numbers are never used again *)
RECURSIVE Walk(_, _, _)
Walk(live, al, i) == IF i > Len(al) THEN [ok |-> TRUE, live |-> live]
                     ELSE IF al[i] > 0 THEN IF al[i] \in live THEN [ok |-> FALSE, live |-> live] ELSE Walk(live \union {al[i]}, al, i + 1)
                     ELSE IF -al[i] \in live THEN Walk(live \ {-al[i]}, al, i + 1) ELSE [ok |-> FALSE, live |-> live]
====
