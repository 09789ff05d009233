---- MODULE AllocOwner ----
(* Ownership: atoms, messages, bundles and arrays as blocks, each owned by the caller or by the container it was put in.
   Freeing a block gives back everything below it.  Checked: what is live is exactly what the caller can reach, every operation
   is Fine for Alloc, and when the caller holds nothing, nothing is live. *)
EXTENDS Alloc
CONSTANT N
VARIABLES owner, \* block -> 0 the caller, another block, -1 not held
          nxt,   \* the next number
          live, al, ok
vars == <<owner, nxt, live, al, ok>>
Blocks == 1..N
Held == {b \in Blocks : owner[b] >= 0}
RECURSIVE Below(_)
Below(b) == {b} \union UNION {Below(c) : c \in {x \in Blocks : owner[x] = b}}
RECURSIVE Up(_)
Up(b) == {b} \union (IF owner[b] > 0 THEN Up(owner[b]) ELSE {})
SeqOf(s) == CHOOSE q \in [1..Cardinality(s) -> s] : \A i, j \in 1..Cardinality(s) : i < j => q[i] < q[j]
Do(calls) == al' = calls /\ ok' = Fine(live, calls) /\ live' = After(live, calls)

Init == owner = [b \in Blocks |-> -1] /\ nxt = 1 /\ live = {} /\ al = <<>> /\ ok = TRUE
(* make an object *)
New == nxt <= N /\ owner' = [owner EXCEPT ![nxt] = 0] /\ nxt' = nxt + 1 /\ Do(<<nxt>>)
(* work that takes scratch memory and gives it back, whether or not it succeeds *)
Scratch == nxt <= N /\ UNCHANGED owner /\ nxt' = nxt + 1 /\ Do(<<nxt, -nxt>>)
(* put b in c: c owns it from now on *)
Put(b, c) == owner[b] = 0 /\ owner[c] >= 0 /\ b \notin Up(c) /\ owner' = [owner EXCEPT ![b] = c] /\ UNCHANGED nxt /\ Do(<<>>)
(* a container copies what it is given: the caller keeps the original *)
PutCopy(b, c) == /\ owner[b] = 0 /\ owner[c] >= 0 /\ b /= c /\ nxt <= N
                 /\ owner' = [owner EXCEPT ![nxt] = c] /\ nxt' = nxt + 1 /\ Do(<<nxt>>)
(* replacing or removing a member frees it with all below it; c stays *)
Remove(b) == owner[b] > 0 /\ owner' = [x \in Blocks |-> IF x \in Below(b) THEN -1 ELSE owner[x]] /\ UNCHANGED nxt
             /\ Do([i \in 1..Cardinality(Below(b)) |-> -SeqOf(Below(b))[i]])
Free(b) == owner[b] = 0 /\ owner' = [x \in Blocks |-> IF x \in Below(b) THEN -1 ELSE owner[x]] /\ UNCHANGED nxt
           /\ Do([i \in 1..Cardinality(Below(b)) |-> -SeqOf(Below(b))[i]])
Next == New \/ Scratch \/ \E b \in Blocks : Remove(b) \/ Free(b) \/ \E c \in Blocks : Put(b, c) \/ PutCopy(b, c)
Spec == Init /\ [][Next]_vars

TheCallers == {b \in Blocks : owner[b] = 0}
OK == ok
LiveIsReachable == live = UNION {Below(b) : b \in TheCallers}
NothingLeft == TheCallers = {} => live = {}
OneOwner == \A b \in Held : owner[b] = 0 \/ owner[owner[b]] >= 0
(* the two ways of writing the discipline agree on every short sequence of calls with blocks numbered in order *)
Short == UNION {[1..k -> -3..3] : k \in 0..4}
InOrder(s, base) == \A i \in 1..Len(s) : s[i] > 0 => s[i] = base + 1 + Cardinality({j \in 1..i - 1 : s[j] > 0})
Known(s, base) == \A i \in 1..Len(s) : s[i] < 0 => -s[i] <= base + Cardinality({j \in 1..i - 1 : s[j] > 0})
ASSUME Agree == \A base \in 0..2 : \A L \in SUBSET (1..base) : \A s \in {q \in Short : InOrder(q, base) /\ Known(q, base)} :
                  Fine(L, s) = Walk(L, s, 1).ok /\ (Fine(L, s) => After(L, s) = Walk(L, s, 1).live)
====
