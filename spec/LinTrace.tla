------------------------------ MODULE LinTrace ------------------------------
(* Histories of overlapping calls: is there an order of the calls, one after the other, that keeps every call
   before those made after it returned and gives every call the answer it gave and the tree that was left?
   A record has init, the tree before; h, the calls in the order they returned, with when each was made (call)
   and returned (ret); tree, what was left; stuck, whether some calls never returned; stale, low (see Lin). *)
EXTENDS Lin, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i

First(R) ==
  LET N == Range(R.init)
      files == {n \in N : n.k = "f"}
      at(p) == CHOOSE n \in N : n.p = p
  IN Start(Tag([p \in {n.p : n \in N} |-> LET n == at(p) IN
                 CASE n.k = "d" -> D(n.m) [] n.k = "f" -> F(n.i) [] n.k = "l" -> L(n.a, n.t)], 0),
           [j \in {n.i : n \in files} |-> LET n == CHOOSE x \in files : x.i = j IN [d |-> n.d, m |-> n.m]])

RECURSIVE Explains(_, _, _)
Explains(s, left, R) ==
  IF left = {} THEN Looks(s) = {[p |-> n.p, k |-> n.k, m |-> n.m, d |-> n.d, a |-> n.a, t |-> n.t] : n \in Range(R.tree)}
  ELSE \E j \in left :
         /\ \A g \in left : g = j \/ R.h[g].ret > R.h[j].call
         /\ LET x == Do(s, R.h[j], R.stale, Range(R.low))
            IN IF x.r = "skip" THEN PrintT("@@skip") ELSE (Fits(x, R.h[j]) /\ Explains(x.s, left \ {j}, R))
Judge == LET R == Recs[i] IN
  IF R.stuck THEN PrintT("@@bad " \o ToString(i) \o " 0 stuck")
  ELSE Explains(First(R), 1..Len(R.h), R) \/ PrintT("@@bad " \o ToString(i) \o " 0 unexplained")
==============================================================================
