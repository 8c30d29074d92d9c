------------------------------- MODULE OvlTrace -------------------------------
(* Trees found after an operation was stopped inside, recorded from the real    *)
(* overlay, judged by OvlTree!InterruptOk.                                      *)
EXTENDS OvlTree, IOUtils
CONSTANTS Strict
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Rng(f) == {f[x] : x \in DOMAIN f}
State(ns) ==
  LET S == Rng(ns)
      at(p) == CHOOSE n \in S : n.p = p
      I == {n.i : n \in {x \in S : x.k = "f"}}
  IN [t |-> [p \in {n.p : n \in S} |->
               LET n == at(p) IN CASE n.k = "d" -> D(n.m) [] n.k = "f" -> F(n.i) [] n.k = "l" -> L(n.a, n.t)],
      c |-> [x \in I |-> LET n == CHOOSE n \in S : n.k = "f" /\ n.i = x IN [d |-> n.d, m |-> n.m]]]
Found2(ns) ==
  LET S == Rng(ns)
  IN [p \in {n.p : n \in S} |->
        LET n == CHOOSE n \in S : n.p = p
        IN CASE n.k = "d" -> [k |-> "d", m |-> n.m]
             [] n.k = "f" -> [k |-> "f", m |-> n.m, d |-> n.d]
             [] n.k = "l" -> [k |-> "l", a |-> n.a, t |-> n.t]]
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1
Judge == i = 0 \/ InterruptOk(State(Recs[i].before), Recs[i].op, Found2(Recs[i].after), Strict)
               \/ PrintT("@@bad " \o ToString(i))
===============================================================================
