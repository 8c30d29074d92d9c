------------------------------ MODULE SimLock -------------------------------
(* Random scripts of lock calls; which of them wait is up to the run. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Subs, Depth
VARIABLES c, h
E1(S) == {RandomElement(S)}
Init == c = [sub |-> ""] /\ h = << >>
New == c.sub = "" /\ \E s \in E1(Subs) : c' = [sub |-> s] /\ h' = h
Ops == <<"open", "open", "lock", "lock", "lock", "lock", "lock", "unlock", "unlock", "unlock", "close">>
Op == /\ c.sub # "" /\ Len(h) < Depth
      /\ \E o \in E1(1..Len(Ops)), s \in E1(1..3), n \in E1({"f", "f", "f", "g", "o"}), nn \in E1(1..5), l \in E1(0..15), a \in E1({"r", "rw"}) :
           h' = Append(h, [o |-> IF Len(h) < 3 THEN "open" ELSE Ops[o], h |-> IF Len(h) < 3 THEN Len(h) + 1 ELSE s, n |-> IF nn < 5 THEN "f" ELSE n,
                           l |-> IF l = 0 THEN 0 ELSE IF l = 1 THEN 3 ELSE IF l < 9 THEN 1 ELSE 2, a |-> a])
      /\ c' = c
Next == New \/ Op
Emit == c.sub = "" \/ Len(h) < Depth \/ PrintT("@@" \o ToJson([c |-> c, h |-> h]))
==============================================================================
