-------------------------------- MODULE MCTree --------------------------------
(* Exhaustive exploration: every state reachable within Depth operations, and  *)
(* the outcome of every operation of the alphabet in each of them.             *)
EXTENDS TreeGen
CONSTANT Build        \* operation kinds that build states (the table has all of Kinds)
VARIABLES s, n
vars == <<s, n>>

AllOps == UNION {OpsOf(k, b, x, Paths, Targets) : k \in Kinds, b \in BaseSet, x \in Spell}
Table(st) == {cs \in {Case(st, op) : op \in AllOps} : cs.r # "skip"}

BuildOps == UNION {OpsOf(k, Root, "", Paths, Targets) : k \in Build}
Init == s = Empty /\ n = 0
Next == /\ n < Depth
        /\ \E op \in BuildOps :
             LET o == Step(s, op) IN o.r = "ok" /\ o.s # s /\ s' = o.s
        /\ n' = n + 1
View == s

(* every operation keeps a tree a tree, and a failure changes nothing *)
TypeOk == TreeOk(s)
Honest == \A op \in AllOps : LET o == StepF(s, op) IN
             /\ TreeOk(o.s)
             /\ (o.r # "ok" => o.s = s)
Emit == PrintT("@@" \o ToJson([s |-> Flat(s), t |-> Table(s)]))
===============================================================================
