-------------------------------- MODULE SimChunks --------------------------------
(* Random histories of uploads, interruptions, damage and downloads.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Damage
VARIABLES cfg, h
None == [k |-> "none"]
D(S) == {RandomElement(S)}
Init == cfg = None /\ h = << >>
Faults == {"", "", "", "", "fail", "cut", "trunc", "full", "shift", "zero", "404"}
Next == IF cfg = None
        THEN h' = h /\ \E t \in D(0..9), z \in D(1..4) : cfg' = [k |-> "chunks", t |-> t, z |-> z]
        ELSE /\ Len(h) < Depth /\ cfg' = cfg
             /\ \E o \in D({"append", "append2", "append3", "state", "read", "read2", "read3"} \cup (IF Damage THEN {"damage"} ELSE {})),
                   f \in D(-1..10), al \in D(1..4), m \in D(0..12), big \in D(1..2), q \in D(BOOLEAN), fa \in D(Faults), at \in D(1..4),
                   b \in D({1, 2, 3, 20}), ch \in D({1, 2, 100}), hw \in D({"gone", "short", "long", "swap", "empty"}) :
                \E nm \in {CASE o \in {"append2", "append3"} -> "append" [] o \in {"read2", "read3"} -> "read" [] OTHER -> o} :
                h' = Append(h, [o |-> nm, f |-> f, al |-> al, m |-> IF big = 1 THEN 20 ELSE m, q |-> q, fa |-> fa, at |-> at, b |-> b, ch |-> ch, hw |-> hw])
Emit == cfg = None \/ Len(h) # Depth \/ PrintT("@@" \o ToJson([c |-> cfg, h |-> h]))
================================================================================
