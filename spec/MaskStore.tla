------------------------------ MODULE MaskStore ------------------------------
(* The marks a mask store holds: a name may carry a whiteout, an opaque mark or *)
(* both. SetWhiteout forgets the name's opaque mark and every mark below it.     *)
(* Names are paths; << >> is the root. Seeded histories for replay.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NameSet, MaxLen, Depth
VARIABLES w, o, h
vars == <<w, o, h>>
Paths == UNION {[1..k -> NameSet] : k \in 0..MaxLen}
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Keep(S, p) == {q \in S : ~Below(p, q)}
Ops == {"SetWhiteout", "ClearWhiteout", "SetOpaque", "ClearOpaque", "reopen"}
After(k, p) ==
  CASE k = "SetWhiteout" -> <<Keep(w, p) \cup {p}, Keep(o, p) \ {p}>>
    [] k = "ClearWhiteout" -> <<w \ {p}, o>>
    [] k = "SetOpaque" -> <<w, o \cup {p}>>
    [] k = "ClearOpaque" -> <<w, o \ {p}>>
    [] OTHER -> <<w, o>>
Init == w = {} /\ o = {} /\ h = << >>
Step(k, p, x) ==
  \E r \in {After(k, p)} :
    w' = r[1] /\ o' = r[2] /\ h' = Append(h, [o |-> k, p |-> p, x |-> x, w |-> r[1], q |-> r[2]])
Next ==
  /\ Len(h) < Depth
  /\ \E k \in {RandomElement(1..20)}, p0 \in {RandomElement(Paths)}, m \in {RandomElement(w \cup o \cup {<<>>})}, c \in {RandomElement(1..3)},
        x \in {RandomElement(0..9)} :
     Step(CASE k <= 5 -> "SetWhiteout" [] k <= 9 -> "ClearWhiteout" [] k <= 16 -> "SetOpaque" [] k <= 19 -> "ClearOpaque" [] OTHER -> "reopen",
          IF c = 1 THEN m ELSE p0, x)
(* exhaustive: the model's own laws, over short names *)
NextAll == \E k \in Ops, p \in Paths : Step(k, p, 0)
SpecAll == Init /\ [][NextAll]_vars
View == <<w, o>>
Law == [][\A p \in Paths : LET k == h'[Len(h')].o q == h'[Len(h')].p
            IN (p # q /\ ~Below(q, p)) => ((p \in w') = (p \in w) /\ (p \in o') = (p \in o))]_vars
Emit == Len(h) # Depth \/ PrintT("@@" \o ToJson(h))
===============================================================================
