---------------------------------- MODULE MCCopy ---------------------------------
(* The procedure: entry by entry, parents first; a directory is made and given its   *)
(* mode, a file truncated, written, closed and given its mode, a link made. Any step *)
(* may fail, before or after it took effect. What comes of it is what CopyTree says. *)
EXTENDS CopyTree
CONSTANT Wrong    \* "" or a wrong procedure
VARIABLES C, todo, part, A, end, hit
vars == <<C, todo, part, A, end, hit>>
N(k, m, d) == [k |-> k, m |-> m, d |-> d]
Up == {<<"a">>, <<"a", "x">>}
Nodes(D) == {N("d", "0755", D), N("f", "0600", D), N("l", "-", D)}
Trees(D, root) == {T \in UNION {[{<< >>} \cup {root \o p : p \in P} \cup {root} \cup Prefixes(root) -> Nodes(D)] : P \in SUBSET Up} :
                     \A q \in DOMAIN T : q = << >> \/ (Front(q) \in DOMAIN T /\ T[Front(q)].k = "d")}
Dir0(T) == T[<< >>].k = "d"
Init == /\ \E S \in {X \in Trees("s", << >>) : Dir0(X)}, root \in {<< >>, <<"r">>, <<"r", "q">>} :
             \E T \in {X \in Trees("t", root) \cup [{<< >>} -> Nodes("t")] : Dir0(X)}, all \in BOOLEAN, links \in BOOLEAN :
               \E sel \in IF all THEN {<< >>} ELSE {<< <<"a">> >>, << <<"a", "x">> >>, << <<"a", "x">>, <<"a">> >>, << <<"a">>, <<"a">> >>, << << >> >>} :
                 C = [all |-> all, sel |-> sel, root |-> root, abs |-> FALSE, links |-> links, mask |-> "700", ign |-> FALSE, S |-> S, T |-> T]
        /\ part = 0 /\ A = C.T /\ end = "" /\ hit = ""
        /\ todo = IF C.all THEN SelectSeq(<< << >>, <<"a">>, <<"a", "x">> >>, LAMBDA p : p \in DOMAIN C.S)
                  ELSE SelectSeq(<< << >>, <<"a">> >>, LAMBDA p : p # << >> /\ \E q \in Range(C.sel) : p \in Prefixes(q)) \o C.sel
NoLinksInTheWay(X) == \A q \in DOMAIN X.T : X.T[q].k = "l" => \A p \in Copied(X) : At(X, p) = q => X.S[p].k = "l"
Stop(e, h) == end' = e /\ hit' = h /\ UNCHANGED <<C, todo, part>>
Put(q, n) == A' = (q :> n) @@ A
Go(q, n) == Put(q, n) /\ UNCHANGED <<C, end, hit>>
\* one step with its effect B on A going well, or failing before or after it
Step(B, tl, pt) ==
  \/ A' = B /\ todo' = tl /\ part' = pt /\ UNCHANGED <<C, end, hit>>
  \/ /\ hit = "" /\ A' \in {A, B}
     /\ IF Wrong = "hide" /\ pt = 0 THEN hit' = "yes" /\ todo' = tl /\ part' = pt /\ UNCHANGED <<C, end>> ELSE Stop("err", "yes")
Next ==
  /\ end = ""
  /\ IF todo = << >> THEN Stop("nil", hit) /\ A' = A
     ELSE LET p == Head(todo)  q == At(C, p)  rest == Tail(todo)
          IN IF p \notin DOMAIN C.S THEN Stop("err", hit) /\ A' = A
             ELSE LET n == Want(C, p)
                      up == {r \in Prefixes(q) : r \notin DOMAIN A}
                  IN CASE q # << >> /\ Kind(A, Front(q)) # "d" /\ (C.all \/ \E r \in Prefixes(q) : Kind(A, r) \in {"f", "l"}) -> Stop("err", hit) /\ A' = A
                       [] q # << >> /\ Kind(A, Front(q)) # "d" ->
                            LET r == CHOOSE r \in up : \A o \in up : Len(r) <= Len(o) IN Step((r :> N("d", "0777", "t")) @@ A, todo, part)
                       [] n.k = "l" /\ ~C.links -> Step(A, rest, 0)
                       [] n.k = "d" /\ part = 0 ->
                            IF q \notin DOMAIN A THEN Step((q :> [n EXCEPT !.m = "0777"]) @@ A, todo, 1)
                            ELSE IF A[q].k = "d" \/ Wrong = "over" THEN Step(A, todo, 1) ELSE Stop("err", hit) /\ A' = A
                       [] n.k = "d" -> Step([A EXCEPT ![q] = [@ EXCEPT !.m = n.m, !.d = IF @ = "t" THEN "s" ELSE @]], rest, 0)
                       [] n.k = "f" /\ part = 0 ->
                            IF q \notin DOMAIN A THEN Step((q :> [n EXCEPT !.m = "0100", !.d = ""]) @@ A, todo, 1)
                            ELSE IF A[q].k # "f" THEN Stop("err", hit) /\ A' = A
                            ELSE Step(IF Wrong = "append" THEN A ELSE [A EXCEPT ![q].d = ""], todo, 1)
                       [] n.k = "f" /\ part = 1 -> Step([A EXCEPT ![q].d = @ \o n.d], IF Wrong = "mode" THEN rest ELSE todo, IF Wrong = "mode" THEN 0 ELSE 2)
                       [] n.k = "f" -> Step([A EXCEPT ![q].m = n.m], rest, 0)
                       [] OTHER -> IF q \in DOMAIN A THEN Stop("err", hit) /\ A' = A ELSE Step((q :> n) @@ A, rest, 0)
\* directories have no content; the model's is where they came from
Plain(T) == [q \in DOMAIN T |-> IF T[q].k = "d" THEN [T[q] EXCEPT !.d = ""] ELSE T[q]]
C2 == [C EXCEPT !.S = Plain(@), !.T = Plain(@)]
Accepted == end # "" /\ NoLinksInTheWay(C) => Ok(C2, [e |-> end, hit |-> hit, at |-> << >>, A |-> Plain(A)])
Tree == \A q \in DOMAIN A : q = << >> \/ Kind(A, Front(q)) = "d"
Caught == Accepted
==================================================================================
