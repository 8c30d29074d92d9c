-------------------------------- MODULE CopyTree --------------------------------
(* Copying a tree, or selected paths of it, into another tree.                      *)
(* A tree is a function from paths (sequences of names, the root is << >>) to nodes *)
(* [k, m, d]: k is "d", "f" or "l"; m the mode; d the content or the link's target. *)
(* C: [all, sel, root, abs, links, mask, S, T] - copy all of S, or the paths sel of *)
(* it, below root of T; links: both sides know symbolic links.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Front(p) == SubSeq(p, 1, Len(p) - 1)
Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}          \* proper, not the root
Range(s) == {s[i] : i \in 1..Len(s)}
Kind(T, q) == IF q \in DOMAIN T THEN T[q].k ELSE "-"
\* modes are three octal digits, below a leading one for the special bits
Masked(mask, m) == CASE mask = "unix" -> m
                     [] mask = "nil" -> "0" \o SubSeq(m, 2, 4)
                     [] mask = "700" -> "0" \o SubSeq(m, 2, 2) \o "00"
\* what is copied, and what must merely be a directory
Selected(C) == IF C.all THEN DOMAIN C.S ELSE Range(C.sel)
Missing(C) == Selected(C) \ DOMAIN C.S
Copied(C) == LET P == Selected(C) \cup (IF C.all THEN {} ELSE UNION {Prefixes(p) : p \in Selected(C)})
             IN {p \in P \cap DOMAIN C.S : C.links \/ C.S[p].k # "l"}
At(C, p) == C.root \o p
Targets(C) == {At(C, p) : p \in Copied(C)}
Made(C) == IF C.all THEN {} ELSE UNION {Prefixes(At(C, p)) : p \in Selected(C)} \ Targets(C)
Want(C, p) == [C.S[p] EXCEPT !.m = IF C.S[p].k = "l" THEN @ ELSE Masked(C.mask, @)]
Clash(C, p) == LET now == Kind(C.T, At(C, p))  k == C.S[p].k
               IN now # "-" /\ (k = "l" \/ now # k)
\* why a copy may fail without anything going wrong
Blocked(C) ==
  \/ ~C.all /\ (C.abs \/ Missing(C) # {})
  \/ C.all /\ C.root # << >> /\ Kind(C.T, Front(C.root)) # "d"
  \/ \E p \in Copied(C) : Clash(C, p)
  \/ \E q \in Made(C) : Kind(C.T, q) \notin {"-", "d"}
  \/ ~C.all /\ \E i, j \in 1..Len(C.sel) : i # j /\ C.sel[i] = C.sel[j] /\ Kind(C.S, C.sel[i]) = "l" /\ C.links
Rest(C, A) == LET O == Targets(C) \cup Made(C)
              IN /\ DOMAIN C.T \ O = DOMAIN A \ O
                 /\ \A q \in DOMAIN A \ O : A[q] = C.T[q]
Done(C, A, p) == At(C, p) \in DOMAIN A /\ A[At(C, p)] = Want(C, p)
Parents(C, A) == \A q \in Made(C) : Kind(A, q) = "d" /\ (q \in DOMAIN C.T => A[q] = C.T[q])
\* the whole of it
Reproduced(C, A) == Rest(C, A) /\ Parents(C, A) /\ \A p \in Copied(C) : Done(C, A, p)
\* some of it: every target as it was or on its way
Begins(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
Way(C, A, p) ==
  LET q == At(C, p)
  IN IF q \notin DOMAIN A THEN q \notin DOMAIN C.T
     ELSE \/ q \in DOMAIN C.T /\ A[q] = C.T[q]
          \/ /\ ~(q \in DOMAIN C.T /\ Clash(C, p))
             /\ A[q].k = C.S[p].k
             /\ CASE A[q].k = "l" -> A[q] = Want(C, p)
                  [] A[q].k = "f" -> Begins(C.S[p].d, A[q].d) \/ (q \in DOMAIN C.T /\ A[q].d = C.T[q].d)
                  [] OTHER -> TRUE
Partly(C, A) == /\ Rest(C, A) /\ \A p \in Copied(C) : Way(C, A, p)
                /\ \A q \in Made(C) : IF q \in DOMAIN C.T THEN q \in DOMAIN A /\ A[q] = C.T[q] ELSE Kind(A, q) \in {"-", "d"}
\* The walk's own failures may be told to be ignored; then what is below where it failed may be missing.
\* t.hit: "" when nothing went wrong, "no" when it was of no consequence, "yes", "walk" at t.at
Lost(t, p) == t.hit = "walk" /\ (p = t.at \/ t.at = << >> \/ (Len(p) > Len(t.at) /\ SubSeq(p, 1, Len(t.at)) = t.at))
Ok(C, t) ==
  CASE t.e = "nil" /\ t.hit \in {"", "no"} -> ~Blocked(C) /\ Reproduced(C, t.A)
    [] t.e = "nil" /\ t.hit = "walk" -> C.ign /\ C.all /\ Rest(C, t.A) /\ \A p \in Copied(C) : IF Lost(t, p) THEN Way(C, t.A, p) ELSE ~Clash(C, p) /\ Done(C, t.A, p)
    [] t.e = "nil" -> FALSE
    [] OTHER -> (Blocked(C) \/ t.hit # "") /\ Partly(C, t.A)
=================================================================================
