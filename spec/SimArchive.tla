------------------------------ MODULE SimArchive ------------------------------
(* Random archives and questions about them. *)
EXTENDS Archive, Json
CONSTANTS Ents, Asks, Ops
VARIABLES c, h
D(S) == {RandomElement(S)}
None == [k |-> "none"]
Init == c = None /\ h = << >>
Names == {"a", "b", "..d", "a", "b"}
Some(f, n) == [i \in 1..n |-> RandomElement(f)]
\* names as archives spell them
Spell(p, z) == CASE z = 1 -> <<".">> \o p
                 [] z = 2 -> <<"">> \o p
                 [] z = 3 -> <<"a", "..">> \o p
                 [] z = 4 -> <<"..">> \o p
                 [] z = 5 -> <<Head(p), ".", "">> \o p
                 [] z = 6 -> <<"", "..">> \o p
                 [] OTHER -> p
Kinds == <<"reg", "reg", "reg", "dir", "dir", "sym", "sym", "sym", "hard", "hard", "hard", "char", "block", "fifo", "odd", "cont", "global">>
\* links one after another, the first of them to "a"
Chain(n) == [j \in 1..n |-> [k |-> "sym", n |-> <<"c" \o ToString(j)>>, l |-> IF j = 1 THEN <<"a">> ELSE <<"c" \o ToString(j - 1)>>, m |-> "755", s |-> 0]]
Setup == /\ c = None
         /\ \E fmt \in D({"pax", "gnu", "ustar"}), long \in D({FALSE, FALSE, TRUE}), syml \in D({TRUE, TRUE, TRUE, FALSE}), dev \in D(BOOLEAN), rooted \in D(BOOLEAN),
               w \in D(1..10), n \in D({5, 12, 38, 39, 40, 41}) :
               c' = [k |-> "arc", fmt |-> fmt, long |-> long /\ fmt # "ustar", syml |-> syml, dev |-> dev, rooted |-> rooted, sub |-> << >>, chain |-> IF w = 1 THEN n ELSE 0, ents |-> IF w = 1 THEN Chain(n) ELSE << >>]
         /\ h' = h
\* the links of an archive mostly point at what is there
Seen == {Cleaned(c.ents[i].n) : i \in 1..Len(c.ents)} \ {<< >>}
Entry == /\ c # None /\ Len(c.ents) < Ents + c.chain /\ h' = h
         /\ \E k \in D(1..Len(Kinds)), n \in D(1..3), z \in D(1..40), root \in D(1..25), s \in D({0, 1, 3, 511, 512, 513, 1030}), m \in D({"644", "600", "755", "4755", "1777"}),
               near \in D(1..3), t \in D(1..4), lz \in D(1..20), abs \in D(1..15) :
            \E p \in D({Some(Names, n)}), l \in D({Some({"a", "b", "..", "a", "b", ".", "..d", ".."}, t)}), q \in D({Some(Names, t)}), w \in D(IF Seen = {} THEN {<<"a">>} ELSE Seen) :
              LET kk == Kinds[k]
                  nn == IF root = 1 THEN <<".">> ELSE Spell(p, z)
                  ll == IF kk = "sym" THEN IF abs = 1 THEN <<"">> \o l ELSE IF abs = 2 THEN l \o <<"">> ELSE IF abs < 5 THEN l \o w ELSE l
                        ELSE IF kk = "hard" THEN Spell(IF near > 1 THEN w ELSE q, lz) ELSE << >>
              IN c' = [c EXCEPT !.ents = Append(@, [k |-> kk, n |-> nn, l |-> ll, m |-> m, s |-> IF kk \in {"reg", "cont", "odd"} THEN s ELSE 0])]
Tree == Extract(c)
Ask == /\ c # None /\ Len(c.ents) = Ents + c.chain /\ Len(h) < Asks
       /\ IF Len(h) = 0 THEN \E z \in D(1..8), n \in D(1..2) : \E p \in D({Some(Names, n)}), q \in D(LET T == Tree IN {q \in DOMAIN T : T[q].k \in {"dir", "sym"} \/ z = 5}) :
                                  c' = [c EXCEPT !.sub = IF z < 4 THEN << >> ELSE IF z = 4 THEN p ELSE q]
          ELSE c' = c
       /\ \E o \in D(Ops), n \in D(1..4), bad \in D(1..25) :
          \E p \in D({Some(Names, n)}), w \in D(IF Seen = {} THEN {<<"a">>} ELSE Seen), use \in D(1..3), z \in D(2..6) :
            \E ns \in D({Some({-1, 0, 1, 1, 2, 3, 4, -9}, z)}) :
            LET r == IF c.chain > 0 /\ bad > 18 THEN <<"c" \o ToString(IF bad > 22 THEN c.chain ELSE 1 + (bad % c.chain))>> \o (IF use = 1 THEN p ELSE << >>) ELSE IF use = 1 THEN p ELSE IF use = 2 THEN w \o p ELSE w
                v == IF o = "pages" /\ use = 1 THEN << >> ELSE IF bad = 1 THEN Append(r, "..") ELSE IF bad = 2 THEN <<"">> \o r ELSE IF bad = 3 THEN r \o <<".">> ELSE IF bad = 4 THEN r \o <<"", "a">> ELSE IF bad = 5 THEN << >> ELSE r
            IN h' = Append(h, [x |-> IF Len(h) = 0 THEN [o |-> "tree", p |-> << >>, ns |-> << >>] ELSE [o |-> o, ns |-> IF o = "pages" THEN ns ELSE << >>, p |-> IF bad > 5 /\ Len(r) > 4 THEN SubSeq(r, 1, 4) ELSE v]])
Next == Setup \/ Entry \/ Ask
Emit == c = None \/ Len(h) # Asks \/ PrintT("@@" \o ToJson([c |-> c, h |-> h]))

\* --- what holds of the specification itself
Done == c # None /\ Len(c.ents) = Ents + c.chain
Wellformed ==
  ~Done \/ Len(h) > 0
  \/ LET T == Extract(c)
     IN IsDir(T, << >>) /\ \A p \in DOMAIN T : (/\ p = << >> \/ (IsDir(T, Front(p)) /\ Valid(p))
                                               /\ T[p].k # "hard"
                                               /\ T[p].k = "reg" /\ T[p].c # 0 => c.ents[T[p].c].s = T[p].s)
\* the last entry for a name is what the name stands for, unless something after it took its place or a parent's
Took(j, p) == LET q == Cleaned(c.ents[j].n) IN ~Skipped(c, c.ents[j]) /\ (q = p \/ Under(p, q) \/ (Under(q, p) /\ c.ents[j].k # "dir"))
LastWins == ~Done \/ Len(h) > 0 \/ LET T == Extract(c) IN \A i \in 1..Len(c.ents) :
              LET e == c.ents[i]
                  p == Cleaned(e.n)
              IN (Skipped(c, e) \/ e.k = "hard" \/ (p # << >> /\ p[1] = "..") \/ (p = << >> /\ e.k # "dir") \/ \E j \in (i + 1)..Len(c.ents) : Took(j, p))
                 \/ (p \in DOMAIN T /\ T[p] = Made(e, i))
\* in a rooted filesystem nothing outside of it answers
Inside == c = None \/ h = << >> \/ ~c.rooted
          \/ LET T == Extract(c) s == Start(T, c) IN ~s.ok \/ ~IsDir(T, s.p) \/ LET f == Find(T, TRUE, s.p, h[Len(h)].x.p, TRUE) IN ~f.ok \/ f.p = s.p \/ Under(s.p, f.p)
===============================================================================
