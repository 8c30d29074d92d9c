----------------------------- MODULE SimArcBytes -----------------------------
(* Random archives of plain and sparse files, and histories of calls on several handles at once. *)
EXTENDS ArcBytes, Json
CONSTANTS Ents, Depth
VARIABLES c, st, h
D(S) == {RandomElement(S)}
Pick(r, s) == s[(r % Len(s)) + 1]
None == [k |-> "none"]
Init == c = None /\ st = 0 /\ h = << >>
Gaps(n) == [i \in 1..n |-> RandomElement({0, 1, 1, 2, 3, 7, 12})]
Lens(n) == [i \in 1..n |-> RandomElement({0, 1, 1, 2, 3, 5, 9})]
RECURSIVE Frags(_, _, _, _)
\* fragments one after another: gap, length, gap, length ...
Frags(gs, ls, j, at) == IF j > Len(gs) THEN << >>
                        ELSE LET o == at + gs[j] IN <<[o |-> o, l |-> ls[j]]>> \o Frags(gs, ls, j + 1, o + ls[j])
End(g) == IF g = << >> THEN 0 ELSE g[Len(g)].o + g[Len(g)].l
Kinds == <<"reg", "reg", "old", "old", "old", "p00", "p01", "p01", "p10", "p10", "p10", "cont", "long", "hard", "dir", "global", "odd">>
Setup == c.k = "none" /\ c' = [k |-> "build", ents |-> << >>] /\ UNCHANGED <<st, h>>
Entry == /\ c.k = "build" /\ Len(c.ents) < Ents /\ UNCHANGED <<st, h>>
         /\ \E k \in D(1..Len(Kinds)), n \in D({"a", "b", "c"}), z \in D({0, 1, 2, 3, 4, 5, 6, 20, 25, 26, 50, 130}), big \in D(1..6), bl \in D({511, 512, 513, 300}), tail \in D({0, 0, 1, 5, 600}),
               s \in D({0, 1, 9, 511, 512, 513, 700}), wide \in D(BOOLEAN), fin \in D(1..3) :
            \E gs \in D({Gaps(z)}), ls \in D({Lens(z)}) :
               LET ls1 == IF big = 1 /\ z > 0 THEN [ls EXCEPT ![(s % z) + 1] = bl] ELSE ls
                   gs1 == IF big = 2 /\ z > 0 THEN [gs EXCEPT ![(s % z) + 1] = bl] ELSE gs
                   g0 == Frags(gs1, ls1, 1, 0)
                   \* archive/tar takes a map of no fragments in the oldest format for no map at all
                   kk == IF Kinds[k] = "p00" /\ z = 0 THEN "p01" ELSE Kinds[k]
                   sp == kk \in {"old", "p00", "p01", "p10"}
                   size == IF sp THEN End(g0) + tail ELSE IF kk \in {"dir", "global", "hard"} THEN 0 ELSE s
                   \* what GNU tar ends a map with
                   g == IF sp /\ fin = 1 /\ tail > 0 THEN Append(g0, [o |-> size, l |-> 0]) ELSE IF sp THEN g0 ELSE << >>
               IN c' = [c EXCEPT !.ents = Append(@, [n |-> n, k |-> kk, s |-> size, g |-> g, wide |-> wide])]
Begin == c.k = "build" /\ Len(c.ents) = Ents /\ st' = Files(c) /\ c' = [c EXCEPT !.k = "bytes"] /\ h' = h
Ops == <<"open", "open", "read", "read", "read", "read", "readat", "readat", "readat", "seek", "seek", "stat", "cat", "size", "close", "all">>
Op == /\ c.k = "bytes" /\ Len(h) < Depth /\ c' = c
      /\ \E o \in D(1..Len(Ops)), s \in D(1..3), p \in D({"a", "b", "c"}), n \in D({1, 1, 2, 3, 5, 9, 17, 64, 700}), wh \in D(0..2), f \in D({0, 1, 2, 3, 5, 8, 30, 511, 512, 513}), neg \in D(1..3),
            near \in D(1..3), zero \in D(1..12), live \in D(1..3) :
           LET s1 == IF live = 1 \/ \A t \in 1..3 : ~st.hs[t].open THEN s ELSE CHOOSE t \in 1..3 : st.hs[t].open /\ (st.hs[s].open => t = s)
               hh == st.hs[s1]
               size == IF hh.i = 0 THEN 0 ELSE Len(st.data[hh.i])
               o1 == IF hh.i = 0 \/ (Ops[o] \in {"close", "stat"} /\ ~hh.open) THEN IF Ops[o] \in {"cat", "size"} THEN Ops[o] ELSE "open" ELSE Ops[o]
               at == IF near = 1 THEN f ELSE IF near = 2 THEN Max2(0, size - f) ELSE RandomElement(0..(size + 2))
               x == [o |-> o1, s |-> s1, p |-> p, q |-> p, acc |-> "r", creat |-> FALSE, excl |-> FALSE, app |-> FALSE, trunc |-> FALSE, b |-> << >>,
                     n |-> IF zero = 1 /\ o1 = "read" /\ hh.open THEN 0 ELSE n,
                     off |-> IF o1 = "seek" THEN IF wh = 0 THEN IF zero = 2 THEN -1 ELSE at ELSE IF neg > 1 THEN -f ELSE f ELSE at, wh |-> IF zero = 3 THEN 7 ELSE wh]
           IN h' = Append(h, [x |-> x]) /\ st' = Do(st, x).st
Next == Setup \/ Entry \/ Begin \/ Op
Emit == Len(h) # Depth \/ PrintT("@@" \o ToJson([c |-> c, h |-> h]))
Sane == c.k # "bytes" \/ (/\ \A s \in 1..3 : st.hs[s].pos >= 0
                   /\ \A j \in 1..Len(st.data) : \A k \in 1..Len(st.data[j]) : st.data[j][k] \in 0..250)
==============================================================================
