--------------------------------- MODULE SimCopy ---------------------------------
(* Random trees to copy, trees to copy into, selections and things going wrong.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES c
D(S) == {RandomElement(S)}
Front(p) == SubSeq(p, 1, Len(p) - 1)
Up == {<<"a">>, <<"b">>, <<"a-">>, <<"a", "x">>, <<"a", "y">>, <<"b", "x">>, <<"a", "x", "z">>, <<"a", "x", "w">>}
Far == {<<"keep">>, <<"o">>, <<"o", "keep">>, <<"a", "x", "keep">>, <<"a", "keep">>, <<"r", "keep">>, <<"r", "q", "keep">>}
FModes == {"0644", "0600", "0755", "0777", "0640"}
DModes == {"0755", "0700", "0777", "0750"}
Special == {"4755", "2755", "1777"}
Texts == {"", "s", "st", "BIG"}
Link == {"x", "../b", "nowhere", "a/x", "."}
\* kinds drawn for paths, leaning to directories; d.d tells which content
Draw(P, sp) == [p \in P |-> [k |-> RandomElement({"-", "d", "d2", "f", "f2", "l"}), fm |-> RandomElement(FModes), dm |-> RandomElement(DModes), s |-> RandomElement(IF sp THEN 1..3 ELSE {9}),
                             sm |-> RandomElement(Special), t |-> RandomElement(Texts), l |-> RandomElement(Link)]]
K(x) == CASE x.k = "d2" -> "d" [] x.k = "f2" -> "f" [] OTHER -> x.k
Is(g, p) == (\A i \in 1..Len(p) : SubSeq(p, 1, i) \in DOMAIN g) /\ \A i \in 1..Len(p) : K(g[SubSeq(p, 1, i)]) = (IF i = Len(p) THEN K(g[p]) ELSE "d") /\ K(g[p]) # "-"
N(x, tx) == [k |-> K(x), m |-> CASE K(x) = "d" -> (IF x.s = 1 THEN x.sm ELSE x.dm) [] K(x) = "f" -> (IF x.s = 1 THEN x.sm ELSE x.fm) [] OTHER -> "-",
             d |-> CASE K(x) = "d" -> "" [] K(x) = "f" -> tx [] OTHER -> x.l]
Tree(g, old) == [p \in {q \in DOMAIN g : Is(g, q)} |-> N(g[p], IF old THEN IF g[p].t = "BIG" THEN "older than that" ELSE g[p].t \o "o" ELSE g[p].t)]
Seqs(S) == LET RECURSIVE F(_)  F(X) == IF X = {} THEN << >> ELSE LET x == CHOOSE y \in X : \A z \in X : Len(y) <= Len(z) IN <<x>> \o F(X \ {x}) IN F(S)
List(T) == LET s == Seqs(DOMAIN T) IN [i \in 1..Len(s) |-> [p |-> s[i], k |-> T[s[i]].k, m |-> T[s[i]].m, d |-> T[s[i]].d]]
\* Roots: where the copy goes
Rel(root, q) == Len(q) >= Len(root) /\ SubSeq(q, 1, Len(root)) = root
Init == c = [k |-> "none"]
Next ==
  /\ c.k = "none"
  /\ \E all \in D(BOOLEAN), root \in D({<< >>, <<"r">>, <<"r", "q">>, <<"keep">>}), sfs \in D({"mem", "os"}), dfs \in D({"mem", "os"}),
        sface \in D({"full", "full1", "plain"}), dface \in D({"full", "full1", "full2", "nolink"}), mask \in D({"nil", "unix", "700"}),
        ign \in D(1..4), f \in D(1..3), how \in D({"fail", "late", "short"}), abs \in D(1..25), rp \in D(1..6), busy \in D(1..3),
        sps \in D({"", "dot", "slash"}), ns \in D(1..4), pure \in D(1..4), cl \in D({"", "noent", "perm"}) :
       \E gs \in D({Draw(Up, sfs = "os" /\ dfs = "os" /\ mask = "unix")}),
          gd \in D({Draw({root \o p : p \in Up} \cup Far \cup {root} \cup {SubSeq(root, 1, k) : k \in 1..Len(root)}, FALSE)}) :
         LET S == Tree(gs, FALSE)
             links == ~(sface = "plain" \/ dface = "nolink")
             \* root's own way is there and a directory, mostly; few collisions unless busy
             g2 == [p \in DOMAIN gd \ {<< >>} |->
                      IF root # << >> /\ rp > 1 /\ p \in {SubSeq(root, 1, k) : k \in 1..Len(root)} /\ root # <<"keep">> THEN [gd[p] EXCEPT !.k = "d"]
                      ELSE IF busy > 1 /\ Rel(root, p) /\ p # root /\ SubSeq(p, Len(root) + 1, Len(p)) \in Up
                           THEN (LET o == SubSeq(p, Len(root) + 1, Len(p)) IN
                                 IF busy = 2 \/ o \notin DOMAIN S \/ S[o].k = "l" THEN [gd[p] EXCEPT !.k = "-"] ELSE [gd[p] EXCEPT !.k = IF @ = "-" THEN "-" ELSE S[o].k])
                      ELSE gd[p]]
             T0 == Tree(g2, TRUE)
             \* no links where something else is to go, or on the way to the root
             T == [q \in {x \in DOMAIN T0 : T0[x].k = "l" => /\ ~(Rel(x, root) /\ ~(Rel(root, x) /\ x # root))
                                                            /\ (Rel(root, x) => LET o == SubSeq(x, Len(root) + 1, Len(x)) IN ~(o \in DOMAIN S) \/ S[o].k = "l")} |-> T0[q]]
             pool == IF DOMAIN S = {} THEN Up ELSE DOMAIN S
         IN \E sel \in D({[i \in 1..ns |-> IF RandomElement(1..20) = 1 THEN RandomElement(Up \cup {<< >>}) ELSE RandomElement(pool)]}) :
              LET sel1 == IF sface = "plain" THEN SelectSeq(sel, LAMBDA p : p \notin DOMAIN S \/ S[p].k # "l") ELSE sel
              IN c' = [k |-> "copy", all |-> all, sel |-> IF all THEN << >> ELSE sel1, root |-> root, abs |-> abs = 1 /\ ~all, links |-> links,
                       mask |-> mask, ign |-> ign = 1 /\ all, S |-> List(S), T |-> List(T), sfs |-> sfs, dfs |-> dfs, plain |-> sface = "plain", nolink |-> dface = "nolink",
                       f |-> f = 1, how |-> how, class |-> cl, sps |-> sps, pure |-> pure]
Emit == c.k = "none" \/ PrintT("@@" \o ToJson([c |-> c, h |-> << >>]))
==================================================================================
