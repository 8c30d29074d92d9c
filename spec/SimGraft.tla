------------------------------ MODULE SimGraft ------------------------------
(* Random histories of Graft. *)
EXTENDS Graft
CONSTANTS Depth
VARIABLES c, st, h
E1(S) == {RandomElement(S)}
NS == {"a", "b", "c"}
Init == c = [um |-> ""] /\ st = 0 /\ h = << >>
New == /\ c.um = "" /\ \E u \in E1({"022", "022", "077"}) : c' = [um |-> u]
       /\ st' = Start(c') /\ h' = h
Name(k) == CASE k = 1 -> <<RandomElement(NS)>> [] k = 2 -> <<RandomElement(NS), RandomElement(NS)>> [] OTHER -> <<RandomElement(NS), RandomElement(NS), RandomElement(NS)>>
\* somewhere that exists, or one below it, or anywhere
Arg(T, b, n, k) == CASE k <= 2 -> n
                     [] k <= 4 -> Rel(b, RandomElement({q \in DOMAIN T : Within(b, q)}))
                     [] OTHER -> Append(Rel(b, RandomElement({q \in DOMAIN T : Within(b, q)})), RandomElement(NS))
Mk(o, v) == [o |-> o, b |-> Root, x |-> "", p |-> Root, q |-> Root, m |-> "755", a |-> FALSE, t |-> << >>, d |-> "", v |-> v, pol |-> "", src |-> << >>, tab |-> << >>, rl |-> TRUE, f |-> << >>, fop |-> ""]
\* a source tree: the root, up to three names in it and up to two names below each directory
Ent(p, k, j) == [p |-> p, k |-> k, m |-> IF k = "d" THEN (IF j % 2 = 0 THEN "750" ELSE "755") ELSE IF k = "l" THEN "" ELSE IF j % 3 = 0 THEN "640" ELSE IF j % 3 = 1 THEN "444" ELSE "644",
                 d |-> IF k = "f" THEN "s" \o ToString(Len(h)) \o Join(p) ELSE "", t |-> IF k = "l" THEN <<<<"a">>, <<"b", "a">>, <<"..", "c">>, <<"none">>>>[(j % 4) + 1] ELSE << >>]
Kinds3 == <<"d", "d", "f", "f", "l", "-", "-">>
SrcOf(r, rl) ==
  LET kind(j) == LET k == Kinds3[(j % 7) + 1] IN IF k = "l" /\ ~rl THEN "f" ELSE k
      top == {n \in NS : kind(r[<<n>>]) # "-"}
      low == {p \in {<<m, n>> : m \in NS, n \in NS} : p[1] \in top /\ kind(r[<<p[1]>>]) = "d" /\ kind(r[p]) # "-"}
      deep == {p \in {<<m, n, "a">> : m \in NS, n \in NS} : SubSeq(p, 1, 2) \in low /\ kind(r[SubSeq(p, 1, 2)]) = "d"}
      all == {<<n>> : n \in top} \cup low \cup deep
  IN {Ent(<< >>, "d", r[<<"a">>])} \cup {Ent(p, IF Len(p) = 3 THEN "f" ELSE kind(r[p]), r[p]) : p \in all}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Decs == <<"skip", "keep", "keep", "over", "over", "mk", "err">>
Pols == <<"nil", "mo", "mk", "fc", "tab", "tab", "tab", "tab">>
FPols == <<"nil", "mo", "mk", "fc", "skip", "keep", "over", "over", "err">>
Pick(s, k) == s[(k % Len(s)) + 1]
Do1(y) == \E x \in {IF Meant(st, y) THEN y ELSE [Mk("mkdir", "") EXCEPT !.p = <<"c">>]} :
          h' = Append(h, [x |-> x]) /\ st' = Plain(st, x) /\ c' = c
Build == \E o \in E1({"mkdir", "mkdir", "write", "write", "symlink", "link", "rename", "remove", "removeall"}), n \in E1({1, 1, 2}), m \in E1({1, 2, 2}), k \in E1(1..6), k2 \in E1(1..6), g \in E1(1..5) :
         \E n1 \in {Name(n)}, n2 \in {Name(m)} :
         \E p \in {Arg(st.s.t, Root, n1, k)}, q \in {Arg(st.s.t, Root, n2, k2)} :
           LET x0 == Mk(o, "")
               x == CASE o = "write" -> [x0 EXCEPT !.p = p, !.d = "w" \o ToString(Len(h))]
                      [] o = "symlink" -> [x0 EXCEPT !.p = p, !.t = <<<<"a">>, <<"b">>, <<"..", "a">>, <<"b", "c">>, <<"none">>>>[g]]
                      [] o \in {"link", "rename"} -> [x0 EXCEPT !.p = p, !.q = q]
                      [] OTHER -> [x0 EXCEPT !.p = p]
           IN Do1(x)
Base(k) == LET ds == {q \in DOMAIN st.s.t : Len(q) = 1 /\ st.s.t[q].k = "d"} IN IF k = 1 /\ ds # {} THEN RandomElement(ds) ELSE Root
Odd(k) == IF k = 1 THEN "esc" ELSE ""
File == \E kb \in E1(1..4), n \in E1({1, 1, 2, 3}), k \in E1(1..8), ko \in E1(1..30), po \in E1(0..8), m \in E1({"444", "640", "644"}) :
        \E b \in {Base(kb)}, n1 \in {Name(n)} : \E p \in {Arg(st.s.t, b, n1, k)} :
          LET v == "v" \o ToString(Len(h)) IN
          Do1([Mk("addfile", v) EXCEPT !.b = b, !.p = p, !.x = Odd(ko), !.pol = Pick(FPols, po), !.d = "g" \o ToString(Len(h)), !.m = m])
Fs == \E kb \in E1(1..4), n \in E1({1, 1, 2, 3}), k \in E1(1..8), ko \in E1(1..30), po \in E1(0..7), rl \in E1({TRUE, TRUE, FALSE}), root \in E1(1..3), fo \in E1(1..12), fk \in E1(1..3) :
      \E b \in {Base(kb)}, n1 \in {Name(n)},
         r \in {CHOOSE r \in {[p \in {<<m>> : m \in NS} \cup {<<m, n3>> : m \in NS, n3 \in NS} \cup {<<m, n3, "a">> : m \in NS, n3 \in NS} |-> RandomElement(0..200)]} : TRUE},
         dr \in {CHOOSE r \in {[p \in {<< >>} \cup {<<m>> : m \in NS} \cup {<<m, n3>> : m \in NS, n3 \in NS} \cup {<<m, n3, "a">> : m \in NS, n3 \in NS} |-> RandomElement(0..34)]} : TRUE} :
      \E p \in {IF root = 1 THEN Root ELSE Arg(st.s.t, b, n1, k)}, S \in {SrcOf(r, rl)} :
      \E f \in {RandomElement({e.p : e \in S})} :
        LET pol == Pick(Pols, po)
            v == "s" \o ToString(Len(h))
        IN Do1([Mk("addfs", v) EXCEPT !.b = b, !.p = p, !.x = IF p = Root THEN "" ELSE Odd(ko), !.pol = pol, !.src = SeqOf(S), !.rl = rl,
                !.tab = IF pol # "tab" THEN << >> ELSE SeqOf({[p |-> e.p, dec |-> Pick(Decs, dr[e.p])] : e \in {e \in S : dr[e.p] < (IF e.p = << >> THEN 7 ELSE 20) /\ (Pick(Decs, dr[e.p]) # "err" \/ dr[e.p] > 13)}}),
                !.f = IF fo = 1 /\ pol # "nil" THEN f ELSE << >>, !.fop = IF fo = 1 /\ pol # "nil" THEN <<"stat", "list", "readlink">>[fk] ELSE ""])
Change == \E v \in E1(DOMAIN st.live) : Do1([Mk("live", v) EXCEPT !.d = "c" \o ToString(Len(h))])
Next == \/ New
        \/ c.um # "" /\ Len(h) < Depth /\ \E k \in E1(1..20) :
             CASE k <= 9 -> Build [] k <= 13 -> File [] k <= 18 -> Fs [] OTHER -> IF DOMAIN st.live = {} THEN Fs ELSE Change
Emit == c.um = "" \/ Len(h) < Depth \/ PrintT("@@" \o ToJson([c |-> c, h |-> h]))
TypeOk == c.um = "" \/ TreeOk(st.s)
\* what a kept or skipped path and a name not mentioned mean
Sane == TypeOk
==============================================================================
