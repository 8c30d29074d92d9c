-------------------------------- MODULE SimTemp ---------------------------------
(* Random names near the ones policies make, trees of them, and crowded places.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES cfg, h
None == [k |-> "none"]
D(S) == {RandomElement(S)}
E(S) == RandomElement(S)
Chars == {"x", "é", ".", "0", "9", "*", "-", " ", "t"}
Pos == 1..12
\* base (0 to 3 characters), dot, digits, suffix, each possibly a little off
Base(n) == [i \in 1..n |-> RandomElement(Chars)]
Dig(n, k) == [i \in 1..n |-> IF i = k THEN RandomElement({"x", ".", "a", "٣", "é"}) ELSE RandomElement({"0", "4", "9", "1"})]
Suf == {<<".", "t", "m", "p">>, <<".", "t", "m">>, <<"t", "m", "p">>, <<".", "t", "m", "p", "x">>, <<".", "t", "m", "p", ".", "t", "m", "p">>, << >>}
Ok4 == <<".", "t", "m", "p">>
Name(z) == CHOOSE r \in {b \o dot \o d \o s : b \in D({Base(z.b)}), dot \in D({IF z.dot THEN <<".">> ELSE << >>}), d \in D({Dig(z.n, z.k)}),
                                              s \in D(IF z.s THEN {Ok4} ELSE Suf)} : TRUE
Zs == [b : {0, 0, 1, 2, 3}, dot : BOOLEAN, n : {9, 10, 11, 0}, k : {0, 0, 1, 5, 10}, s : BOOLEAN]
Near == [b : {0, 1, 2}, dot : BOOLEAN, n : {10}, k : {0}, s : {TRUE}]
RName(near) == CHOOSE r \in {Name(z) : z \in D(IF near THEN Near ELSE Zs)} : TRUE
T == <<"t", "m", "p">>
Dirs == { << >>, <<T>>, <<T, <<"i">> >>, <<T, <<"n">> >>, << <<"t", "m", "p", "x">> >>, << <<"t", "m">> >>, << <<"o">> >> }
Init == cfg = None /\ h = << >>
Paths(n) == [i \in 1..n |-> Append(RandomElement(Dirs), RName(RandomElement(1..3) > 1))]
Next == IF cfg = None
        THEN h' = h /\ \E pol \in D({"random", "dir"}), d \in D({<<T>>, <<T, <<"i">> >>, << >>}), sp \in D({"", "slash", "dot", "updown"}) :
               cfg' = [k |-> "temp", pol |-> pol, dir |-> d, sp |-> sp]
        ELSE /\ Len(h) < Depth /\ cfg' = cfg
             /\ \E o \in D({"match", "match2", "clean", "make", "make2", "crowd"}), n \in D(1..8), near \in D(1..3),
                   m \in D({0, 0, 1, 2, 5, 9999, 10000, 10001}), hard \in D(1..60), way \in D({"open", "mkdir", "create", "mkdirp"}),
                   pat \in D({"", "p", "*", "p*s", "*.tmp", "p*", "a.*.tmp", "bad"}), miss \in D(1..10), g \in D(2..8), kd \in D({"file", "dir", "link", "dangling", "dirlink"}),
                   root \in D({"all", "dir"}), f \in D(1..6) :
                \E p \in D({Append(RandomElement(Dirs), RName(near > 1))}), ps \in D({Paths(n)}),
                   ks \in D({[i \in 1..n |-> RandomElement({"file", "dir", "full", "link"})]}) :
                h' = Append(h, [o |-> CASE o = "match2" -> "match" [] o = "make2" -> "make" [] OTHER -> o, p |-> p, ps |-> ps, ks |-> ks,
                                m |-> IF m > 100 /\ (hard > 1 \/ o = "make2") THEN 3 ELSE m, way |-> way, pat |-> pat, miss |-> miss = 1, g |-> g, kd |-> kd, root |-> root,
                                f |-> IF f = 1 THEN 1 ELSE 0])
Emit == cfg = None \/ Len(h) # Depth \/ PrintT("@@" \o ToJson([c |-> cfg, h |-> h]))
=================================================================================
