------------------------------ MODULE SimResume ------------------------------
(* Random scenarios of Resume: a store in some state and attempts on it, most of them sound but for one thing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind,      \* "pull", "push", "sink"
          Depth      \* attempts
VARIABLES c, n
D(S) == {RandomElement(S)}
Pick(r, s) == s[(r % Len(s)) + 1]
NoAt == [k |-> "", v1 |-> 1, v2 |-> 1, hideE |-> FALSE, hideS |-> FALSE, expE |-> "", expS |-> -1, cut |-> "none", cat |-> 0, openErr |-> 0,
         hooks |-> << >>, chunk |-> 0, ch |-> "", cancel |-> -1, at |-> 0, how |-> "", class |-> "", side |-> "", src |-> "",
         op |-> "", off |-> 0, etag |-> "", v |-> 1, n |-> 0, fail |-> FALSE]
Init == c = [k |-> "none"] /\ n = 0
Sizes == <<0, 1, 3, 7, 12, 7, 12>>
Start ==
  /\ c.k = "none"
  /\ \E fs \in D({"mem", "os", "mem2"}), sfx \in D({"", ".tmp"}), buf \in D({0, 2, 5}), z1 \in D(0..6), z2 \in D(0..6), z3 \in D(0..6), tags \in D(1..5),
        ip \in D(1..8), il \in D(0..14), iv \in D(1..4), is \in D(1..6), ifin \in D(1..10), perm \in D({420, 384}) :
       LET E(v) == CASE tags = 1 -> "" [] tags = 2 /\ v # 2 -> "" [] OTHER -> CHOOSE t \in {"e1", "e2", "e3"} : (v = 1 /\ t = "e1") \/ (v = 2 /\ t = "e2") \/ (v = 3 /\ t = "e3")
       IN c' = [k |-> Kind, fs |-> IF fs = "mem2" THEN "mem" ELSE fs, sfx |-> sfx, buf |-> buf, perm |-> perm,
                vs |-> <<[n |-> Pick(z1, Sizes), etag |-> E(1)], [n |-> Pick(z2, Sizes), etag |-> E(2)], [n |-> Pick(z3, Sizes), etag |-> E(3)]>>,
                \* a part of iv's bytes (4: bytes of no version), with or without a tag
                part |-> IF ip <= 3 THEN il ELSE -1, pv |-> IF iv = 4 /\ ip = 1 THEN 6 ELSE IF iv = 4 THEN 1 ELSE iv,
                tag |-> CASE ip > 4 \/ is = 1 -> "" [] is = 2 -> "e2" [] is = 3 -> "zz" [] is = 4 -> "e1" [] OTHER -> E(IF iv = 4 THEN 1 ELSE iv),
                final |-> IF ifin = 1 THEN il ELSE -1, as |-> << >>]
  /\ n' = 0
OfAttempt ==
  \E v \in D({1, 2, 3, 11, 12, 13, 14}), w \in D({1, 2, 3, 10, 11, 12, 13, 14}), he \in D(1..8), hs \in D(1..5), ee \in D(1..8), es \in D(1..6), cut \in D(1..8),
     cat \in D(0..12), oe \in D(1..40), hk \in D(1..10), chunk \in D(1..4), ch \in D({"", "", "eof", "zero"}), ca \in D(1..8), cn \in D(0..4), f \in D(1..3), at \in D(1..26),
     how \in D({"fail", "late", "short", "crash", "crashlate"}), cl \in D({"", "perm"}), sd \in D({"l", "r", "r2"}), src \in D(1..5), tw \in D(1..3) :
    LET v1 == IF v > 10 THEN 1 + ((Len(c.as) \div 3) % 3) ELSE v
        v2 == IF w > 9 THEN v1 ELSE w
        odd == tw = 1
        push == Kind = "push"
        expE == CASE ee \in {1, 2} -> "" [] ee = 3 /\ odd -> "e2" [] ee = 4 /\ odd -> "zz" [] ee = 5 /\ odd -> c.vs[v2].etag [] OTHER -> c.vs[v1].etag
        expS == CASE es \in {1, 2} -> -1 [] es = 3 /\ odd -> cat [] es = 4 /\ odd -> c.vs[v2].n [] OTHER -> c.vs[v1].n
        fault == f = 1
    IN c' = [c EXCEPT !.as = Append(@, [NoAt EXCEPT !.k = Kind, !.v1 = v1, !.v2 = IF push THEN v1 ELSE v2,
               !.hideE = he = 1 /\ ~push, !.hideS = hs = 1 /\ ~push, !.expE = IF push THEN (IF ee = 1 THEN "" ELSE c.vs[v1].etag) ELSE expE, !.expS = expS,
               !.cut = IF push /\ cat >= c.vs[v1].n THEN "none" ELSE CASE cut \in {1, 2} -> "err" [] cut = 3 -> "eof" [] cut = 4 /\ odd /\ ~push -> "extra" [] OTHER -> "none", !.cat = cat,
               !.openErr = IF push THEN (IF oe <= 4 THEN oe ELSE 0) ELSE IF oe <= 2 THEN oe ELSE 0,
               !.hooks = IF push THEN << >> ELSE CASE hk = 1 -> <<TRUE>> [] hk = 2 -> <<FALSE, TRUE>> [] hk \in {3, 4} -> <<FALSE>> [] hk = 5 -> <<FALSE, FALSE>> [] OTHER -> << >>,
               !.chunk = Pick(chunk, <<1, 2, 3, 20>>), !.ch = ch, !.cancel = IF ca = 1 THEN cn ELSE -1,
               !.at = IF fault THEN IF sd = "l" THEN 1 + ((at - 1) % 6) ELSE at ELSE 0, !.how = how, !.class = cl, !.side = IF push /\ sd = "l" THEN "l" ELSE "r", !.src = IF src = 1 THEN "fs" ELSE ""])]
OfSink ==
  \E op \in D({"append", "append2", "state", "commit"}), off \in D({0, 0, 1, 2, 3, 5, 7, 12, 20, 30}), near \in D(1..3), e \in D({"", "e1", "e2", "e1"}), v \in D(1..3), m \in D(0..12), f \in D(1..5) :
    c' = [c EXCEPT !.as = Append(@, [NoAt EXCEPT !.k = "sink", !.op = IF op = "append2" THEN "append" ELSE op, !.off = IF off >= 20 THEN off - 100 ELSE off, !.etag = e, !.v = v, !.n = m, !.fail = f = 1])]
Next == \/ Start
        \/ c.k # "none" /\ Len(c.as) < Depth /\ n' = n + 1 /\ (IF Kind = "sink" THEN OfSink ELSE OfAttempt)
Emit == c.k = "none" \/ Len(c.as) < Depth \/ PrintT("@@" \o ToJson([c |-> c, h |-> << >>]))
==============================================================================
