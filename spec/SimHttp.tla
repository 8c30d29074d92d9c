-------------------------------- MODULE SimHttp --------------------------------
(* Random histories of reads over an object that may change or be misserved.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, ViewKind, Batches, Faults
VARIABLES cfg, h
None == [k |-> "none"]
D(S) == {RandomElement(S)}
Etags == {"", "a", "b", "W/a", "W/b"}
Lms == {"", "x", "y"}
\* How the server answers one request: a fault, the version to switch to first (0: none), which validators it leaves
\* out, where it answers from, how its body comes.
Act(v) == [a |-> IF RandomElement(1..10) <= Faults
                 THEN RandomElement({"shift", "short", "long", "full", "trunc", "cut", "gzip", "500", "404", "neterr", "416", "nocr", "star", "empty", "total", "badcr"})
                 ELSE "ok",
           v |-> IF RandomElement(1..5) = 1 THEN RandomElement(1..3) ELSE 0,
           x |-> RandomElement({"", "", "", "", "et", "lm", "both"}),
           og |-> IF RandomElement(1..12) = 1 THEN 1 ELSE 0,
           ch |-> RandomElement({1, 2, 3, 100}), m |-> RandomElement({"eof", "eager"})]
RECURSIVE Acts(_)
Acts(n) == IF n = 0 THEN << >> ELSE Append(Acts(n - 1), Act(n))
Version(n) == [sz |-> RandomElement({0, 1, 5, 8, 8, 8, 12}), et |-> RandomElement(Etags), lm |-> RandomElement(Lms)]
Near(v, n) == [sz |-> IF RandomElement(1..3) = 1 THEN RandomElement({0, 1, 7, 9}) ELSE v.sz,
               et |-> IF RandomElement(1..2) = 1 THEN RandomElement(Etags) ELSE v.et,
               lm |-> IF RandomElement(1..2) = 1 THEN RandomElement(Lms) ELSE v.lm]
Pick(n, v) == IF RandomElement(1..4) = 1 THEN v ELSE n
Init == cfg = None /\ h = << >>
Next == IF cfg = None
        THEN /\ h' = h
             /\ \E v1 \in {Version(1)} : \E v2 \in {Near(v1, 2)}, v3 \in {Near(v1, 3)} :
                \E b \in D(0..9), l \in D(-1..12), pk \in D(1..4), w \in D(1..3), acts \in {Acts(10)} :
                \E pv \in {<<v1, v1, v2>>[w]} :
                  cfg' = [k |-> ViewKind, b |-> b, l |-> l, vs |-> <<v1, v2, v3>>, acts |-> acts,
                          pe |-> IF pk = 2 THEN pv.et ELSE "", pl |-> IF pk \in {2, 3} THEN pv.lm ELSE "",
                          ps |-> IF pk \in {1, 2} /\ pv.sz > 0 THEN pv.sz ELSE -1]
        ELSE /\ Len(h) < Depth /\ cfg' = cfg
             /\ \E o \in D({"next1", "next2", "next3", "next4", "next5", "at", "at2", "probe", "close"}), y \in D(1..4), k \in D({0, 1, 2, 3, 5, 20}), f \in D(-1..14), t \in D(1..3) :
                \E nm \in {CASE o \in {"probe", "close"} -> (IF y = 1 THEN o ELSE "at") [] OTHER -> "at"} :
                  h' = Append(h, [o |-> nm, k |-> k, nx |-> o \notin {"at", "at2"},
                                  f |-> f,
                                  g |-> IF Batches /\ h # << >> /\ t # 1 /\ nm # "close" /\ h[Len(h)].o # "close" THEN h[Len(h)].g ELSE Len(h) + 1])
Emit == cfg = None \/ Len(h) # Depth \/ PrintT("@@" \o ToJson([c |-> cfg, h |-> h]))
================================================================================
