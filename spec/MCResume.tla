------------------------------ MODULE MCResume ------------------------------
(* Attempts in any order, each stopped at any step or not at all: the procedure stays within Done and Safe,
   never finishes with bytes of two versions, and can always be finished. *)
EXTENDS Resume
CONSTANTS Wrong,   \* "": the procedure; "late": the tag after the bytes; "stale": a tag left beside bytes of unknown origin; "once": the second answer's tag not compared
          Hide     \* sources may tell no tag
VARIABLES s, taint, ok
vars == <<s, taint, ok>>
C == [vs |-> <<[n |-> 3, etag |-> "a"], [n |-> 4, etag |-> "b"]>>]
Attempts == [k : {"pull"}, v1 : {1, 2}, v2 : {1, 2}, hideE : Hide, hideS : {FALSE}, expE : {"", "a"}, expS : {-1, 3}, cut : {"none", "err", "eof"},
             cat : {0, 2}, openErr : {0}, hooks : {<< >>, <<FALSE>>, <<TRUE>>}]
         \cup [k : {"push"}, v1 : {1, 2}, v2 : {1}, hideE : {FALSE}, hideS : {FALSE}, expE : {"known"} \cup (IF TRUE \in Hide THEN {""} ELSE {}), expS : {-1},
             cut : {"none", "err", "eof"}, cat : {0, 2}, openErr : {0}, hooks : {<< >>}]
Fix(a) == IF a.k = "push" /\ a.expE = "known" THEN [a EXCEPT !.expE = C.vs[a.v1].etag] ELSE a
PlanOf(a) == LET a1 == IF Wrong = "once" THEN [a EXCEPT !.expE = IF Clash(SrcE(C, a, a.v1), a.expE) THEN @ ELSE ""] ELSE a
             IN IF a.k = "push" THEN PushPlan(C, a, s) ELSE PullPlan(C, a1, s)
St(d, p, e) == [dest |-> d, part |-> p, side |-> e]
\* the stores one attempt passes through, with the bytes handed out until then
Path(a) ==
  LET p == PlanOf(a)
      av == IF p.do = "copy" THEN Avail(C, a, p.v, p.k) ELSE << >>
      kept == Take(Part(s), p.k)
      fresh == p.k = 0
      drop == IF a.k = "pull" /\ fresh /\ s.part # << >> /\ s.dest = << >> /\ Len(Part(s)) > 0 THEN <<St(<< >>, << >>, s.side), St(<< >>, << >>, << >>)>> ELSE << >>
      side0 == IF drop # << >> THEN << >> ELSE s.side
      new == IF p.eff = "" THEN IF fresh /\ Wrong # "stale" THEN << << >> >> ELSE <<side0>>
             ELSE IF side0 = <<p.eff>> THEN <<side0>> ELSE << <<"">>, <<p.eff>> >>
      tag == new[Len(new)]
      end == <<kept \o av>>
      done == IF ~Whole(C, a, p, s) THEN << >>
              ELSE IF HookFails(a) THEN <<[t |-> St(<< >>, << >>, tag), d |-> Len(av)], [t |-> St(<< >>, << >>, << >>), d |-> Len(av)]>>
              ELSE <<[t |-> St(end, << >>, tag), d |-> Len(av)], [t |-> St(end, << >>, << >>), d |-> Len(av)]>>
      open == <<[t |-> St(<< >>, <<kept>>, side0), d |-> 0]>>
      sides == [i \in 1..Len(new) |-> [t |-> St(<< >>, <<kept>>, new[i]), d |-> 0]]
      data == [i \in 1..Len(av) |-> [t |-> St(<< >>, <<kept \o Take(av, i)>>, IF Wrong = "late" THEN side0 ELSE tag), d |-> i]]
      late == IF Wrong = "late" THEN [i \in 1..Len(new) |-> [t |-> St(<< >>, end, new[i]), d |-> Len(av)]] ELSE << >>
  IN IF p.do = "stop" THEN [i \in 1..Len(drop) |-> [t |-> drop[i], d |-> 0]] \o <<[t |-> s, d |-> 0]>>
     ELSE IF p.do = "commit" THEN <<[t |-> s, d |-> 0], [t |-> St(s.part, << >>, s.side), d |-> 0], [t |-> St(s.part, << >>, << >>), d |-> 0]>>
     ELSE [i \in 1..Len(drop) |-> [t |-> drop[i], d |-> 0]] \o open \o (IF Wrong = "late" THEN << >> ELSE sides) \o data \o late \o done
Init == s = St(<< >>, << >>, << >>) /\ taint = FALSE /\ ok = TRUE
Unknown(a, p) == p.do # "stop" /\ (IF a.k = "push" THEN p.k > 0 /\ (a.expE = "" \/ Side(s) = "")
                               ELSE \/ p.k > 0 /\ (a.hideE \/ Side(s) = "")
                                    \/ a.hideE /\ a.expE \notin {"", C.vs[p.v].etag})
Bytes(t) == IF t.dest # << >> THEN t.dest[1] ELSE Part(t)
Try == /\ s.dest = << >>
       /\ \E a0 \in Attempts : LET a == Fix(a0) p == PlanOf(a) w == Path(a) n == Len(w) IN
            \E i \in 1..n :
              /\ s' = w[i].t
              /\ taint' = IF Bytes(w[i].t) = << >> THEN FALSE ELSE Unknown(a, p) \/ (taint /\ (p.k > 0 \/ w[i].t.part = s.part))
              /\ ok' = IF i < n THEN Safe(C, a, s, w[i].t, w[i].d, 0)
                       ELSE \E r \in {"ok", "hook", "short", "size", "src", "changed", "boom"} :
                              Done(C, a, s, [opens |-> p.opens, res |-> r, d |-> w[i].d, fired |-> FALSE, post |-> w[i].t])
\* the object is taken away and wanted again
Again == s.dest # << >> /\ s' = [s EXCEPT !.dest = << >>] /\ UNCHANGED <<taint, ok>>
Next == Try \/ Again
Accepted == ok
OneVersion == s.dest # << >> /\ ~taint => s.dest[1] \in {Content(C, 1), Content(C, 2)}
TagTrue == Side(s) # "" /\ ~taint => \A v \in 1..2 : C.vs[v].etag = Side(s) => Part(s) = Take(Content(C, v), Len(Part(s)))
\* one undisturbed attempt is always enough
CanFinish == s.dest = << >> => \A v \in 1..2 : \A e \in {"", C.vs[v].etag} :
  LET a == [k |-> "pull", v1 |-> v, v2 |-> v, hideE |-> FALSE, hideS |-> FALSE, expE |-> e, expS |-> -1, cut |-> "none", cat |-> 0, openErr |-> 0, hooks |-> << >>]
  IN /\ Succeeds(C, a, PullPlan(C, a, s), s)
     /\ ~taint /\ ~Unknown(a, PullPlan(C, a, s)) => Total(C, a, PullPlan(C, a, s), s) = Content(C, v)
     /\ Succeeds(C, [a EXCEPT !.k = "push"], PushPlan(C, [a EXCEPT !.k = "push"], s), s)
=============================================================================
