-------------------------------- MODULE SafeWrite --------------------------------
(* Replacing a file (or directory) at once.                                         *)
(*                                                                                  *)
(* A scenario C: k what is done ("write", "copy", "copyfs"), pol where temporaries  *)
(* go, old what the target is ("none", "file", "link", "edir", "dir"), par its      *)
(* parent ("ok", "missing", "file"), dpre/apre/apost/dpost the hooks (TRUE: it      *)
(* fails), chunks and bf what is written and where the caller's writer (reader,     *)
(* source) fails (0: nowhere), ign whether a failing close of the temporary is      *)
(* ignored.                                                                         *)
(*                                                                                  *)
(* Seen from outside a run is a sequence of events, each with what the target shows *)
(* right after it (t) and the number k of other new entries:                        *)
(*   call   a call on the filesystem: op, how it was made to go wrong, ok           *)
(*   stage  a hook or the body ended: w which, ok                                   *)
(*   nest   another safe write of the same target ran to its end: ok                *)
(*   ret    the end: e the failures it reports, or "nil", "crash"; rest: is         *)
(*          everything else as it was                                               *)
(*   clean  the policy's clean-up has gone over the tree                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Hooks(w, s) == [i \in 1..Len(s) |-> [w |-> w, i |-> i, fails |-> s[i]]]
Stages(C) == Hooks("dpre", C.dpre) \o Hooks("apre", C.apre) \o <<[w |-> "body", i |-> 0, fails |-> C.bf > 0]>>
             \o Hooks("apost", C.apost) \o Hooks("dpost", C.dpost)
\* a reason to fail without anything going wrong
NoTemp(C) == IF C.pol = "random" THEN C.par # "ok" ELSE C.pol \in {"deep", "taken"}
NoPlace(C) == C.par # "ok" \/ (IF C.k = "copyfs" THEN C.old \in {"file", "link", "dir"} \/ (C.old = "edir" /\ C.fs = "os")   \* package os renames onto no directory
                           ELSE C.old \in {"edir", "dir"})

\* Where a run is: the target, stages over, "go" | "fail" | "done", what failed first.
Start == [cur |-> "old", pos |-> 0, st |-> "go", why |-> "", at |-> ""]
Reject == [cur |-> "old", pos |-> 0, st |-> "reject", why |-> "", at |-> ""]
\* Calls whose failure must not be passed over. Closing is the last chance to learn that data did not arrive.
Counts(C, e) == e.op \notin {"removeall", "remove", "lstat", "stat", "fstat", "readlink"} /\ ~(e.op = "close" /\ e.tmp /\ C.ign)
Fail(S, why, at) == IF S.why # "" THEN S ELSE [S EXCEPT !.st = "fail", !.why = why, !.at = at]

OnCall(C, S, e) ==
  LET commit == e.t # S.cur
      may == S.st = "go" /\ S.pos = Len(Stages(C)) /\ e.t = "new" /\ e.how # "fail" /\ e.how # "crash"
      T == IF commit THEN [S EXCEPT !.cur = "new", !.st = "done"] ELSE S
  IN IF commit /\ ~may THEN Reject
     ELSE IF ~e.ok /\ e.how = "" /\ e.op \in {"create", "mkdir", "rename"} THEN Fail(T, "other", "")
     ELSE IF e.ok \/ e.how = "" \/ S.st = "fail" \/ ~Counts(C, e) THEN [T EXCEPT !.at = IF e.how # "" THEN e.op ELSE @]
     ELSE IF commit THEN [T EXCEPT !.why = "inj", !.at = e.op]
     ELSE Fail([T EXCEPT !.at = e.op], "inj", e.op)
OnStage(C, S, e) ==
  LET q == S.pos + 1
  IN IF S.pos >= Len(Stages(C)) \/ S.st = "done" \/ e.t # S.cur THEN Reject
     ELSE LET g == Stages(C)[q]
          IN IF \/ g.w # e.w \/ g.i # e.i \/ (g.fails /\ e.ok)
                \/ (S.st = "fail" /\ (e.ok \/ S.why # "inj"))       \* nothing starts after a failure
                \/ (~e.ok /\ ~g.fails /\ S.why # "inj" /\ S.at = "") THEN Reject   \* a failed call may stop it even if it need not
             ELSE LET T == [S EXCEPT !.pos = q] IN IF e.ok THEN T ELSE Fail(T, IF ~g.fails THEN "inj" ELSE IF S.at = "" THEN e.w ELSE "any", S.at)
OnNest(C, S, e) ==
  IF e.ok THEN (IF e.t = "new2" THEN [S EXCEPT !.cur = "new2"] ELSE Reject)
  ELSE IF (NoTemp(C) \/ NoPlace(C)) /\ e.t = S.cur THEN S ELSE Reject
OnRet(C, S, e) ==
  LET fine == e.t = S.cur /\ e.rest
  IN CASE e.e = "crash" -> IF fine THEN S ELSE Reject
       [] e.e = "nil" -> IF fine /\ S.st = "done" /\ S.why = "" /\ e.k = 0 THEN S ELSE Reject
       [] OTHER ->
            IF /\ fine
               /\ S.st = "done" => S.why = "inj"
               /\ CASE S.why = "" -> NoTemp(C) \/ NoPlace(C) \/ (S.at # "" /\ "inj" \in e.is)
                    [] S.why = "any" -> e.is # {}
                    [] S.why = "other" -> NoTemp(C) \/ NoPlace(C)
                    [] OTHER -> S.why \in e.is \/ ("body" \in e.is /\ C.bf > 0)   \* the source may fail before a call does
               /\ e.k = 0 \/ S.at \in {"removeall", "remove"} \/ (e.late /\ S.at \in {"create", "mkdir"})
            THEN S ELSE Reject
OnClean(S, e) == IF e.k = 0 /\ e.rest /\ e.t = S.cur THEN S ELSE Reject
On(C, S, e) == CASE e.e0 = "call" -> OnCall(C, S, e)
                 [] e.e0 = "stage" -> OnStage(C, S, e)
                 [] e.e0 = "nest" -> OnNest(C, S, e)
                 [] e.e0 = "ret" -> OnRet(C, S, e)
                 [] e.e0 = "clean" -> OnClean(S, e)
\* the first event that no run may show, 0 if there is none
RECURSIVE Scan(_, _, _, _)
Scan(C, h, i, S) == IF i > Len(h) THEN 0
                    ELSE LET T == On(C, S, h[i]) IN IF T.st = "reject" THEN i ELSE Scan(C, h, i + 1, T)
FirstBad(C, h) == Scan(C, h, 1, Start)
================================================================================
