-------------------------------- MODULE MCSafe --------------------------------
(* The procedure: make a temporary, hooks, body, hooks, close, rename, and on any   *)
(* failure close and remove the temporary. Any call may fail before or after it     *)
(* took effect, the process may stop anywhere, and another safe write of the same   *)
(* target may run between any two calls. Every run shows the target old or new and  *)
(* is one SafeWrite accepts.                                                        *)
EXTENDS SafeWrite
CONSTANT Order     \* "right", or a wrong procedure: "early" (renames before the post hooks), "keep" (no clean-up), "place" (writes in place)
VARIABLES C, pc, h, shows, temp, faults, why, pos

vars == <<C, pc, h, shows, temp, faults, why, pos>>
Bits == {<< >>, <<FALSE>>, <<TRUE>>}
Init == /\ C \in [k : {"write"}, fs : {"mem"}, pol : {"random", "deep"}, old : {"file", "dir"}, par : {"ok", "missing"}, dpre : Bits, apre : {<< >>},
                   apost : Bits, dpost : Bits, chunks : {<<1>>}, bf : {0, 1}, ign : BOOLEAN]
        /\ pc = "create" /\ h = << >> /\ shows = "old" /\ temp = FALSE /\ faults = 1 /\ why = "" /\ pos = 0
Call(op, how, ok, t) == [e0 |-> "call", op |-> op, how |-> how, ok |-> ok, t |-> t, tmp |-> TRUE]
\* one call op whose effect is (t shown, tmp there) and which goes on to nx, or to the clean-up when it fails
Try(op, natural, t, tm, nx) ==
  \/ /\ ~natural
     /\ h' = Append(h, Call(op, "", TRUE, t)) /\ shows' = t /\ temp' = tm /\ pc' = nx /\ UNCHANGED <<faults, why>>
  \/ /\ natural /\ h' = Append(h, Call(op, "", FALSE, shows)) /\ why' = "other" /\ pc' = (IF op = "create" THEN "ret" ELSE "fail") /\ UNCHANGED <<shows, temp, faults>>
  \/ /\ faults > 0 /\ faults' = 0
     /\ \E how \in {"fail", "late", "crash", "crashlate"} :
          /\ how \in {"late", "crashlate"} => ~natural
          /\ LET done == how \in {"late", "crashlate"}
             IN /\ h' = Append(h, Call(op, how, FALSE, IF done THEN t ELSE shows))
                /\ shows' = (IF done THEN t ELSE shows) /\ temp' = (IF done THEN tm ELSE temp)
                /\ IF how \in {"crash", "crashlate"} THEN pc' = "dead" /\ UNCHANGED why
                   ELSE IF op = "close" /\ C.ign THEN pc' = nx /\ UNCHANGED why
                   ELSE why' = (IF why = "" THEN "inj" ELSE why) /\ pc' = (IF op = "create" THEN "ret" ELSE IF op \in {"removeall", "close2"} THEN nx ELSE "fail")
\* where the procedure goes after stage number p; the early one renames before the post hooks
After(p) == LET body == \E q \in 1..p : Stages(C)[q].w = "body"
            IN IF Order = "early" THEN (IF body /\ temp THEN "close" ELSE IF p = Len(Stages(C)) THEN "ret" ELSE "stage")
               ELSE IF p = Len(Stages(C)) THEN "close" ELSE "stage"
Stage == LET g == Stages(C)[pos + 1]
         IN /\ pos' = pos + 1 /\ h' = Append(h, [e0 |-> "stage", w |-> g.w, i |-> g.i, ok |-> ~g.fails, t |-> shows])
            /\ IF g.fails THEN why' = g.w /\ pc' = "fail" ELSE why' = why /\ pc' = After(pos + 1)
            /\ UNCHANGED <<shows, temp, faults>>
Nest == /\ pc \in {"stage", "close", "rename", "fail", "remove"} /\ shows # "new2" /\ ~NoTemp(C) /\ ~NoPlace(C)
        /\ h' = Append(h, [e0 |-> "nest", ok |-> TRUE, t |-> "new2"]) /\ shows' = "new2" /\ UNCHANGED <<pc, temp, faults, why, pos>>
End(e) == h' = Append(h, [e0 |-> "ret", e |-> e, is |-> {why}, t |-> shows, k |-> IF temp THEN 1 ELSE 0, rest |-> TRUE, late |-> Len(h) = 1])
          /\ pc' = "over" /\ UNCHANGED <<shows, temp, faults, why, pos>>
Next ==
  C' = C /\
  CASE pc = "create" -> pos' = pos /\ Try("create", NoTemp(C), IF Order = "place" THEN "other" ELSE shows, TRUE, "stage")
    [] pc = "stage" -> Nest \/ Stage
    [] pc = "close" -> Nest \/ (pos' = pos /\ Try("close", FALSE, shows, TRUE, "rename"))
    [] pc = "rename" -> Nest \/ (pos' = pos /\ Try("rename", NoPlace(C), "new", FALSE, IF pos = Len(Stages(C)) THEN "ret" ELSE "stage"))
    [] pc = "fail" -> Nest \/ (pos' = pos /\ Try("close2", FALSE, shows, temp, IF Order = "keep" THEN "ret" ELSE "remove"))
    [] pc = "remove" -> Nest \/ (pos' = pos /\ Try("removeall", FALSE, shows, FALSE, "ret"))
    [] pc = "dead" -> End("crash")
    [] pc = "ret" -> End(IF why = "" THEN "nil" ELSE "err")
    [] OTHER -> FALSE
Whole == shows \in {"old", "new", "new2"}
Accepted == pc = "over" => FirstBad(C, h) = 0
\* what a wrong procedure must not get past
Caught == ~(pc = "over" /\ FirstBad(C, h) # 0)
===============================================================================
