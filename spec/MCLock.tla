------------------------------- MODULE MCLock --------------------------------
(* Locks granted one at a time to handles that ask in any order, judged by FileLock: the events the handles
   see are fed to the same state. Wrong: "barge" grants what clashes; "keep" leaves a converted lock at the
   stronger level; "late" lets a closed handle keep its lock. *)
EXTENDS FileLock
CONSTANTS Wrong, Steps
VARIABLES S, k, n, bad     \* as seen; what the kernel holds for each handle; calls made; a wrong answer was seen
Init == S = [s \in Slots |-> [NoHandle EXCEPT !.f = 1]] /\ k = [s \in Slots |-> 0] /\ n = 0 /\ bad = FALSE
Ask == /\ n < Steps /\ n' = n + 1
       /\ \E h \in Slots, o \in {"lock", "unlock", "close", "open"}, l \in {1, 2} :
            /\ S[h].o = "" /\ (o = "open" <=> S[h].f = 0)
            /\ S' = Call(S, [e |-> "call", h |-> h, o |-> o, n |-> "f", l |-> l])
       /\ UNCHANGED <<k, bad>>
Ok(h, l) == Wrong = "barge" \/ \A g \in Slots \ {h} : ~Clash(k[g], l)
Drop == \E h \in Slots : Waiting(S, h) /\ k[h] > 0 /\ k[h] # S[h].w /\ Wrong # "keep" /\ k' = [k EXCEPT ![h] = 0] /\ UNCHANGED <<S, n, bad>>   \* conversions let go first
Answer == \E h \in Slots :
  /\ S[h].o # "" /\ UNCHANGED n
  /\ IF Waiting(S, h)
     THEN /\ Ok(h, S[h].w) /\ k' = [k EXCEPT ![h] = IF Wrong = "keep" THEN (IF @ > S[h].w THEN @ ELSE S[h].w) ELSE S[h].w]
     ELSE k' = [k EXCEPT ![h] = IF S[h].o = "unlock" \/ (S[h].o = "close" /\ Wrong # "late") THEN 0 ELSE @]
  /\ bad' = (bad \/ ~Right(S, h, TRUE)) /\ S' = Ret(S, h)
Next == Ask \/ Drop \/ Answer
\* what the two states say of each other
Exclusion == ~bad /\ \A g, h \in Slots : g # h => ~Clash(k[g], k[h])
Moves == ~ENABLED Drop /\ ~ENABLED Answer => ~Stuck(S)
Holds == \A h \in Slots : S[h].o = "" => k[h] = S[h].l
==============================================================================
