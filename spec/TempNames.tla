-------------------------------- MODULE TempNames -------------------------------
(* Names for temporaries: what a policy can make, what its clean-up may remove, and *)
(* that making one never touches what is there. Names are sequences of characters,  *)
(* paths sequences of names.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digits(s) == Len(s) = 10 /\ \A i \in 1..10 : s[i] \in Digit
Tmp == <<".", "t", "m", "p">>
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Chop(s, n) == SubSeq(s, 1, Len(s) - n)
\* base "." ten digits ".tmp"
RandomName(n) == Ends(n, Tmp) /\ LET m == Chop(n, 4)
                                 IN Len(m) > 11 /\ Digits(SubSeq(m, Len(m) - 9, Len(m))) /\ m[Len(m) - 10] = "."
DirName(n) == Ends(n, Tmp) /\ Digits(Chop(n, 4))
Last(p) == p[Len(p)]
Front(p) == SubSeq(p, 1, Len(p) - 1)
Under(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Own(C, p) == p # << >> /\ IF C.pol = "random" THEN RandomName(Last(p)) ELSE Front(p) = C.dir /\ DirName(Last(p))
\* deeper below the directory for temporaries: documented as "within", made by nobody
Unsaid(C, p) == C.pol = "dir" /\ p # << >> /\ Under(C.dir, p) /\ Front(p) # C.dir /\ DirName(Last(p))
MatchOk(C, t) == Unsaid(C, t.p) \/ t.y = Own(C, t.p)
\* t.was: all paths before, t.left: those after a walk from t.root; t.bad: removing failed somewhere
Gone(C, root, p) == \E k \in (Len(root) + 1)..Len(p) : Own(C, SubSeq(p, 1, k)) /\ Under(root, p)
CleanOk(C, t) ==
  LET was == {t.was[i] : i \in 1..Len(t.was)}  left == {t.left[i] : i \in 1..Len(t.left)}
  IN /\ left \subseteq was
     /\ \A p \in was \ left : Gone(C, t.root, p)
     /\ IF t.bad THEN t.e # "nil" ELSE t.e = "nil" /\ \A p \in left : ~Gone(C, t.root, p)
\* Making one below t.dir, where the first t.m names tried turned out taken, by each kind of thing. Names made, in order.
MakeOk(C, t) ==
  /\ t.same                                         \* nothing that was there has changed
  /\ CASE t.pat = "bad" -> t.e = "badpattern" /\ t.got = << >>
       [] t.miss -> t.e = "noent" /\ t.got = << >>
       [] t.m >= 10000 -> t.e = "maxretry" /\ t.got = << >>
       [] OTHER -> t.e = "nil" /\ Len(t.got) = 1 /\ t.got[1].new /\ t.got[1].fits /\ t.got[1].own
\* Several making names at once where only t.slots different names exist.
CrowdOk(C, t) == t.same /\ Len(t.got) = t.n /\ \A i, j \in 1..Len(t.got) : i # j => t.got[i] # t.got[j]
Ok(C, t) == CASE t.c.o = "match" -> MatchOk(C, t)
              [] t.c.o = "clean" -> CleanOk(C, t)
              [] t.c.o = "make" -> MakeOk(C, t)
              [] t.c.o = "crowd" -> CrowdOk(C, t)
=================================================================================
