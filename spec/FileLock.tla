------------------------------ MODULE FileLock ------------------------------
(* Whole-file locks taken through handles.

   A history is the order of events seen: a call made [e "call", h handle, o operation, n file, l level], its
   return [e "ret", h, ok], and moments at which nothing more was going to happen by itself [e "quiet"].
   A handle is [f file (0: not open), l level held (0 none, 1 shared, 2 exclusive), o pending call ("" none), w level asked for]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slots == 1..3
NoHandle == [f |-> 0, l |-> 0, o |-> "", w |-> 0]
Start == [s \in Slots |-> NoHandle]
\* names of files: "f" and "g" are links of one file
File(n) == IF n \in {"f", "g"} THEN 1 ELSE 2
Clash(k, l) == k + l > 2 /\ k > 0 /\ l > 0
\* a handle whose call is under way may or may not have what it had before
Free(S, h, l) == \A g \in Slots \ {h} : S[g].f = S[h].f /\ S[g].f # 0 /\ S[g].o = "" => ~Clash(S[g].l, l)
SurelyFree(S, h, l) == \A g \in Slots \ {h} : S[g].f = S[h].f /\ S[g].f # 0 => ~Clash(S[g].l, l)
Waiting(S, h) == S[h].o = "lock" /\ S[h].f # 0 /\ S[h].w \in {1, 2}
Stuck(S) == \E h \in Slots : S[h].o # "" /\ (Waiting(S, h) => SurelyFree(S, h, S[h].w))

Call(S, e) == [S EXCEPT ![e.h].o = e.o, ![e.h].w = e.l, ![e.h].f = IF e.o = "open" THEN File(e.n) ELSE @]
Ret(S, h) ==
  LET x == S[h] IN
  [S EXCEPT ![h] = CASE x.o = "lock" /\ x.f # 0 /\ x.w \in {1, 2} -> [x EXCEPT !.l = x.w, !.o = ""]
                     [] x.o = "unlock" -> [x EXCEPT !.l = 0, !.o = ""]
                     [] x.o = "close" -> NoHandle
                     [] OTHER -> [x EXCEPT !.o = ""]]
Right(S, h, ok) ==
  LET x == S[h] IN
  CASE x.o = "open" -> ok
    [] x.f = 0 -> ~ok
    [] x.o = "lock" -> IF x.w \in {1, 2} THEN ok /\ Free(S, h, x.w) ELSE ~ok
    [] OTHER -> ok
RECURSIVE Bad(_, _, _)
Bad(S, h, j) ==
  IF j > Len(h) THEN 0
  ELSE LET e == h[j] IN
    CASE e.e = "call" -> Bad(Call(S, e), h, j + 1)
      [] e.e = "ret" -> IF Right(S, e.h, e.ok) THEN Bad(Ret(S, e.h), h, j + 1) ELSE j
      [] e.e = "quiet" -> IF Stuck(S) THEN j ELSE Bad(S, h, j + 1)
FirstBad(h) == Bad(Start, h, 1)
==============================================================================
