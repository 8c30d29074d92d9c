------------------------------- MODULE ArcBytes -------------------------------
(* The files of an archive as byte sequences: what FileBytes says about read-only handles on what each entry holds.
   An entry [n, k, s, g] is size s with data where the fragments g of [o, l] say; the rest are holes. "hard" shares
   what "a" holds at that point; or, if it holds nothing yet, what it does in the end when nothing else has the name. *)
EXTENDS FileBytes
V(i, k) == ((i * 37 + k * 11 + k \div 251) % 250) + 1
In(e, k) == IF e.k \in {"reg", "cont", "long"} THEN TRUE ELSE \E j \in 1..Len(e.g) : k >= e.g[j].o /\ k < e.g[j].o + e.g[j].l
Holds(e, i) == [k \in 1..e.s |-> IF In(e, k - 1) THEN V(i, k - 1) ELSE 0]
IsFile(e) == e.k \notin {"dir", "global", "odd", "hard"}
RECURSIVE Fill(_, _, _)
Fill(st, c, i) ==
  IF i > Len(c.ents) THEN st
  ELSE LET e == c.ents[i]
           m == Len(st.data) + 1
       IN IF IsFile(e) THEN Fill([st EXCEPT !.data = Append(@, TLCEval(Holds(e, i))), !.ro = Append(@, TRUE), !.names[e.n] = m], c, i + 1)
          ELSE IF e.k = "hard" /\ st.names["a"] # 0 THEN Fill([st EXCEPT !.names[e.n] = st.names["a"]], c, i + 1)
          ELSE Fill(st, c, i + 1)
RECURSIVE Late(_, _, _)
Late(st, c, i) ==
  IF i > Len(c.ents) THEN st
  ELSE LET e == c.ents[i]
       IN Late(IF e.k = "hard" /\ st.names[e.n] = 0 THEN [st EXCEPT !.names[e.n] = st.names["a"]] ELSE st, c, i + 1)
Files(c) == Late(Fill([names |-> [p \in {"a", "b", "c"} |-> 0], data |-> << >>, ro |-> << >>, hs |-> [s \in 1..3 |-> NoH]], c, 1), c, 1)

\* A read may stop early, but not at nothing.
AfterRead(st, x, r) ==
  LET h == st.hs[x.s]
      d == st.data[h.i]
      want == From(d, h.pos, x.n)
      got == Len(r.b)
  IN [ok |-> IF ~h.open THEN ~r.ok
             ELSE /\ r.ok /\ r.n = got /\ got <= Len(want) /\ r.b = SubSeq(want, 1, got)
                  /\ (got = 0) = (want = << >>)
                  /\ (x.n > 0 /\ want = << >>) => r.eof
                  /\ r.eof => (x.n = 0 \/ h.pos + got >= Len(d)),
      st |-> IF h.open THEN SetPos(st, x.s, h.pos + got) ELSE st]
Judged(st, x, r) == IF x.o = "read" THEN AfterRead(st, x, r) ELSE LET w == Do(st, x) IN [ok |-> Fits(w, r), st |-> w.st]
RECURSIVE Off(_, _, _)
Off(st, h, j) == IF j > Len(h) THEN 0 ELSE LET w == Judged(st, h[j].x, h[j].r) IN IF w.ok THEN Off(w.st, h, j + 1) ELSE j
===============================================================================
