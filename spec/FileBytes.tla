------------------------------ MODULE FileBytes ------------------------------
(* Files as byte sequences under names, and handles on them.

   A state is [names, data, ro, hs]: the file each name stands for (0: none), the bytes of each file ever made,
   which of them cannot be written, and the handles: [i, pos, r, w, app, open] by slot (i = 0: never opened).
   Do(st, x) is what call x gives: [ok, eof, n, b, st]; eof is "yes", "no" or "any". *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Zeros(n) == [i \in 1..n |-> 0]
From(s, off, n) == IF off >= Len(s) THEN << >> ELSE SubSeq(s, off + 1, Min2(Len(s), off + n))
\* s with b put at offset off, the gap before it filled with zeros
Put(s, off, b) ==
  IF b = << >> THEN s
  ELSE LET t == IF Len(s) < off THEN s \o Zeros(off - Len(s)) ELSE s
       IN SubSeq(t, 1, off) \o b \o From(t, off + Len(b), Len(t))
Cut(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))

R(ok, n, b, eof, st) == [ok |-> ok, n |-> n, b |-> b, eof |-> eof, st |-> st]
No(st) == R(FALSE, 0, << >>, "any", st)
NoH == [i |-> 0, pos |-> 0, r |-> FALSE, w |-> FALSE, app |-> FALSE, open |-> FALSE]
SetPos(st, s, p) == [st EXCEPT !.hs[s].pos = p]
SetData(st, i, b) == [st EXCEPT !.data[i] = b]

Open(st, x) ==
  LET i == st.names[x.p]
      h(j) == [i |-> j, pos |-> 0, r |-> x.acc # "w", w |-> x.acc # "r", app |-> x.app, open |-> TRUE]
  IN IF i = 0 THEN IF ~x.creat THEN No(st)
                   ELSE LET j == Len(st.data) + 1
                        IN R(TRUE, 0, << >>, "any", [st EXCEPT !.data = Append(@, << >>), !.ro = Append(@, FALSE), !.names[x.p] = j, !.hs[x.s] = h(j)])
     ELSE IF x.creat /\ x.excl THEN No(st)
     ELSE IF st.ro[i] /\ (x.acc # "r" \/ x.app \/ x.trunc) THEN No(st)
     ELSE R(TRUE, 0, << >>, "any", [st EXCEPT !.hs[x.s] = h(i), !.data[i] = IF x.trunc /\ x.acc # "r" THEN << >> ELSE @])

OnHandle(st, x) ==
  LET h == st.hs[x.s]
      d == st.data[h.i]
  IN IF ~h.open THEN No(st)
     ELSE CASE x.o = "read" -> IF ~h.r THEN No(st)
                               ELSE LET b == From(d, h.pos, x.n)
                                    IN R(TRUE, Len(b), b, IF x.n = 0 THEN "any" ELSE IF b = << >> THEN "yes" ELSE IF h.pos + Len(b) >= Len(d) THEN "any" ELSE "no",
                                         SetPos(st, x.s, h.pos + Len(b)))
            [] x.o = "readat" -> IF ~h.r \/ x.off < 0 THEN No(st)
                                 ELSE LET b == From(d, x.off, x.n)
                                      IN R(TRUE, Len(b), b, IF x.n = 0 THEN "any" ELSE IF Len(b) < x.n THEN "yes" ELSE IF x.off + Len(b) >= Len(d) THEN "any" ELSE "no", st)
            [] x.o \in {"write", "writes"} ->
                 IF ~h.w THEN No(st)
                 ELSE LET p == IF h.app THEN Len(d) ELSE h.pos
                      IN R(TRUE, Len(x.b), << >>, "any", SetPos(SetData(st, h.i, Put(d, p, x.b)), x.s, p + Len(x.b)))
            [] x.o = "writeat" -> IF ~h.w \/ h.app \/ x.off < 0 THEN No(st)
                                  ELSE R(TRUE, Len(x.b), << >>, "any", SetData(st, h.i, Put(d, x.off, x.b)))
            [] x.o = "seek" -> LET p == CASE x.wh = 0 -> x.off [] x.wh = 1 -> h.pos + x.off [] x.wh = 2 -> Len(d) + x.off [] OTHER -> -1
                               IN IF p < 0 THEN No(st) ELSE R(TRUE, p, << >>, "any", SetPos(st, x.s, p))
            [] x.o = "trunc" -> IF ~h.w \/ x.off < 0 THEN No(st) ELSE R(TRUE, 0, << >>, "any", SetData(st, h.i, Cut(d, x.off)))
            [] x.o = "stat" -> R(TRUE, Len(d), << >>, "any", st)
            [] x.o = "sync" -> R(TRUE, 0, << >>, "any", st)
            [] x.o = "close" -> R(TRUE, 0, << >>, "any", [st EXCEPT !.hs[x.s].open = FALSE])
            [] x.o = "all" -> IF ~h.r THEN No(st)   \* everything from here on, by io.Copy
                              ELSE LET b == From(d, h.pos, Len(d)) IN R(TRUE, Len(b), b, "any", SetPos(st, x.s, h.pos + Len(b)))

Do(st, x) ==
  CASE x.o = "open" -> Open(st, x)
    [] x.o = "cat" -> LET i == st.names[x.p] IN IF i = 0 THEN No(st) ELSE R(TRUE, Len(st.data[i]), st.data[i], "any", st)
    [] x.o = "size" -> LET i == st.names[x.p] IN IF i = 0 THEN No(st) ELSE R(TRUE, Len(st.data[i]), << >>, "any", st)
    [] x.o = "rm" -> IF st.names[x.p] = 0 THEN No(st) ELSE R(TRUE, 0, << >>, "any", [st EXCEPT !.names[x.p] = 0])
    [] x.o = "mv" -> LET i == st.names[x.p] IN
                     IF i = 0 THEN No(st)
                     ELSE R(TRUE, 0, << >>, "any", IF st.names[x.q] = i THEN st ELSE [st EXCEPT !.names = [@ EXCEPT ![x.p] = 0, ![x.q] = i]])
    [] x.o = "ln" -> IF st.names[x.p] = 0 \/ st.names[x.q] # 0 THEN No(st) ELSE R(TRUE, 0, << >>, "any", [st EXCEPT !.names[x.q] = st.names[x.p]])
    [] OTHER -> OnHandle(st, x)

Start(c) == [names |-> [p \in {"a", "b", "c"} |-> IF p = "a" /\ c.init THEN 1 ELSE 0], data |-> IF c.init THEN <<c.data>> ELSE << >>,
             ro |-> IF c.init THEN <<c.ro>> ELSE << >>, hs |-> [s \in 1..3 |-> NoH]]
Fits(w, r) == /\ w.ok = r.ok /\ w.n = r.n /\ w.b = r.b
              /\ r.ok => (w.eof = "any" \/ (w.eof = "yes") = r.eof)
RECURSIVE Bad(_, _, _)
Bad(st, h, j) == IF j > Len(h) THEN 0
                 ELSE LET w == Do(st, h[j].x) IN IF Fits(w, h[j].r) THEN Bad(w.st, h, j + 1) ELSE j
FirstBad(c, h) == Bad(Start(c), h, 1)
=============================================================================
