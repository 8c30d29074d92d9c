-------------------------------- MODULE Graft --------------------------------
(* Adding files and trees to a synthetic filesystem (FsTree), entry by entry as a callback decides.

   A state is [s, live, um]: the tree; the bytes behind each view (a file bound to a view has the view's token
   as its content and cannot be written); the umask. A source tree is path -> [k, m, d, t].
   While a tree is added, the callback is asked about one source entry after the other: its parent before it,
   siblings in any order, and below a directory only if it was merged or replaced. *)
EXTENDS FsTree, Json

Mask(um, m) == IF um = "077" THEN (CASE m = "755" -> "700" [] m = "644" -> "600" [] OTHER -> m) ELSE m
Start(c) == [s |-> [t |-> (Root :> D(IF c.um = "077" THEN "700" ELSE "755")), c |-> << >>], live |-> << >>, um |-> c.um, bound |-> {}]
Tree(es) == [p \in {es[j].p : j \in 1..Len(es)} |-> LET e == CHOOSE e \in {es[j] : j \in 1..Len(es)} : e.p = p IN [k |-> e.k, m |-> e.m, d |-> e.d, t |-> e.t]]
RECURSIVE Join(_)
Join(p) == IF p = << >> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))

ReadOnly(st, q) == Kind(st.s.t, q) = "f" /\ st.s.c[st.s.t[q].i].d \in DOMAIN st.live

(* what one decision means at `at` for source entry e with token tok *)
Replace(s, at, e, tok) == LET s1 == IF Has(s.t, at) THEN Drop(s, at) ELSE s
                          IN CASE e.k = "d" -> Put(s1, at, D(e.m)) [] e.k = "f" -> NewFile(s1, at, tok, e.m) [] e.k = "l" -> Put(s1, at, L(FALSE, e.t))
Place(s, at, e, tok, dec) ==
  CASE dec \in {"skip", "err"} -> s
    [] dec = "over" -> Replace(s, at, e, tok)
    [] dec = "keep" -> IF e.k = "d" /\ ~Has(s.t, at) THEN Put(s, at, D(e.m)) ELSE s
Descends(s, at, e, dec) == e.k = "d" /\ (dec = "over" \/ (dec = "keep" /\ Kind(s.t, at) \in {"-", "d"}))

(* the stock policies *)
Dec(x, rel, ik, ek) ==
  LET pol == IF x.pol = "tab" /\ \E j \in 1..Len(x.tab) : x.tab[j].p = rel
             THEN (CHOOSE e \in {x.tab[j] : j \in 1..Len(x.tab)} : e.p = rel).dec
             ELSE IF x.pol \in {"tab", "nil"} THEN "mo" ELSE x.pol
  IN CASE pol = "mo" -> IF ek = "-" THEN "over" ELSE IF ik = "d" /\ ek = "d" THEN "keep" ELSE "over"
       [] pol = "mk" -> IF ek = "-" THEN "over" ELSE "keep"
       [] pol = "fc" -> IF ek = "-" THEN "over" ELSE IF ik = "d" /\ ek = "d" THEN "keep" ELSE "err"
       [] OTHER -> pol

(* the directory a name lands in, missing ones made on the way *)
RECURSIVE Scaffold(_, _, _, _, _)
Scaffold(s, b, p, m, k) ==
  IF k > Len(p) THEN LET x == Resolve(s, b, p, TRUE) IN [ok |-> TRUE, s |-> s, p |-> x.p]
  ELSE LET pre == SubSeq(p, 1, k)
           x == Resolve(s, b, pre, TRUE)
           y == Resolve(s, b, pre, FALSE)
       IN IF x.e # "" THEN [ok |-> FALSE, s |-> s, p |-> p]
          ELSE IF Kind(s.t, x.p) = "d" THEN Scaffold(s, b, p, m, k + 1)
          ELSE IF Has(s.t, x.p) \/ Kind(s.t, y.p) = "l" THEN [ok |-> FALSE, s |-> s, p |-> p]
          ELSE Scaffold(Put(s, x.p, D(m)), b, p, m, k + 1)
Dir(st, x) == Scaffold(st.s, x.b, Parent(x.p), Mask(st.um, "755"), 1)

Kids(S, rel) == {q \in DOMAIN S : Len(q) = Len(rel) + 1 /\ SubSeq(q, 1, Len(rel)) = rel}
Tok(x, rel) == x.v \o ":" \o Join(rel)
\* tokens for the files of a source
Tokens(x, S) == LET F0 == {p \in DOMAIN S : S[p].k = "f"} IN [k \in {Tok(x, p) : p \in F0} |-> (CHOOSE p \in F0 : Tok(x, p) = k)]
WithLive(st, x, S) == LET T == Tokens(x, S) IN [st EXCEPT !.live = [k \in DOMAIN T |-> S[T[k]].d] @@ @]

(* the whole graft, siblings in alphabetical order; x: "" or "err" *)
RECURSIVE Graft(_, _, _, _, _), GraftAll(_, _, _, _, _, _)
Graft(a, x, S, at, rel) ==
  IF a.x # "" THEN a
  ELSE LET e == S[rel]
           ek == Kind(a.s.t, at)
           dec == Dec(x, rel, e.k, ek)
           s2 == Place(a.s, at, e, Tok(x, rel), dec)
       IN IF dec = "err" THEN [a EXCEPT !.x = "err"]
          ELSE IF Descends(a.s, at, e, dec) THEN GraftAll([a EXCEPT !.s = s2], x, S, at, rel, Sorted({q[Len(q)] : q \in Kids(S, rel)}, 1))
          ELSE [a EXCEPT !.s = s2]
GraftAll(a, x, S, at, rel, names) ==
  IF names = << >> THEN a
  ELSE GraftAll(Graft(a, x, S, Append(at, Head(names)), Append(rel, Head(names))), x, S, at, rel, Tail(names))

R(oks, st) == [oks |-> oks, st |-> st]       \* whether it may succeed, and the state
Basic(st, x) ==
  LET ro == x.o = "write" /\ LET y == Resolve(st.s, x.b, x.p, TRUE) IN y.e = "" /\ ReadOnly(st, y.p)
      op == [x EXCEPT !.m = IF x.o = "mkdir" THEN Mask(st.um, @) ELSE @]
      new == x.o = "write" /\ LET y == Resolve(st.s, x.b, x.p, TRUE) IN y.e = "" /\ ~Has(st.s.t, y.p)
      o == Step(st.s, op)
      s2 == IF new /\ o.r = "ok" THEN LET y == Resolve(o.s, x.b, x.p, TRUE) IN [o.s EXCEPT !.c[o.s.t[y.p].i].m = Mask(st.um, "644")] ELSE o.s
  IN IF ro THEN R({FALSE}, st)
     ELSE IF o.r = "skip" THEN R({}, st)
     ELSE R({o.r = "ok"}, [st EXCEPT !.s = s2])

AddFile(st, x) ==
  LET st1 == [st EXCEPT !.live = (x.v :> x.d) @@ @]
      l == Dir(st1, x)
      at == Append(l.p, x.p[Len(x.p)])
      ek == Kind(l.s.t, at)
      dec == Dec(x, << >>, "f", ek)
  IN IF Kind(st.s.t, x.b) # "d" \/ x.p = Root \/ x.x = "esc" THEN R({FALSE}, st1)
     ELSE IF ~l.ok THEN R({FALSE}, [st1 EXCEPT !.s = l.s])
     ELSE IF dec = "err" THEN R({FALSE}, [st1 EXCEPT !.s = l.s])
     ELSE IF dec = "over" THEN R({TRUE}, [st1 EXCEPT !.s = Replace(l.s, at, [k |-> "f", m |-> x.m], x.v), !.bound = @ \cup {x.v}])
     ELSE R({TRUE}, [st1 EXCEPT !.s = l.s])

\* as the callback's log tells it: S = [s, prev, pend, bad, err]
RECURSIVE Follow(_, _, _, _, _, _, _)
Follow(a, x, S, at, lp, log, j) ==
  IF j > Len(log) \/ a.bad THEN a
  ELSE LET e == log[j]
           rel == SubSeq(e.p, Len(lp) + 1, Len(e.p))
           to == at \o rel
       IN IF a.err \/ ~(Len(e.p) >= Len(lp) /\ SubSeq(e.p, 1, Len(lp)) = lp) \/ rel \notin a.pend THEN [a EXCEPT !.bad = TRUE]
          ELSE LET n == S[rel]
                   ek == Kind(a.s.t, to)
                   em == CASE ek = "d" -> a.s.t[to].m [] ek = "f" -> a.s.c[a.s.t[to].i].m [] OTHER -> ""
                   dec == Dec(x, rel, n.k, ek)
               IN IF e.ik # n.k \/ e.ek # ek \/ (n.k # "l" /\ e.im # n.m) \/ (ek \in {"d", "f"} /\ e.em # em) \/ ~e.same \/ e.dec # dec THEN [a EXCEPT !.bad = TRUE]
                  ELSE Follow([a EXCEPT !.prev = a.s, !.s = Place(a.s, to, n, Tok(x, rel), dec), !.err = dec = "err",
                               !.pend = (@ \ {rel}) \cup (IF Descends(a.s, to, n, dec) THEN Kids(S, rel) ELSE {})], x, S, at, lp, log, j + 1)

AddFs(st, x, r) ==
  LET S == Tree(x.src)
      st1 == WithLive(st, x, S)
      l == IF x.p = Root THEN [ok |-> TRUE, s |-> st.s, p |-> x.b] ELSE Dir(st1, x)
      at == IF x.p = Root THEN x.b ELSE Append(l.p, x.p[Len(x.p)])
      g == IF x.p = Root THEN GraftAll([s |-> l.s, x |-> ""], x, S, at, << >>, Sorted({q[Len(q)] : q \in Kids(S, << >>)}, 1))
           ELSE Graft([s |-> l.s, x |-> ""], x, S, at, << >>)
      f == Follow([s |-> l.s, prev |-> l.s, pend |-> IF x.p = Root THEN Kids(S, << >>) ELSE {<< >>}, bad |-> FALSE, err |-> FALSE], x, S, at, x.p, r.log, 1)
      st2(s) == [st1 EXCEPT !.s = s]
  IN IF Kind(st.s.t, x.b) # "d" \/ x.x = "esc" THEN {R({FALSE}, st1)}
     ELSE IF ~l.ok THEN {R({FALSE}, st2(l.s))}
     ELSE IF x.pol = "nil" THEN {R({g.x = ""}, st2(g.s))}
     ELSE IF f.bad THEN {}
     ELSE IF r.hit THEN {R({FALSE}, st2(f.s)), R({FALSE}, st2(f.prev))}
     ELSE {R({~f.err /\ f.pend = {}}, st2(f.s))}
\* for generating: no faults, no log
AddFsPlain(st, x) ==
  LET S == Tree(x.src)
      st1 == WithLive(st, x, S)
      l == IF x.p = Root THEN [ok |-> TRUE, s |-> st.s, p |-> x.b] ELSE Dir(st1, x)
      at == IF x.p = Root THEN x.b ELSE Append(l.p, x.p[Len(x.p)])
      g == IF x.p = Root THEN GraftAll([s |-> l.s, x |-> ""], x, S, at, << >>, Sorted({q[Len(q)] : q \in Kids(S, << >>)}, 1))
           ELSE Graft([s |-> l.s, x |-> ""], x, S, at, << >>)
  IN IF x.x = "esc" THEN st1 ELSE IF ~l.ok THEN [st1 EXCEPT !.s = l.s] ELSE [st1 EXCEPT !.s = g.s]

Live(st, x) == R({TRUE}, IF x.v \in DOMAIN st.live THEN [st EXCEPT !.live[x.v] = x.d] ELSE st)

Outcomes(st, x, r) == CASE x.o = "addfile" -> {AddFile(st, x)} [] x.o = "addfs" -> AddFs(st, x, r) [] x.o = "live" -> {Live(st, x)} [] OTHER -> {Basic(st, x)}
Plain(st, x) == CASE x.o = "addfile" -> AddFile(st, x).st [] x.o = "addfs" -> AddFsPlain(st, x) [] x.o = "live" -> Live(st, x).st [] OTHER -> Basic(st, x).st
Meant(st, x) == IF x.o = "live" THEN TRUE
                ELSE IF x.o \in {"addfile", "addfs"} THEN Kind(st.s.t, x.b) = "d"
                ELSE Basic(st, x).oks # {}

(* what can be seen *)
Bytes(st, i) == LET d == st.s.c[i].d IN IF d \in DOMAIN st.live THEN st.live[d] ELSE d
Show(st) == {LET n == st.s.t[p] IN
             CASE n.k = "d" -> [p |-> p, k |-> "d", m |-> n.m, d |-> "", t |-> << >>]
               [] n.k = "f" -> [p |-> p, k |-> "f", m |-> st.s.c[n.i].m, d |-> Bytes(st, n.i), t |-> << >>]
               [] n.k = "l" -> [p |-> p, k |-> "l", m |-> "", d |-> "", t |-> n.t] : p \in DOMAIN st.s.t}
InTree(st, v) == \E i \in DOMAIN st.s.c : st.s.c[i].d = v
Set(q) == {q[j] : j \in 1..Len(q)}
\* a view is closed once, when its last name is gone
Closed(st, r) == \A e \in Set(r.closed) : e.v \in st.bound => e.n = IF InTree(st, e.v) THEN 0 ELSE 1
Fits(o, r) == r.ok \in o.oks /\ r.n = Cardinality(Set(r.tree)) /\ Set(r.tree) = Show(o.st) /\ Closed(o.st, r)
RECURSIVE Bad(_, _, _)
Bad(st, h, j) == IF j > Len(h) \/ ~Meant(st, h[j].x) THEN 0     \* a failed source may lead where an operation has no specified outcome
                 ELSE LET O == {o \in Outcomes(st, h[j].x, h[j].r) : Fits(o, h[j].r)}
                      IN IF O = {} THEN j ELSE Bad((CHOOSE o \in O : TRUE).st, h, j + 1)
FirstBad(c, h) == Bad(Start(c), h, 1)
==============================================================================
