-------------------------------- MODULE Lin ---------------------------------
(* Calls on one filesystem and its handles, each one step on the tree of FsTree.

   A state adds to a tree: h, what is open; n, a counter. A file that is open stays in the tree under a name no
   path reaches, <<"#", id>>; a directory has an identity u, made when it is. Directory handles keep what they
   have shown. A call is a record [o, id handle, b view, p, q, a, t, m, d, n, fl flags]. *)
EXTENDS FsTree

Range(q) == {q[j] : j \in 1..Len(q)}
Pin(id) == <<"#", ToString(id)>>
NoOpen == [k |-> "", off |-> 0, app |-> FALSE, w |-> FALSE, r |-> FALSE, d0 |-> "", u |-> << >>, fresh |-> TRUE, at0 |-> {}, poss |-> {}, seen |-> {}, due |-> {}, at |-> Root]
Ids == 1..39
Start(t, c) == [t |-> t, c |-> c, h |-> [x \in {} |-> NoOpen], n |-> 0]
Handle(s, id) == IF id \in DOMAIN s.h THEN s.h[id] ELSE NoOpen

\* --- directories and what their handles may still show ---
Tag(t, n) == [p \in DOMAIN t |-> IF t[p].k = "d" /\ "u" \notin DOMAIN t[p] THEN [k |-> "d", m |-> t[p].m, u |-> <<n, p>>] ELSE t[p]]
DirsOf(t, u) == {q \in DOMAIN t : t[q].k = "d" /\ t[q].u = u}
EntriesAt(t, q) == {<<x[Len(x)], t[x].k>> : x \in Children(t, q)}
Follow(h, t, t2) ==
  IF h.k # "d" \/ h.fresh THEN h
  ELSE LET A == DirsOf(t, h.u)
           B == DirsOf(t2, h.u)
       IN IF A = {} \/ B = {} THEN [h EXCEPT !.due = {}, !.seen = {}]
          ELSE LET a == CHOOSE x \in A : TRUE
                   b == CHOOSE x \in B : TRUE
                   stays(n) == Has(t, Append(a, n)) /\ Has(t2, Append(b, n)) /\ t[Append(a, n)] = t2[Append(b, n)]
               IN [h EXCEPT !.due = {n \in @ : stays(n)}, !.seen = {n \in @ : stays(n)}, !.poss = @ \cup EntriesAt(t2, b)]
\* the outcome o of an operation on the tree, with the rest of the state brought along
Lift(s, o) ==
  LET t2 == IF o.s.t = s.t THEN s.t ELSE Tag(o.s.t, s.n + 1)
  IN [r |-> o.r, v |-> o.v, s |-> [t |-> t2, c |-> o.s.c, n |-> s.n + 1, h |-> [x \in DOMAIN s.h |-> Follow(s.h[x], s.t, t2)]]]
Tree(s) == [t |-> s.t, c |-> s.c]
No(r, s) == [r |-> r, v |-> "", s |-> s]

\* --- opening and closing ---
Bind(o, id, p, h) ==
  LET s == o.s IN [o EXCEPT !.s.t = (Pin(id) :> F(s.t[p].i)) @@ @, !.s.h = (id :> [h EXCEPT !.k = "f", !.d0 = s.c[s.t[p].i].d]) @@ @]
Open(s, e) ==
  LET fl == Range(e.fl)
      cr == "c" \in fl
      ex == cr /\ "x" \in fl
      w == fl \cap {"w", "rw"} # {}
      h == [NoOpen EXCEPT !.app = "a" \in fl, !.w = w, !.r = "w" \notin fl]
      x == Resolve(s, e.b, e.p, ~ex)
      q == x.p
  IN IF x.e # "" THEN No(ResClass(x), s)
     ELSE IF x.h > SureHops THEN No("skip", s)
     ELSE IF ~Has(s.t, q)
     THEN IF cr THEN Bind(Lift(s, Out("ok", "", NewFile(Tree(s), q, "", "644"))), e.id, q, h) ELSE No("noent", s)
     ELSE IF ex THEN No("exist", s)
     ELSE IF s.t[q].k = "d"
     THEN IF w \/ cr THEN No("err", s)
          ELSE [r |-> "ok", v |-> "", s |-> [s EXCEPT !.h = (e.id :> [h EXCEPT !.k = "d", !.u = s.t[q].u, !.at = q, !.at0 = EntriesAt(s.t, q)]) @@ @]]
     ELSE Bind(Lift(s, Out("ok", "", IF "t" \in fl THEN SetData(Tree(s), s.t[q].i, "") ELSE Tree(s))), e.id, q, h)
Close(s, e) ==
  LET h == Handle(s, e.id)
      s1 == Gc(Restrict(s.t, DOMAIN s.t \ {Pin(e.id)}), s.c)
  IN IF h.k = "" THEN No("skip", s)
     ELSE [r |-> "ok", v |-> "", s |-> [s EXCEPT !.t = s1.t, !.c = s1.c, !.h = Restrict(@, DOMAIN @ \ {e.id})]]

\* --- bytes through handles ---
RECURSIVE Dots(_)
Dots(n) == IF n <= 0 THEN "" ELSE "." \o Dots(n - 1)
Sub(d, i, j) == IF j < i THEN "" ELSE SubSeq(d, i, j)
Put2(d, off, x) == LET e == d \o Dots(off - Len(d)) IN Sub(e, 1, off) \o x \o Sub(e, off + Len(x) + 1, Len(e))
OnFile(s, e, Do(_, _, _)) ==
  LET h == Handle(s, e.id) IN
  IF h.k # "f" THEN No("skip", s)
  ELSE LET i == s.t[Pin(e.id)].i IN Do(h, i, s.c[i].d)
SetH(s, id, h) == [s EXCEPT !.h[id] = h]
HWrite(s, e) == OnFile(s, e, LAMBDA h, i, d :
  IF ~h.w THEN No("err", s)
  ELSE LET off == IF h.app THEN Len(d) ELSE h.off
       IN [r |-> "ok", v |-> "", s |-> SetH([s EXCEPT !.c[i].d = Put2(d, off, e.d)], e.id, [h EXCEPT !.off = off + Len(e.d)])])
HWriteAt(s, e) == OnFile(s, e, LAMBDA h, i, d :
  IF ~h.w \/ h.app THEN No("err", s) ELSE [r |-> "ok", v |-> "", s |-> [s EXCEPT !.c[i].d = Put2(d, e.n, e.d)]])
HTrunc(s, e) == OnFile(s, e, LAMBDA h, i, d :
  IF ~h.w THEN No("err", s) ELSE [r |-> "ok", v |-> "", s |-> [s EXCEPT !.c[i].d = Sub(d, 1, MinOf(e.n, Len(d))) \o Dots(e.n - Len(d))]])
\* Stale: a handle open for reading only may go on showing what it showed when it was opened
Seen(h, d, Stale) == {d} \cup (IF Stale /\ ~h.w THEN {h.d0} ELSE {})
HSize(s, e, Stale) == OnFile(s, e, LAMBDA h, i, d : IF e.r = "ok" /\ e.v.n \in {Len(x) : x \in Seen(h, d, Stale)} THEN [r |-> "ok", v |-> e.v, s |-> s] ELSE [r |-> "ok", v |-> [n |-> Len(d)], s |-> s])
HAll(s, e, Stale) == OnFile(s, e, LAMBDA h, i, d :
  IF ~h.r THEN No("err", s)
  ELSE [r |-> "ok", v |-> IF e.r = "ok" /\ e.v.d \in Seen(h, d, Stale) THEN e.v ELSE [d |-> d], s |-> s])
HRead(s, e, Stale) == OnFile(s, e, LAMBDA h, i, d :
  IF ~h.r \/ h.app THEN No(IF h.app THEN "skip" ELSE "err", s)
  ELSE LET part(x) == Sub(x, h.off + 1, MinOf(h.off + e.n, Len(x)))
           got == IF e.r = "ok" /\ e.v.d \in {part(x) : x \in Seen(h, d, Stale)} THEN e.v.d ELSE part(d)
       IN [r |-> "ok", v |-> [d |-> got], s |-> SetH(s, e.id, [h EXCEPT !.off = @ + Len(got)])])

\* --- listing through handles, e.n at a time or the rest ---
\* A handle of an overlay lists what is at the name it was opened by: nothing is said of it once that is another.
HList(s, e, Stale) ==
  LET h == Handle(s, e.id)
      Q == DirsOf(s.t, h.u)
  IN IF h.k # "d" \/ (Stale /\ h.at \notin Q) THEN No("skip", s)
     ELSE IF e.r # "ok" THEN No(IF Q = {} THEN e.r ELSE "ok", s)
     ELSE LET R == Range(e.v.l)
              N == {x[1] : x \in R}
              dup == Cardinality(N) # Len(e.v.l)
              now == IF Q = {} THEN {} ELSE EntriesAt(s.t, CHOOSE q \in Q : TRUE)
              whole == IF h.fresh THEN {x[1] : x \in now} ELSE h.due
              \* all there is to show, if the end is reached
              rest == e.n <= 0 \/ e.v.l = << >>
              fine == /\ ~dup
                      /\ e.n > 0 => Len(e.v.l) <= e.n
                      /\ e.v.eof = (e.n > 0 /\ R = {})
                      /\ IF h.fresh /\ e.n <= 0 THEN R \in {now, h.at0} \/ (Q = {} /\ R \subseteq h.at0)
                         ELSE /\ R \subseteq (IF h.fresh THEN now \cup h.at0 ELSE h.poss)
                              /\ N \cap h.seen = {}
                              /\ rest => \/ whole \subseteq N \/ (h.fresh /\ {x[1] : x \in h.at0} \subseteq N)
              h2 == [h EXCEPT !.fresh = FALSE, !.poss = (IF h.fresh THEN now \cup h.at0 ELSE @) \cup R, !.seen = @ \cup (N \cap {x[1] : x \in now}), !.due = whole \ N]
          IN IF fine THEN [r |-> "ok", v |-> e.v, s |-> SetH(s, e.id, h2)] ELSE No("torn", s)

Mode(s, e) ==
  Found(Tree(s), e.b, e.p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Out("ok", "", [Tree(s) EXCEPT !.t[q].m = e.m])
               ELSE IF Cardinality({p \in DOMAIN s.t : s.t[p] = s.t[q] /\ p[1] # "#"}) > 1 THEN Fail("skip", s)
               ELSE Out("ok", "", [Tree(s) EXCEPT !.c[s.t[q].i].m = e.m]))

\* an overlay may refuse to move a directory that was there from the start and that its lower layers, having
\* the directories Low, contribute to
Moved(s, e, Low) ==
  LET o == Lift(s, Step(Tree(s), e))
      x == Resolve(Tree(s), e.b, e.p, FALSE)
  IN IF e.r = "err" /\ o.r = "ok" /\ o.s.t # s.t /\ Kind(s.t, x.p) = "d" /\ s.t[x.p].u[1] = 0 /\ s.t[x.p].u[2] \in Low
     THEN No("err", s) ELSE o

Do(s, e, Stale, Low) ==
  CASE e.o = "open" -> Open(s, e)
    [] e.o = "close" -> Close(s, e)
    [] e.o = "hwrite" -> HWrite(s, e)
    [] e.o = "hwriteat" -> HWriteAt(s, e)
    [] e.o = "htrunc" -> HTrunc(s, e)
    [] e.o = "hsize" -> HSize(s, e, Stale)
    [] e.o = "hall" -> HAll(s, e, Stale)
    [] e.o = "hread" -> HRead(s, e, Stale)
    [] e.o = "hlist" -> HList(s, e, Stale)
    [] e.o = "chmod" -> Lift(s, Mode(s, e))
    [] e.o = "rename" -> Moved(s, e, Low)
    [] OTHER -> Lift(s, Step(Tree(s), e))

Fits(x, e) == CASE x.r \in {"fail", "err"} -> e.r \notin {"ok", "panic"}
                [] x.r = "ok" -> e.r = "ok" /\ x.v = e.v
                [] OTHER -> x.r = e.r

\* --- what the tree looks like from outside ---
Plain(s, p) ==
  LET n == s.t[p] IN
  [p |-> p, k |-> n.k, m |-> IF n.k = "d" THEN n.m ELSE IF n.k = "f" THEN s.c[n.i].m ELSE "",
   d |-> IF n.k = "f" THEN s.c[n.i].d ELSE "", a |-> IF n.k = "l" THEN n.a ELSE FALSE, t |-> IF n.k = "l" THEN n.t ELSE << >>]
Looks(s) == {Plain(s, p) : p \in {q \in DOMAIN s.t : q = Root \/ q[1] # "#"}}
==============================================================================
