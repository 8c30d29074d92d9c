------------------------------- MODULE Archive -------------------------------
(* The tree an archive extracts to, entry by entry, and how paths resolve in it.

   A tree maps paths (sequences of names, << >> the root) to nodes [k, m, s, c, mt, l]: kind, mode ("" when no
   entry gave one), size, content, the entry whose time it has (0: none) and a symbolic link's target as pieces
   between slashes (an absolute one starts with an empty piece). Entries [k, n, l, m, s]: n and l are pieces too.
   Hard links share the node of their target at the point of the archive they stand at. One which stands before
   its target is added after everything else, where it replaces nothing; one without a target is nothing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Front(s) == SubSeq(s, 1, Len(s) - 1)
IsAbs(n) == n[1] = "" /\ Len(n) > 1
RECURSIVE Clean(_, _, _)
Clean(o, r, abs) ==
  IF r = << >> THEN o
  ELSE CASE Head(r) \in {"", "."} -> Clean(o, Tail(r), abs)
         [] Head(r) = ".." -> IF o # << >> /\ o[Len(o)] # ".." THEN Clean(Front(o), Tail(r), abs)
                              ELSE IF abs THEN Clean(o, Tail(r), abs) ELSE Clean(Append(o, ".."), Tail(r), abs)
         [] OTHER -> Clean(Append(o, Head(r)), Tail(r), abs)
Cleaned(n) == Clean(<< >>, n, IsAbs(n))

Node(k, m, s, c, mt, l) == [k |-> k, m |-> m, s |-> s, c |-> c, mt |-> mt, l |-> l]
Implied == Node("dir", "", 0, 0, 0, << >>)
Empty == << >> :> Implied
Parents(p) == {SubSeq(p, 1, n) : n \in 0..(Len(p) - 1)}
Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
IsDir(T, p) == p \in DOMAIN T /\ T[p].k = "dir"
\* what is in the way of a parent directory is replaced by one
WithParents(T, p) == [q \in DOMAIN T \cup Parents(p) |-> IF q \in DOMAIN T /\ (q \notin Parents(p) \/ T[q].k = "dir") THEN T[q] ELSE Implied]
Add(T, p, n) ==
  LET U == TLCEval(WithParents(T, p))
      keep == IF n.k = "dir" /\ IsDir(U, p) THEN DOMAIN U ELSE {q \in DOMAIN U : ~Under(p, q)}
  IN TLCEval([q \in keep \cup {p} |-> IF q = p THEN n ELSE U[q]])

Devs == {"char", "block", "fifo"}
Skipped(c, e) == \/ e.k \in {"odd", "global"}
                 \/ e.k = "sym" /\ ~c.syml
                 \/ e.k \in Devs /\ ~c.dev
Made(e, i) == CASE e.k \in {"reg", "cont"} -> Node("reg", e.m, e.s, IF e.s = 0 THEN 0 ELSE i, i, << >>)
                [] e.k = "sym" -> Node("sym", e.m, 0, 0, i, e.l)
                [] OTHER -> Node(e.k, e.m, 0, 0, i, << >>)
Linkable(T, p) == p # << >> /\ p \in DOMAIN T /\ T[p].k # "dir"
Room(T, p) == p \notin DOMAIN T /\ \A q \in Parents(p) : q \in DOMAIN T => T[q].k = "dir"

\* S: [t, late], the tree and the hard links still without a target
Step(c, S, i) ==
  LET e == c.ents[i]
      p == Cleaned(e.n)
  IN IF Skipped(c, e) \/ (p # << >> /\ p[1] = "..") THEN S
     ELSE IF p = << >> THEN IF e.k = "dir" THEN [S EXCEPT !.t[p] = Made(e, i)] ELSE S
     ELSE IF e.k = "hard" THEN LET q == Cleaned(e.l)
                               IN IF Linkable(S.t, q) THEN [S EXCEPT !.t = Add(S.t, p, S.t[q])] ELSE [S EXCEPT !.late = Append(@, [p |-> p, q |-> q])]
     ELSE [S EXCEPT !.t = Add(S.t, p, Made(e, i))]
RECURSIVE Run(_, _, _)
Run(c, S, i) == IF i > Len(c.ents) THEN S ELSE Run(c, Step(c, S, i), i + 1)

\* one pass over the late links, then more while any of them found its target
RECURSIVE Pass(_, _, _)
Pass(T, late, left) ==
  IF late = << >> THEN [t |-> T, late |-> left]
  ELSE LET x == Head(late)
       IN IF ~Room(T, x.p) THEN Pass(T, Tail(late), left)
          ELSE IF Linkable(T, x.q) THEN Pass(Add(T, x.p, T[x.q]), Tail(late), left)
          ELSE Pass(T, Tail(late), Append(left, x))
RECURSIVE Late(_, _)
Late(T, late) == IF late = << >> THEN T
                 ELSE LET r == Pass(T, late, << >>) IN IF Len(r.late) = Len(late) THEN r.t ELSE Late(r.t, r.late)
Extract(c) == LET S == Run(c, [t |-> Empty, late |-> << >>], 1) IN Late(S.t, S.late)

\* --- paths. start is the directory a Sub was taken at; rooted filesystems never leave it.
MaxLinks == 40
No(cl) == [ok |-> FALSE, p |-> << >>, cl |-> cl]
Yes(p) == [ok |-> TRUE, p |-> p, cl |-> "ok"]
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(T, rooted, start, cur, rest, follow, n) ==
  IF rest = << >> THEN Yes(cur)
  ELSE LET x == Head(rest)
           t == Tail(rest)
           p == Append(cur, x)
           \* a target which ends in a slash leaves only empty pieces behind
           last == t = << >>
       IN IF x \in {"", "."} THEN Walk(T, rooted, start, cur, t, follow, n)
          ELSE IF x = ".." THEN IF rooted /\ cur \in {<< >>, start} THEN No("escape")
                                ELSE IF cur = << >> THEN No("missing")
                                ELSE Walk(T, rooted, start, Front(cur), t, follow, n)
          ELSE IF p \notin DOMAIN T THEN No("missing")
          ELSE IF T[p].k = "sym" /\ (~last \/ follow)
               THEN IF n >= MaxLinks THEN No("loop")
                    ELSE IF IsAbs(T[p].l) THEN No("escape")
                    ELSE Walk(T, rooted, start, cur, T[p].l \o t, follow, n + 1)
          ELSE IF last THEN Yes(p)
          ELSE IF T[p].k = "dir" THEN Walk(T, rooted, start, p, t, follow, n)
          ELSE No("missing")
Valid(p) == \A i \in 1..Len(p) : p[i] \notin {"", ".", ".."}
Find(T, rooted, start, p, follow) == IF ~Valid(p) THEN No("missing") ELSE Walk(T, rooted, start, start, p, follow, 0)

\* --- what calls answer
Info(n) == [k |-> n.k, m |-> n.m, s |-> IF n.k = "reg" THEN n.s ELSE 0, mt |-> n.mt]
SameInfo(n, r) == /\ r.k = n.k
                  /\ n.m = "" \/ r.m = n.m
                  /\ r.s = Info(n).s
                  /\ n.mt = 0 \/ r.mt = n.mt
Below(T, p) == {q \in DOMAIN T : Under(p, q)}
Children(T, p) == {q \in Below(T, p) : Len(q) = Len(p) + 1}
Rel(p, q) == SubSeq(q, Len(p) + 1, Len(q))
\* a listing: every one of the paths once, each as it is
Lists(T, base, want, ls) ==
  /\ Len(ls) = Cardinality(want)
  /\ {ls[j].p : j \in 1..Len(ls)} = {Rel(base, q) : q \in want}
  /\ \A j \in 1..Len(ls) : SameInfo(T[base \o ls[j].p], ls[j])
\* a listing of everything below, with contents and targets
Shows(T, base, ls) ==
  /\ Lists(T, base, Below(T, base), ls)
  /\ \A j \in 1..Len(ls) : LET n == T[base \o ls[j].p]
                           IN /\ n.k = "reg" => ls[j].c = n.c
                              /\ n.k = "sym" => ls[j].l = n.l
\* Reading a directory page by page, -9 standing for going back to its start: g are the names of each page and
\* whether it ended with io.EOF. Whatever the order is, it is the same one each time.
RECURSIVE Pages(_, _, _, _, _, _)
Pages(all, ns, g, j, at, order) ==
  IF j > Len(ns) THEN TRUE
  ELSE IF ns[j] = -9 THEN Len(g[j].n) = 0 /\ ~g[j].eof /\ Pages(all, ns, g, j + 1, 0, order)
  ELSE LET left == Cardinality(all) - at
           want == IF ns[j] <= 0 THEN left ELSE IF ns[j] < left THEN ns[j] ELSE left
           got == g[j].n
           known == IF Len(order) > at THEN SubSeq(order, at + 1, Len(order)) ELSE << >>
           both == IF Len(known) < want THEN Len(known) ELSE want
       IN /\ Len(got) = want
          /\ g[j].eof = (ns[j] > 0 /\ left = 0)
          /\ SubSeq(got, 1, both) = SubSeq(known, 1, both)
          /\ LET more == SubSeq(got, both + 1, want)
                 seen == {order[i] : i \in 1..Len(order)}
             IN /\ {more[i] : i \in 1..Len(more)} \subseteq all \ seen
                /\ Cardinality({more[i] : i \in 1..Len(more)}) = Len(more)
                /\ Pages(all, ns, g, j + 1, at + want, order \o more)
Answers(T, c, start, x, r) ==
  LET f == Find(T, c.rooted, start, x.p, x.o \notin {"lstat", "readlink"})
      n == T[f.p]
  IN IF ~f.ok THEN r.cl = f.cl
     ELSE CASE x.o \in {"stat", "lstat"} -> r.cl = "ok" /\ SameInfo(n, r)
            [] x.o = "readlink" -> IF n.k = "sym" THEN r.cl = "ok" /\ r.l = n.l ELSE r.cl = "missing"
            [] x.o = "open" -> /\ r.cl = "ok" /\ SameInfo(n, r)
                               /\ n.k = "dir" => Lists(T, f.p, Children(T, f.p), r.ls)
                               /\ n.k # "dir" => r.c = n.c
            [] x.o = "pages" -> r.cl = "ok" /\ (n.k # "dir" \/ (/\ Len(r.g) = Len(x.ns)
                                                             /\ Pages({q[Len(q)] : q \in Children(T, f.p)}, x.ns, r.g, 1, 0, << >>)))
            [] x.o = "tree" -> r.cl = "ok" /\ Shows(T, f.p, r.ls)
            [] OTHER -> FALSE
\* the root of the tree questions are asked on; nothing is asked where it does not exist
Start(T, c) == Find(T, c.rooted, << >>, c.sub, TRUE)
==============================================================================
