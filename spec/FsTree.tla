------------------------------- MODULE FsTree -------------------------------
(***************************************************************************)
(* The ordinary filesystem tree every filesystem of this repository is     *)
(* measured against.  Pure operators: a state is a record                  *)
(*    t : path -> node     (path = sequence of names, the root is <<>>)    *)
(*    c : inode -> [d, m]  (content and permission bits of regular files)  *)
(* and Step(s, op) is the one outcome [r, v, s] the operation has.         *)
(*   r : "ok", an error class ("noent","exist","esc","err","fail"), or     *)
(*       "skip" where the behaviour is not specified (such operations are  *)
(*       never emitted)                                                    *)
(*   v : the value returned (content, listing, link target, kind)          *)
(* "fail" = fails, in a class not specified because several causes apply.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Where implementations of an ordinary filesystem legitimately differ:       *)
CONSTANTS DirOver,   \* a directory renamed over an empty one: "ok" | "fail" | "skip"
          DirSelf    \* a directory renamed onto itself: "ok" | "fail" | "skip"

Root == << >>
MaxHops == 40     \* more links than this is a loop
SureHops == 8     \* implementations may give up between SureHops and MaxHops

D(m) == [k |-> "d", m |-> m]
F(i) == [k |-> "f", i |-> i]
L(abs, t) == [k |-> "l", a |-> abs, t |-> t]

Parent(p) == SubSeq(p, 1, Len(p) - 1)
Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p     \* q strictly below p
Within(p, q) == p = q \/ Under(p, q)

Has(T, p) == p \in DOMAIN T
Kind(T, p) == IF p \in DOMAIN T THEN T[p].k ELSE "-"
Children(T, p) == {q \in DOMAIN T : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}
Names(T, p) == {q[Len(q)] : q \in Children(T, p)}

Restrict(f, S) == [x \in S |-> f[x]]

(* --- invariant: a tree is a tree --- *)
TreeOk(s) ==
  /\ Root \in DOMAIN s.t
  /\ s.t[Root].k = "d"
  /\ \A p \in DOMAIN s.t \ {Root} : Kind(s.t, Parent(p)) = "d"
  /\ {s.t[p].i : p \in {q \in DOMAIN s.t : s.t[q].k = "f"}} = DOMAIN s.c

(* --- path resolution ---------------------------------------------------- *)
(* e="" : landed on p, which may be missing in an existing directory.        *)
RECURSIVE Res(_, _, _, _, _, _)
Res(T, base, cur, rest, fl, h) ==
  IF rest = << >> THEN [e |-> "", p |-> cur, h |-> h]
  ELSE LET c == Head(rest) IN
    IF c = "." THEN Res(T, base, cur, Tail(rest), fl, h)
    ELSE IF c = ".." THEN
      IF cur = base THEN [e |-> "esc", p |-> cur, h |-> h]
      ELSE Res(T, base, Parent(cur), Tail(rest), fl, h)
    ELSE
      LET q == Append(cur, c)
          last == Len(rest) = 1
      IN IF ~Has(T, q) THEN
           IF last THEN [e |-> "", p |-> q, h |-> h]
           ELSE [e |-> "noent", p |-> q, h |-> h]
         ELSE IF T[q].k = "l" /\ (~last \/ fl) THEN
           IF h >= MaxHops THEN [e |-> "loop", p |-> q, h |-> h]
           ELSE IF T[q].a THEN [e |-> "esc", p |-> q, h |-> h + 1]
           ELSE Res(T, base, cur, T[q].t \o Tail(rest), fl, h + 1)
         ELSE IF last THEN [e |-> "", p |-> q, h |-> h]
         ELSE IF T[q].k = "d" THEN Res(T, base, q, Tail(rest), fl, h)
         ELSE [e |-> "notdir", p |-> q, h |-> h]

(* class of a failed resolution; unsure when it took many links *)
ResClass(x) ==
  IF x.e = "loop" THEN "err"
  ELSE IF x.h > SureHops THEN "skip"
  ELSE IF x.e = "notdir" THEN "err" ELSE x.e

Resolve(s, b, p, fl) == Res(s.t, b, b, p, fl, 0)

Out(r, v, s) == [r |-> r, v |-> v, s |-> s]
Fail(r, s) == Out(r, "", s)

(* --- inodes --------------------------------------------------------------- *)
FreshIno(s) == CHOOSE i \in 1..(Cardinality(DOMAIN s.c) + 1) : i \notin DOMAIN s.c
NLink(s, i) == Cardinality({p \in DOMAIN s.t : s.t[p] = F(i)})

Gc(t, c) ==
  LET live == {t[p].i : p \in {q \in DOMAIN t : t[q].k = "f"}}
  IN [t |-> t, c |-> Restrict(c, DOMAIN c \cap live)]

Drop(s, p) == Gc(Restrict(s.t, {q \in DOMAIN s.t : ~Within(p, q)}), s.c)
Put(s, p, n) == [s EXCEPT !.t = (p :> n) @@ s.t]
NewFile(s, p, d, m) ==
  LET i == FreshIno(s)
  IN [t |-> (p :> F(i)) @@ s.t, c |-> (i :> [d |-> d, m |-> m]) @@ s.c]
SetData(s, i, d) == [s EXCEPT !.c[i].d = d]

MoveTo(s, p, q) ==
  LET s1 == IF Has(s.t, q) THEN Drop(s, q) ELSE s
      keep == {x \in DOMAIN s1.t : ~Within(p, x)}
      moved == {x \in DOMAIN s1.t : Within(p, x)}
      dst(x) == q \o SubSeq(x, Len(p) + 1, Len(x))
      dom == keep \cup {dst(x) : x \in moved}
  IN [s1 EXCEPT !.t = [y \in dom |->
        IF Within(q, y) THEN s1.t[p \o SubSeq(y, Len(q) + 1, Len(y))] ELSE s1.t[y]]]

(* --- operations (b: the directory the view is rooted at) ------------------ *)
MaxData == 4

Found(s, b, p, fl, Do(_)) ==
  LET x == Resolve(s, b, p, fl)
  IN IF x.e # "" THEN Fail(ResClass(x), s)
     ELSE IF x.h > SureHops THEN Fail("skip", s)
     ELSE IF ~Has(s.t, x.p) THEN Fail("noent", s)
     ELSE Do(x.p)

(* NotFound: create at p; a name that exists is `ex` *)
Absent(s, b, p, fl, ex(_), Do(_)) ==
  LET x == Resolve(s, b, p, fl)
  IN IF x.e # "" THEN Fail(ResClass(x), s)
     ELSE IF x.h > SureHops THEN Fail("skip", s)
     ELSE IF Has(s.t, x.p) THEN ex(x.p)
     ELSE Do(x.p)

Mkdir(s, b, p, m) ==
  IF p = Root THEN Fail("err", s)
  ELSE Absent(s, b, p, FALSE, LAMBDA q : Fail("exist", s),
              LAMBDA q : Out("ok", "", Put(s, q, D(m))))

RECURSIVE MkdirAllFrom(_, _, _, _, _, _)
MkdirAllFrom(s, b, p, m, k, s0) ==
  IF k > Len(p) THEN Out("ok", "", s)
  ELSE LET pre == SubSeq(p, 1, k)
           x == Resolve(s, b, pre, TRUE)
           y == Resolve(s, b, pre, FALSE)
       IN IF x.e # "" THEN Fail(IF ResClass(x) = "noent" THEN "skip" ELSE ResClass(x), s0)
          ELSE IF x.h > SureHops THEN Fail("skip", s0)
          ELSE IF Kind(s.t, x.p) = "d" THEN MkdirAllFrom(s, b, p, m, k + 1, s0)
          ELSE IF Kind(s.t, y.p) = "l" THEN Fail("skip", s0)   \* a link to a file or to nothing
          ELSE IF Has(s.t, y.p) THEN Fail("fail", s0)
          ELSE MkdirAllFrom(Put(s, x.p, D(m)), b, p, m, k + 1, s0)

MkdirAll(s, b, p, m) == MkdirAllFrom(s, b, p, m, 1, s)

(* O_WRONLY|O_CREATE|O_TRUNC then write d *)
Write(s, b, p, d) ==
  Absent(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Fail("err", s)
               ELSE Out("ok", "", SetData(s, s.t[q].i, d)),
    LAMBDA q : Out("ok", "", NewFile(s, q, d, "644")))

(* O_WRONLY|O_CREATE|O_EXCL then write d *)
Excl(s, b, p, d) ==
  IF p = Root THEN Fail("fail", s)
  ELSE Absent(s, b, p, FALSE, LAMBDA q : Fail("exist", s),
         LAMBDA q : Out("ok", "", NewFile(s, q, d, "644")))

(* O_WRONLY|O_APPEND (cr: |O_CREATE) then write d *)
AppendTo(s, b, p, d, cr) ==
  Absent(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Fail("err", s)
               ELSE IF Len(s.c[s.t[q].i].d) >= MaxData THEN Fail("skip", s)
               ELSE Out("ok", "", SetData(s, s.t[q].i, s.c[s.t[q].i].d \o d)),
    LAMBDA q : IF cr THEN Out("ok", "", NewFile(s, q, d, "644")) ELSE Fail("noent", s))

(* O_RDWR|O_TRUNC, nothing written *)
Trunc(s, b, p) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Fail("err", s)
               ELSE Out("ok", "", SetData(s, s.t[q].i, "")))

(* O_RDWR, overwrite the first byte *)
Poke(s, b, p, d) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Fail("err", s)
               ELSE LET o == s.c[s.t[q].i].d IN
                 Out("ok", "", SetData(s, s.t[q].i,
                      IF Len(o) = 0 THEN d ELSE d \o SubSeq(o, 2, Len(o)))))

Describe(s, q) ==
  LET n == s.t[q] IN
  CASE n.k = "d" -> [k |-> "d", m |-> n.m]
    [] n.k = "f" -> [k |-> "f", m |-> s.c[n.i].m, n |-> Len(s.c[n.i].d)]
    [] n.k = "l" -> [k |-> "l"]

Read(s, b, p) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d"
               THEN Out("ok", [k |-> "d", l |-> {<<q2[Len(q2)], s.t[q2].k>> : q2 \in Children(s.t, q)}], s)
               ELSE Out("ok", [k |-> "f", d |-> s.c[s.t[q].i].d], s))

Stat(s, b, p) == Found(s, b, p, TRUE, LAMBDA q : Out("ok", Describe(s, q), s))
Lstat(s, b, p) == Found(s, b, p, FALSE, LAMBDA q : Out("ok", Describe(s, q), s))
ReadLink(s, b, p) ==
  Found(s, b, p, FALSE,
    LAMBDA q : IF s.t[q].k = "l" THEN Out("ok", [k |-> "l", a |-> s.t[q].a, t |-> s.t[q].t], s)
               ELSE Fail("err", s))

Remove(s, b, p) ==
  IF p = Root THEN Fail("err", s)
  ELSE Found(s, b, p, FALSE,
    LAMBDA q : IF s.t[q].k = "d" /\ Children(s.t, q) # {} THEN Fail("err", s)
               ELSE Out("ok", "", Drop(s, q)))

RemoveAll(s, b, p) ==
  IF p = Root THEN Fail("err", s)
  ELSE LET x == Resolve(s, b, p, FALSE)
       IN IF x.e = "noent" THEN Out("ok", "", s)
          ELSE IF x.e = "notdir" THEN Fail("skip", s)
          ELSE IF x.e # "" THEN Fail(ResClass(x), s)
          ELSE IF x.h > SureHops THEN Fail("skip", s)
          ELSE IF ~Has(s.t, x.p) THEN Out("ok", "", s)
          ELSE Out("ok", "", Drop(s, x.p))

(* two-name operations: a failure on both sides has no specified class *)
Two(s, b, p, q, Do(_, _)) ==
  LET x == Resolve(s, b, p, FALSE)
      y == Resolve(s, b, q, FALSE)
      xc == IF x.e # "" THEN ResClass(x) ELSE IF x.h > SureHops THEN "skip"
            ELSE IF ~Has(s.t, x.p) THEN "noent" ELSE ""
      yc == IF y.e # "" THEN ResClass(y) ELSE IF y.h > SureHops THEN "skip" ELSE ""
  IN IF xc = "skip" \/ yc = "skip" THEN Fail("skip", s)
     ELSE IF xc # "" /\ yc # "" /\ xc # yc THEN Fail("fail", s)
     ELSE IF xc # "" THEN Fail(IF q = Root THEN "fail" ELSE xc, s)
     ELSE IF yc # "" THEN Fail("fail", s)
     ELSE Do(x.p, y.p)

Rename(s, b, p, q) ==
  IF p = Root \/ q = Root THEN Fail("fail", s)
  ELSE Two(s, b, p, q, LAMBDA x, y :
    IF x = y THEN (IF s.t[x].k = "d" /\ DirSelf # "ok" THEN Fail(DirSelf, s) ELSE Out("ok", "", s))
    ELSE IF y = b \/ Within(x, b) THEN Fail("fail", s)
    ELSE IF s.t[x].k = "d" /\ Under(x, y) THEN Fail("err", s)
    ELSE IF Under(y, x) THEN Fail("err", s)
    ELSE IF ~Has(s.t, y) THEN Out("ok", "", MoveTo(s, x, y))
    ELSE IF s.t[x].k = "d" THEN
      IF s.t[y].k # "d" \/ Children(s.t, y) # {} THEN Fail("err", s)
      ELSE IF DirOver # "ok" THEN Fail(DirOver, s)
      ELSE Out("ok", "", MoveTo(s, x, y))
    ELSE IF s.t[y].k = "d" THEN Fail("err", s)
    ELSE IF s.t[x].k = "f" /\ s.t[x] = s.t[y] THEN Out("ok", "", s)   \* two links of one file: rename(2) does nothing
    ELSE Out("ok", "", MoveTo(s, x, y)))

Link(s, b, p, q) ==
  IF p = Root \/ q = Root THEN Fail("fail", s)
  ELSE Two(s, b, p, q, LAMBDA x, y :
    IF s.t[x].k = "d" THEN Fail("fail", s)
    ELSE IF s.t[x].k = "l" THEN Fail("skip", s)
    ELSE IF Has(s.t, y) THEN Fail("exist", s)
    ELSE Out("ok", "", Put(s, y, s.t[x])))

Symlink(s, b, abs, t, q) ==
  IF q = Root THEN Fail("fail", s)
  ELSE Absent(s, b, q, FALSE, LAMBDA y : Fail("exist", s),
         LAMBDA y : Out("ok", "", Put(s, y, L(abs, t))))

Chmod(s, b, p, m) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Out("ok", "", [s EXCEPT !.t[q].m = m])
               ELSE IF NLink(s, s.t[q].i) > 1 THEN Fail("skip", s)
               ELSE Out("ok", "", [s EXCEPT !.c[s.t[q].i].m = m]))

(* times and owners are not part of the state: only whether the call acts *)
Touch(s, b, p, fl) == Found(s, b, p, fl, LAMBDA q : Out("ok", "", s))

(* a rooted view at p: what it lists *)
OpenView(s, b, p) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d"
               THEN Out("ok", [k |-> "d", l |-> {<<q2[Len(q2)], s.t[q2].k>> : q2 \in Children(s.t, q)}], s)
               ELSE Fail("err", s))

(* --- reading through a handle --------------------------------------------------- *)
(* Reading a directory handle ns[1], ns[2], ... entries at a time: every entry  *)
(* once, then end of file; a non-positive count returns the rest without error. *)
RECURSIVE PageCounts(_, _)
PageCounts(left, ns) ==
  IF ns = << >> THEN << >>
  ELSE LET n == Head(ns) IN
    IF n <= 0 THEN <<<<left, "">>>> \o PageCounts(0, Tail(ns))
    ELSE IF left = 0 THEN <<<<0, "eof">>>> \o PageCounts(0, Tail(ns))
    ELSE LET c == IF n < left THEN n ELSE left IN <<<<c, "">>>> \o PageCounts(left - c, Tail(ns))

MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumPages(_)
SumPages(cs) == IF cs = << >> THEN 0 ELSE Head(cs)[1] + SumPages(Tail(cs))

Page(s, b, p, ns) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k # "d" THEN Fail("err", s)
               ELSE LET m == Cardinality(Children(s.t, q))
                        cs == PageCounts(m, ns)
                    IN Out("ok", [k |-> "pg", c |-> cs,
                                  \* entries are compared when all of them were read
                                  e |-> IF SumPages(cs) = m
                                        THEN {[n |-> q2[Len(q2)], i |-> Describe(s, q2)] : q2 \in Children(s.t, q)}
                                        ELSE {}], s))

(* n bytes at offset off of a file, with whether the end was hit *)
ReadAt(s, b, p, off, n) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Fail(IF n = 0 THEN "skip" ELSE "err", s)
               ELSE LET d == s.c[s.t[q].i].d
                        hi == MinOf(off + n, Len(d))
                    IN Out("ok", [k |-> "ra", d |-> IF hi > off THEN SubSeq(d, off + 1, hi) ELSE "",
                                  eof |-> off + n > Len(d)], s))

HStat(s, b, p) == Found(s, b, p, TRUE, LAMBDA q : Out("ok", Describe(s, q), s))

(* which positioned reads an adapted file offers: those of the file it adapts *)
Caps(s, b, p, d) ==
  Found(s, b, p, TRUE,
    LAMBDA q : IF s.t[q].k = "d" THEN Fail("skip", s)
               ELSE Out("ok", [k |-> "caps", ra |-> d = "full", w |-> FALSE], s))

Rel(b, q) == SubSeq(q, Len(b) + 1, Len(q))

(* --- naming what a path reaches ------------------------------------------------ *)
(* The symlink-free name of what p reaches; how = "last" leaves the last name as it is. *)
(* how = "chain": p names a link with no links above it; the links it leads to one     *)
(* after the other, read lexically, to what is no link, and how many they were.        *)
Lexical(t) == \A j \in 2..Len(t) : t[j] = ".." => t[j - 1] = ".."
RECURSIVE Along(_, _, _), Chain(_, _, _, _)
\* t followed from directory q, << "?" >> if that leaves b
Along(b, q, t) == IF t = << >> THEN q
                  ELSE IF Head(t) = "." THEN Along(b, q, Tail(t))
                  ELSE IF Head(t) = ".." THEN (IF q = b THEN <<"?">> ELSE Along(b, Parent(q), Tail(t)))
                  ELSE Along(b, Append(q, Head(t)), Tail(t))
Above(q) == {SubSeq(q, 1, j) : j \in 0..(Len(q) - 1)}
Chain(s, b, q, n) ==
  IF n > SureHops THEN Fail(IF n > Cardinality(DOMAIN s.t) THEN "err" ELSE "skip", s)
  ELSE IF \E a \in Above(q) : Kind(s.t, a) = "l" THEN Fail("skip", s)
  ELSE IF \E a \in Above(q) : Kind(s.t, a) = "f" THEN Fail("err", s)
  ELSE IF ~Has(s.t, q) THEN Fail("noent", s)
  ELSE IF s.t[q].k # "l" THEN (IF n = 0 THEN Fail("err", s) ELSE Out("ok", [k |-> "res", p |-> Rel(b, q), n |-> n], s))
  ELSE IF s.t[q].a THEN Out("ok", [k |-> "res", p |-> <<"?">>, n |-> n + 1], s)
  ELSE IF ~Lexical(s.t[q].t) THEN Fail("skip", s)
  ELSE LET r == Along(b, Parent(q), s.t[q].t)
       IN IF r = <<"?">> THEN Out("ok", [k |-> "res", p |-> r, n |-> n + 1], s)
          ELSE Chain(s, b, r, n + 1)

ResolveName(s, b, p, how) ==
  IF how = "chain" THEN Chain(s, b, b \o p, 0)
  ELSE IF how = "last" /\ p # Root
  THEN IF Len(p) = 1 THEN Out("ok", [k |-> "res", p |-> p], s)
       ELSE LET x == Resolve(s, b, Parent(p), TRUE)
            IN IF x.e # "" THEN Fail(ResClass(x), s)
               ELSE IF x.h > SureHops THEN Fail("skip", s)
               ELSE IF ~Has(s.t, x.p) THEN Fail("noent", s)
               ELSE IF s.t[x.p].k # "d" THEN Fail("skip", s)
               ELSE Out("ok", [k |-> "res", p |-> Append(SubSeq(x.p, Len(b) + 1, Len(x.p)), p[Len(p)])], s)
  ELSE Found(s, b, p, TRUE, LAMBDA q : Out("ok", [k |-> "res", p |-> SubSeq(q, Len(b) + 1, Len(q))], s))

(* --- walking ---------------------------------------------------------------------- *)
(* A walk is the sequence of calls made, [p path, r real path, k kind, e error].      *)
(* The callback answers the call for path w.p with w.a ("dir", "all", "err"); looking *)
(* at path w.f fails ("lstat"), or listing it does ("list").                          *)
Alphabet == <<"a", "b", "c", "d", "e", "f">>
RECURSIVE Sorted(_, _)
Sorted(S, j) == IF j > Len(Alphabet) THEN << >>
                ELSE (IF Alphabet[j] \in S THEN <<Alphabet[j]>> ELSE << >>) \o Sorted(S, j + 1)
MostCalls == 120
Visit(p, r, k, e) == [p |-> p, r |-> r, k |-> k, e |-> e]
Answer(w, p) == IF w.a # "" /\ p = w.p THEN w.a ELSE ""
\* acc.x: "" go on, "dir" leave the containing directory, "all"/"err" end, "skip" unspecified
RECURSIVE WalkAt(_, _, _, _, _, _, _), WalkOver(_, _, _, _, _, _, _, _)
Push(acc, v) == [acc EXCEPT !.l = Append(@, v), !.x = IF Len(acc.l) >= MostCalls THEN "skip" ELSE @]
\* path and real are relative to b; on: the directories the walk is inside of
WalkAt(s, b, w, acc, path, real, on) ==
  IF w.fk = "lstat" /\ w.f = path
  THEN LET a == Push(acc, Visit(path, real, "-", "err")) IN [a EXCEPT !.x = IF a.x # "" THEN a.x ELSE Answer(w, path)]
  ELSE
  LET q0 == b \o real
      link == s.t[q0].k = "l" /\ w.follow
      x == IF link THEN Resolve(s, b, real, TRUE) ELSE [e |-> "", p |-> q0, h |-> 0]
      cls == IF x.e # "" THEN ResClass(x) ELSE IF x.h > SureHops THEN "skip" ELSE IF ~Has(s.t, x.p) THEN "noent" ELSE ""
  IN IF cls = "skip" THEN [acc EXCEPT !.x = "skip"]
     ELSE IF cls # "" THEN LET a == Push(acc, Visit(path, real, "-", "err")) IN [a EXCEPT !.x = IF a.x # "" THEN a.x ELSE Answer(w, path)]
     ELSE LET q == x.p
              k == s.t[q].k
              a == Push(acc, Visit(path, Rel(b, q), k, ""))
              ans == Answer(w, path)
          IN IF a.x # "" THEN a
             ELSE IF ans # "" THEN [a EXCEPT !.x = IF ans = "dir" /\ k = "d" THEN "" ELSE ans]
             ELSE IF k # "d" \/ q \in on THEN a
             ELSE IF w.fk = "list" /\ w.f = path
             THEN LET a2 == Push(a, Visit(path, Rel(b, q), "-", "err")) IN [a2 EXCEPT !.x = IF a2.x # "" THEN a2.x ELSE ""]
             ELSE LET r == WalkOver(s, b, w, a, path, Rel(b, q), Sorted(Names(s.t, q), 1), on \cup {q})
                  IN IF r.x = "dir" THEN [r EXCEPT !.x = ""] ELSE r
WalkOver(s, b, w, acc, path, real, names, on) ==
  IF names = << >> \/ acc.x # "" THEN acc
  ELSE WalkOver(s, b, w, WalkAt(s, b, w, acc, Append(path, Head(names)), Append(real, Head(names)), on), path, real, Tail(names), on)

Walk(s, b, p, w) ==
  LET x == Resolve(s, b, p, FALSE)
  IN IF x.e # "" \/ x.h > 0 \/ ~Has(s.t, x.p) \/ Rel(b, x.p) # p
     THEN Fail("skip", s)          \* roots reached through links have no specified real path
     ELSE LET r == WalkAt(s, b, w, [l |-> << >>, x |-> ""], p, p, {})
          IN IF r.x = "skip" THEN Fail("skip", s)
             ELSE Out("ok", [k |-> "w", c |-> r.l, r |-> IF r.x = "err" THEN "err" ELSE ""], s)

(* --- dispatcher ------------------------------------------------------------ *)
(* An operation is a record with o (name), b (view base) and its arguments.   *)
(* A view is opened at b first: that fails unless b resolves to a directory.  *)
Apply(s, op) ==
  LET b == op.b IN
  CASE op.o = "mkdir"     -> Mkdir(s, b, op.p, op.m)
    [] op.o = "mkdirall"  -> MkdirAll(s, b, op.p, op.m)
    [] op.o = "write"     -> Write(s, b, op.p, op.d)
    [] op.o = "excl"      -> Excl(s, b, op.p, op.d)
    [] op.o = "append"    -> AppendTo(s, b, op.p, op.d, FALSE)
    [] op.o = "appendc"   -> AppendTo(s, b, op.p, op.d, TRUE)
    [] op.o = "trunc"     -> Trunc(s, b, op.p)
    [] op.o = "poke"      -> Poke(s, b, op.p, op.d)
    [] op.o = "read"      -> Read(s, b, op.p)
    [] op.o = "stat"      -> Stat(s, b, op.p)
    [] op.o = "lstat"     -> Lstat(s, b, op.p)
    [] op.o = "readlink"  -> ReadLink(s, b, op.p)
    [] op.o = "remove"    -> Remove(s, b, op.p)
    [] op.o = "removeall" -> RemoveAll(s, b, op.p)
    [] op.o = "rename"    -> Rename(s, b, op.p, op.q)
    [] op.o = "link"      -> Link(s, b, op.p, op.q)
    [] op.o = "symlink"   -> Symlink(s, b, op.a, op.t, op.p)
    [] op.o = "chmod"     -> Chmod(s, b, op.p, op.m)
    [] op.o = "create"    -> Write(s, b, op.p, op.d)
    [] op.o \in {"chtimes", "chown"} -> Touch(s, b, op.p, TRUE)
    [] op.o = "lchown"    -> Touch(s, b, op.p, FALSE)
    [] op.o = "openroot"  -> OpenView(s, b, op.p)
    [] op.o = "page"      -> Page(s, b, op.p, op.ns)
    [] op.o = "readat"    -> ReadAt(s, b, op.p, op.ns[1], op.ns[2])
    [] op.o = "hstat"     -> HStat(s, b, op.p)
    [] op.o = "caps"      -> Caps(s, b, op.p, op.d)
    [] op.o = "resolve"   -> ResolveName(s, b, op.p, op.d)
    [] op.o = "walk"      -> Walk(s, b, op.p, op.w)

(* a lexically escaping name is refused before anything else *)
Step(s, op) ==
  IF op.b # Root /\ Kind(s.t, op.b) # "d" THEN Fail("skip", s)
  ELSE IF op.x \in {"esc", "abs", "escmid"} THEN Fail("esc", s)
  ELSE Apply(s, op)

(* --- views that change what an operation may do ----------------------------- *)
Reading == {"read", "stat", "lstat", "readlink", "openroot", "page", "readat", "hstat", "caps", "resolve", "walk"}
(* a read-only view: every mutating call is refused, whatever its arguments;   *)
(* "hmut" is a mutating method called on a handle opened for reading           *)
StepRO(s, op) ==
  IF op.b # Root /\ Kind(s.t, op.b) # "d" THEN Fail("skip", s)   \* no such view
  ELSE IF op.o \in Reading THEN Step(s, op)
  ELSE IF op.o = "hmut" THEN
    (IF op.x \in {"esc", "abs", "escmid"} THEN Fail("esc", s)
     ELSE Found(s, op.b, op.p, TRUE, LAMBDA q : Fail("perm", s)))
  ELSE Fail("perm", s)

(* an io/fs view: reading only, and only names io/fs allows *)
OddName(p, x) ==
  CASE x \in {"esc", "abs"} -> TRUE
    [] x \in {"dot", "dd", "escmid"} -> p # Root
    [] x \in {"dslash", "dotmid"} -> Len(p) > 1
    [] OTHER -> FALSE
StepIO(s, op) ==
  IF op.b # Root /\ Kind(s.t, op.b) # "d" THEN Fail("skip", s)
  ELSE IF OddName(op.p, op.x) THEN Fail("inval", s)
  ELSE Step(s, [op EXCEPT !.x = ""])

(* a view that only joins names to a base directory b of the tree (a prefix   *)
(* filesystem, an unrooted directory): links are followed wherever they lead. *)
(* RootedTree: the tree itself is rooted, so leaving it fails; otherwise what *)
(* lies outside the tree is not specified.                                    *)
StepJoin(s, op, RootedTree) ==
  IF op.b # Root /\ Kind(s.t, op.b) # "d" THEN Fail("skip", s)
  ELSE IF op.x \in {"esc", "abs", "escmid"} THEN Fail("esc", s)
  ELSE IF op.o \in {"removeall", "readlink"} /\ op.p = Root THEN Fail("err", s)
  ELSE IF op.p = Root /\ op.o = "lchown" THEN Fail("skip", s)
  ELSE IF op.b = Root /\ (op.p = Root \/ ("q" \in DOMAIN op /\ op.q = Root)) /\ op.o \in {"remove", "rename"} THEN Fail("skip", s)
  ELSE IF ~RootedTree /\ "q" \in DOMAIN op
          /\ (Resolve(s, Root, op.b \o op.p, FALSE).e = "esc" \/ Resolve(s, Root, op.b \o op.q, FALSE).e = "esc")
       THEN Fail("skip", s)
  ELSE IF ~RootedTree /\ op.o = "removeall" /\ Resolve(s, Root, op.b \o op.p, FALSE).h > 0
       THEN Fail("skip", s)   \* the removal may take away links on its own path
  ELSE LET o == Apply(s, [k \in DOMAIN op |->
                       IF k = "b" THEN Root ELSE IF k \in {"p", "q"} THEN op.b \o op[k] ELSE op[k]])
       IN IF ~RootedTree /\ o.r = "esc" THEN Fail("skip", s) ELSE o

(* --- presentation for the drivers ------------------------------------------ *)
FlatNode(s, p) ==
  LET n == s.t[p] IN
  CASE n.k = "d" -> [p |-> p, k |-> "d", m |-> n.m]
    [] n.k = "f" -> [p |-> p, k |-> "f", i |-> n.i, m |-> s.c[n.i].m, d |-> s.c[n.i].d]
    [] n.k = "l" -> [p |-> p, k |-> "l", a |-> n.a, t |-> n.t]
Flat(s) == {FlatNode(s, p) : p \in DOMAIN s.t}

(* what changed from s to s2: paths gone, nodes new or different *)
Delta(s, s2) ==
  IF s = s2 THEN [rm |-> {}, put |-> {}]
  ELSE [rm |-> DOMAIN s.t \ DOMAIN s2.t, put |-> Flat(s2) \ Flat(s)]
=============================================================================
