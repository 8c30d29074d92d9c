------------------------------- MODULE OvlTree --------------------------------
(***************************************************************************)
(* What an overlay of layers shows: one ordinary tree (FsTree) whose        *)
(* initial content is the union of the layers, plus the one documented      *)
(* exception, the set lc of directories a lower layer contributes to.       *)
(* A layer here is path -> [k, m, d] | [k, m] | [k, a, t] without inodes:    *)
(* distinct names of a layer are distinct files to the overlay.             *)
(***************************************************************************)
EXTENDS TreeGen

LDir(m) == [k |-> "d", m |-> m]
LFile(m, d) == [k |-> "f", m |-> m, d |-> d]
LLink(tg) == [k |-> "l", a |-> tg.a, t |-> tg.t]
EmptyLayer == Root :> LDir("755")

(* an upper entry hides a lower one, directories merge *)
Merge(up, lo) ==
  LET open(p) == \A n \in 0..(Len(p) - 1) :
                   LET q == SubSeq(p, 1, n) IN Has(up, q) => up[q].k = "d"
      from == {p \in DOMAIN lo : ~Has(up, p) /\ open(p)}
  IN [p \in DOMAIN up \cup from |-> IF Has(up, p) THEN up[p] ELSE lo[p]]

RECURSIVE MergeAll(_)
MergeAll(ls) == IF Len(ls) = 1 THEN ls[1] ELSE Merge(ls[1], MergeAll(Tail(ls)))

(* the tree a layer shows, every file an inode of its own *)
RECURSIVE Number(_, _, _)
Number(S, n, f) == IF S = {} THEN f
                   ELSE LET p == CHOOSE p \in S : TRUE IN Number(S \ {p}, n + 1, (p :> n) @@ f)
AsTree(l) ==
  LET files == {p \in DOMAIN l : l[p].k = "f"}
      no == Number(files, 1, << >>)
  IN [t |-> [p \in DOMAIN l |-> CASE l[p].k = "d" -> D(l[p].m)
                                  [] l[p].k = "f" -> F(no[p])
                                  [] l[p].k = "l" -> L(l[p].a, l[p].t)],
      c |-> [i \in {no[p] : p \in files} |->
               LET p == CHOOSE p \in files : no[p] = i IN [d |-> l[p].d, m |-> l[p].m]]]
AsLayer(s) == [p \in DOMAIN s.t |->
                 CASE s.t[p].k = "d" -> LDir(s.t[p].m)
                   [] s.t[p].k = "f" -> LFile(s.c[s.t[p].i].m, s.c[s.t[p].i].d)
                   [] s.t[p].k = "l" -> [k |-> "l", a |-> s.t[p].a, t |-> s.t[p].t]]
FlatLayer(l) == {CASE l[p].k = "d" -> [p |-> p, k |-> "d", m |-> l[p].m]
                   [] l[p].k = "f" -> [p |-> p, k |-> "f", m |-> l[p].m, d |-> l[p].d]
                   [] l[p].k = "l" -> [p |-> p, k |-> "l", a |-> l[p].a, t |-> l[p].t] : p \in DOMAIN l}

Dirs(s) == {p \in DOMAIN s.t : s.t[p].k = "d"}
(* a layer is a tree *)
LayerOk(l) == /\ Root \in DOMAIN l /\ l[Root].k = "d"
              /\ \A p \in DOMAIN l \ {Root} : Has(l, Parent(p)) /\ l[Parent(p)].k = "d"

(* one operation on the overlay: the ordinary outcome, except that moving a   *)
(* directory of lc is refused                                                 *)
StepOvl(s, lc, op) ==
  IF op.o = "hmut" THEN     \* writing to a handle opened for reading
    Found(s, op.b, op.p, TRUE, LAMBDA q : Fail("fail", s))
  ELSE IF op.o = "hchmod" THEN  \* the mode of a directory, through a handle on it
    LET x == Resolve(s, op.b, op.p, TRUE)
    IN IF x.e = "" /\ Kind(s.t, x.p) = "d" THEN Step(s, [op EXCEPT !.o = "chmod"]) ELSE Fail("skip", s)
  ELSE
  LET o == Step(s, op) IN
  IF op.o = "rename" /\ o.r \in {"ok", "skip"}
  THEN LET x == Resolve(s, op.b, op.p, FALSE)
           y == Resolve(s, op.b, op.q, FALSE)
       IN IF o.r = "ok" /\ x.p # y.p /\ x.p \in lc THEN Fail("fail", s) ELSE o
  ELSE o
(* a directory that came or moved is the overlay's own *)
NextLc(s, lc, op, o) ==
  LET moved == IF op.o = "rename" /\ o.r = "ok" /\ o.s # s THEN {Resolve(s, op.b, op.q, FALSE).p} ELSE {}
  IN {p \in lc \cap Dirs(o.s) : Kind(s.t, p) = "d" /\ \A q \in moved : ~Within(q, p)}

(* --- interruption ---------------------------------------------------------- *)
(* The names op touches: where its arguments lead, what lies below, and every   *)
(* other name of the same file.                                                *)
Touched(s, op) ==
  LET follow == op.o \in {"write", "create", "append", "appendc", "trunc", "poke", "chmod", "hchmod", "chtimes", "chown", "mkdirall"}
      x == Resolve(s, op.b, op.p, follow)
      pre == IF op.o = "mkdirall" THEN {Resolve(s, op.b, SubSeq(op.p, 1, n), TRUE).p : n \in 1..Len(op.p)} ELSE {}
      y == IF "q" \in DOMAIN op THEN {Resolve(s, op.b, op.q, FALSE).p} ELSE {}
  IN {x.p} \cup y \cup pre
SameFile(s, p) == IF Kind(s.t, p) = "f" THEN {q \in DOMAIN s.t : s.t[q] = s.t[p]} ELSE {p}

NodeOf(s, p) == IF ~Has(s.t, p) THEN [k |-> "-"]
                ELSE CASE s.t[p].k = "d" -> [k |-> "d", m |-> s.t[p].m]
                       [] s.t[p].k = "f" -> [k |-> "f", m |-> s.c[s.t[p].i].m, d |-> s.c[s.t[p].i].d]
                       [] s.t[p].k = "l" -> [k |-> "l", a |-> s.t[p].a, t |-> s.t[p].t]

(* every state of one name in between: old, new, nothing; a file being written *)
(* may be seen before its bytes arrived. strict: a name that stays is never      *)
(* gone, as copying its file into the top is complete or absent.                *)
Between(s, s2, op, p, strict) ==
  LET o == NodeOf(s, p)
      n == NodeOf(s2, p)
      fresh == IF n.k = "f" /\ (o.k # "f" \/ op.o \in {"write", "create", "trunc"})
               THEN {[n EXCEPT !.d = ""]} ELSE {}
      none == IF strict /\ o.k # "-" /\ n.k # "-" THEN {} ELSE {[k |-> "-"]}
  IN {o, n} \cup none \cup fresh

(* after op was stopped inside, s being the tree before it: is `after` allowed? *)
InterruptOk(s, op, after, strict) ==
  LET s2 == StepOvl(s, {}, op).s
      named == UNION {SameFile(s, p) : p \in Touched(s, op)}
      \* what is taken down or moved goes with what lies below it
      free(p) == p \in named \/ (op.o \in {"removeall", "rename"} /\ \E q \in named : Within(q, p))
      all == DOMAIN s.t \cup DOMAIN s2.t \cup DOMAIN after
  IN \A p \in all :
       LET a == IF Has(after, p) THEN after[p] ELSE [k |-> "-"]
       IN IF free(p) THEN a \in Between(s, s2, op, p, strict) ELSE a = NodeOf(s, p)
===============================================================================
