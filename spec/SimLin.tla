------------------------------- MODULE SimLin -------------------------------
(* Scripts for a few threads on one filesystem: what is there before, and what each of them calls. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Subs, Layers      \* Layers: 0, or how many lower layers an overlay has
VARIABLES c, h
E1(S) == {RandomElement(S)}
Of(q) == q[RandomElement(1..Len(q))]
Paths == <<<<"a">>, <<"b">>, <<"c">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>, <<"b", "b">>>>
Targets == <<<<"a">>, <<"b">>, <<"c">>, <<"a", "a">>, <<"..", "b">>, <<"b", "a">>>>
Letters == <<"P", "Q", "R", "S", "T", "U", "V", "W", "XY", "ZZ">>
Blank == [o |-> "", id |-> 0, b |-> << >>, x |-> "", p |-> << >>, q |-> << >>, a |-> FALSE, t |-> << >>, m |-> "", d |-> "", n |-> 0, fl |-> << >>]
Flags == <<<<"r">>, <<"r">>, <<"r">>, <<"rw">>, <<"rw", "c">>, <<"rw", "c">>, <<"rw", "c", "x">>, <<"rw", "c", "x">>, <<"w", "c", "t">>, <<"w", "a">>, <<"w", "a", "c">>, <<"rw", "t">>>>
TreeOps == <<"mkdir", "mkdir", "mkdirall", "mkdirall", "remove", "remove", "remove", "removeall", "removeall", "rename", "rename", "rename", "rename", "rename", "rename",
             "link", "link", "symlink", "stat", "lstat", "lstat", "readlink", "chmod", "open", "open", "open", "open", "open", "open">>
HandleOps == <<"hwrite", "hwrite", "hwrite", "hwrite", "hwriteat", "hread", "hall", "hall", "htrunc", "hsize", "hlist", "hlist", "hlist", "hlist", "close">>
SetOps == <<"mkdir", "mkdir", "write", "write", "write", "symlink", "link">>
OvlSetOps == <<"mkdir", "write", "symlink", "remove", "removeall", "rename", "rename">>
LowOps == <<"mkdir", "mkdir", "write", "write", "write", "symlink">>
\* sections: "w1", "w2" lower layers, "s" before, "o" handles to share, "1".."3" threads
Plan(x) == (IF Layers > 0 THEN <<"w1", "w1", "w1", "w1", "w1">> ELSE << >>) \o (IF Layers > 1 THEN <<"w2", "w2", "w2", "w2">> ELSE << >>)
           \o <<"s", "s", "s">> \o (IF Layers = 0 THEN <<"s", "s">> ELSE << >>)
           \o <<"o", "o", "o">> \o (IF x.th = 2 THEN <<"1", "1", "1", "2", "2", "2">> ELSE <<"1", "1", "2", "2", "3", "3">>)
Init == c = [sub |-> ""] /\ h = << >>
New == c.sub = "" /\ \E s \in E1(Subs), v \in E1(1..4), t \in E1(2..3), o \in E1(1..100) :
         c' = [sub |-> s, view |-> v = 1 /\ o <= 80, th |-> t, mode |-> IF o <= 40 THEN "tree" ELSE IF o <= 80 THEN "bytes" ELSE "list"] /\ h' = h
Handles == {"hwrite", "hwriteat", "hread", "hall", "htrunc", "hsize", "hlist", "close"}
\* k: how many of the section came before
Made(sec, k, o, p, q, t, d, m, n, fl, id) ==
  LET isH == o \in Handles
      tid == CASE sec = "1" -> 1 [] sec = "2" -> 2 [] sec = "3" -> 3 [] OTHER -> 0
      own == tid * 10 + (id % 2)
      hid == IF sec = "o" THEN k + 1
             ELSE IF o \in {"open", "close"} \/ id <= 4 THEN own
             ELSE CASE o = "hlist" -> 3 [] o = "hwrite" -> (id % 2) + 1 [] OTHER -> 1
      b == IF tid > 0 /\ c.view /\ Len(p) > 1 /\ p[1] = "a" THEN <<"a">> ELSE << >>
      list == o = "open" /\ (IF sec = "o" THEN k = 2 ELSE n = 3)     \* a directory to list
      at == IF isH THEN << >> ELSE IF list /\ sec # "o" /\ id > 6 THEN << >> ELSE IF b = << >> THEN p ELSE Tail(p)
  IN [Blank EXCEPT !.o = o, !.id = IF isH \/ o = "open" THEN hid ELSE 0, !.b = IF isH THEN << >> ELSE b,
                   !.p = IF list THEN (IF Len(at) > 1 THEN <<at[1]>> ELSE at) ELSE at,
                   !.q = IF o \in {"rename", "link"} THEN q ELSE << >>, !.t = IF o = "symlink" THEN t ELSE << >>,
                   !.m = IF o \in {"mkdir", "mkdirall"} THEN "755" ELSE IF o = "chmod" THEN m ELSE "",
                   !.d = IF o \in {"write", "hwrite", "hwriteat"} THEN d ELSE "",
                   !.n = CASE o = "hlist" -> (IF n <= 5 THEN 0 ELSE n - 5) [] o = "hread" -> 1 + (n % 3) [] OTHER -> (n % 5),
                   !.fl = IF o # "open" THEN << >> ELSE IF list THEN <<"r">> ELSE IF sec # "o" THEN fl ELSE IF k = 0 THEN <<"rw", "c">> ELSE <<"w", "a", "c">>]
\* directories to work in come first
In(p) == IF p = << >> THEN <<"a", "b">> ELSE IF Len(p) = 1 THEN <<"a">> \o p ELSE p
Lists(sec, k, op) ==
  IF c.mode # "list" \/ (sec = "w1" /\ k = 0) \/ (sec = "s" /\ k = 0 /\ Layers = 0) THEN op
  ELSE IF sec = "o" THEN (IF k = 2 THEN [op EXCEPT !.p = <<"a">>] ELSE [op EXCEPT !.p = <<"c">>])
  ELSE IF sec = "1" THEN [op EXCEPT !.id = 3, !.n = IF @ = 0 /\ k < 2 THEN 1 ELSE @]
  ELSE IF sec = "s" /\ Layers > 0 /\ op.o \in {"remove", "removeall", "rename"} THEN [op EXCEPT !.p = In(@)]
  ELSE IF sec \in {"s", "w1", "w2"} THEN [op EXCEPT !.p = In(@), !.o = IF @ \in {"link", "symlink", "mkdir", "rename"} THEN "write" ELSE @, !.d = "L", !.q = << >>, !.t = << >>, !.m = ""]
  ELSE IF op.o = "open" THEN [op EXCEPT !.p = In(@), !.fl = <<"rw", "c", "x">>] ELSE [op EXCEPT !.p = In(@)]
Dirs(sec, k, w, op) == IF sec = (IF Layers > 0 THEN "w1" ELSE "s") /\ k < (IF w > 30 THEN 2 ELSE 1) THEN [Blank EXCEPT !.o = "mkdir", !.p = IF k = 0 THEN <<"a">> ELSE <<"b">>, !.m = "755"] ELSE op
OpsOf(sec, w) == CASE sec \in {"w1", "w2"} -> LowOps
                   [] sec = "s" -> IF Layers > 0 THEN OvlSetOps ELSE SetOps
                   [] sec = "o" -> <<"open">>
                   [] c.mode = "list" -> IF sec = "1" THEN <<"hlist">> ELSE <<"remove", "remove", "rename", "rename", "link", "mkdir", "removeall", "open">>
                   [] OTHER -> IF (w > 20) = (c.mode = "tree") THEN TreeOps ELSE HandleOps
\* with a view at a open, a stays
Stays(op) == ~c.view \/ op.b # << >> \/ op.o \in Handles \cup {"open", "stat", "lstat", "readlink", "chmod", "mkdirall"} \/ (op.p # <<"a">> /\ op.q # <<"a">>)
Op == /\ c.sub # "" /\ Len(h) < Len(Plan(c))
      /\ LET sec == Plan(c)[Len(h) + 1]
             k == Cardinality({j \in 1..Len(h) : h[j].sec = sec})
         IN \E w \in E1(1..100), p \in {Of(Paths)}, q \in {Of(Paths)}, t \in {Of(Targets)}, d \in {Of(Letters)}, m \in E1({"700", "555", "644"}), n \in E1(1..8), fl \in {Of(Flags)}, id \in E1(1..10), y \in E1(1..1000) :
              \E j \in E1(1..Len(OpsOf(sec, w))) :
                LET op == Lists(sec, k, Dirs(sec, k, y % 100, Made(sec, k, OpsOf(sec, w)[j], p, q, t, d, m, n, fl, id)))
                IN h' = Append(h, [sec |-> sec, op |-> IF sec \in {"1", "2", "3"} /\ ~Stays(op) THEN Made(sec, k, "lstat", p, q, t, d, m, n, fl, id) ELSE op])
      /\ c' = c
Next == New \/ Op
Emit == c.sub = "" \/ Len(h) < Len(Plan(c)) \/ PrintT("@@" \o ToJson([c |-> c, h |-> h]))
==============================================================================
