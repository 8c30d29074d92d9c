-------------------------------- MODULE SimTree -------------------------------
(* Long seeded histories.  Run with -simulate -depth Depth+2.                  *)
EXTENDS TreeGen
VARIABLES s, h
vars == <<s, h>>

(* A random draw must be bound by a quantifier or comprehension: TLC evaluates  *)
(* a LET body anew at every use.                                              *)
Draw(S, Op(_)) == CHOOSE r \in {Op(x) : x \in {RandomElement(S)}} : TRUE

RandPath ==
  Draw({k \in {1, 2, 3} : k <= MaxLen},
       LAMBDA k : CASE k = 1 -> <<RandomElement(NameSet)>>
                    [] k = 2 -> <<RandomElement(NameSet), RandomElement(NameSet)>>
                    [] k = 3 -> <<RandomElement(NameSet), RandomElement(NameSet), RandomElement(NameSet)>>)
(* favour paths that exist or could be created *)
RandArg(st, b) ==
  LET ex == {SubSeq(p, Len(b) + 1, Len(p)) : p \in {q \in DOMAIN st.t : Within(b, q)}}
  IN Draw(1..6, LAMBDA c :
       IF c <= 2 \/ ex = {} THEN RandPath
       ELSE Draw(ex, LAMBDA e :
              IF Len(e) < MaxLen /\ (c <= 4 \/ e = Root) THEN Append(e, RandomElement(NameSet)) ELSE e))

\* what a walk's callback does and where it fails: somewhere it may get to
WalkArg(st, b) ==
  LET P == {Rel(b, p) : p \in {q \in DOMAIN st.t : Within(b, q)}}
  IN Draw(1..6, LAMBDA c : [follow |-> c # 3 /\ RandomElement(BOOLEAN),   \* resolving a link looks at other paths too
                            p |-> RandomElement(P), a |-> IF c <= 3 THEN RandomElement({"dir", "all", "err"}) ELSE "",
                            f |-> RandomElement(P), fk |-> IF c = 3 THEN "lstat" ELSE IF c = 4 THEN "list" ELSE "", fc |-> RandomElement({"", "noent", "perm", "eof"})])
\* what a link at p leading to an entry says: up to the root, then down to it
Climb(p) == [j \in 1..(Len(p) - 1) |-> ".."]
Entry(st, b) == LET P == {Rel(b, p) : p \in {q \in DOMAIN st.t : Within(b, q)}}
                    Links == {p \in P : Kind(st.t, b \o p) = "l"}
                IN IF Links # {} /\ RandomElement(1..3) # 1 THEN RandomElement(Links) ELSE RandomElement(P)
Up == {g \in Targets : ~g.a /\ g.t[1] = ".."}
MkOp(k, b, x, p, q, tg, d, m) ==
  CASE k \in {"mkdir", "mkdirall"} -> [o |-> k, b |-> b, x |-> x, p |-> p, m |-> m]
    [] k \in {"write", "create", "excl", "append", "appendc"} -> [o |-> k, b |-> b, x |-> x, p |-> p, d |-> d]
    [] k = "poke" -> [o |-> k, b |-> b, x |-> x, p |-> p, d |-> "Z"]
    [] k \in {"read", "stat", "lstat", "readlink", "remove", "removeall", "trunc",
               "chtimes", "chown", "lchown", "openroot"} ->
         [o |-> k, b |-> b, x |-> x, p |-> p]
    [] k \in {"rename", "link"} -> [o |-> k, b |-> b, x |-> x, p |-> p, q |-> q]
    [] k = "symlink" -> [o |-> k, b |-> b, x |-> x, p |-> p, a |-> tg.a, t |-> tg.t]
    [] k = "uplink" -> Draw(Up, LAMBDA g : [o |-> "symlink", b |-> b, x |-> x, p |-> p, a |-> g.a, t |-> g.t])
    [] k = "hop" -> [o |-> "symlink", b |-> b, x |-> x, p |-> p, a |-> FALSE, t |-> Climb(p) \o (IF q = Root THEN <<".">> ELSE q)]
    [] k = "chmod" -> [o |-> k, b |-> b, x |-> x, p |-> p, m |-> m]
    [] k = "page" -> [o |-> k, b |-> b, x |-> x, p |-> p, d |-> RandomElement(Lister), ns |-> RandomElement(Pages)]
    [] k = "readat" -> [o |-> k, b |-> b, x |-> x, p |-> p, ns |-> <<RandomElement(0..3), RandomElement({0, 1, 3})>>]
    [] k = "hstat" -> [o |-> k, b |-> b, x |-> x, p |-> p]
    [] k = "resolve" -> [o |-> k, b |-> b, x |-> x, p |-> p, d |-> d]
    [] k = "walk" -> [o |-> k, b |-> b, x |-> "", p |-> IF RandomElement(1..3) = 1 THEN p ELSE Root, w |-> q]

Do(op) ==
  \E o \in {StepF(s, op)} :
    /\ s' = o.s
    /\ h' = IF o.r = "skip" THEN h
            ELSE Append(h, [op |-> op, r |-> o.r, v |-> o.v, d |-> Delta(s, o.s)])

Init == s = Empty /\ h = << >>
Next == /\ Len(h) < Depth
        /\ \E k \in {RandomElement(Kinds)}, b0 \in {RandomElement(BaseSet)},
              x \in {RandomElement(Spell)}, x0 \in {RandomElement(1..4)},
              tg \in {RandomElement(Targets)}, d0 \in {RandomElement(Data)},
              m \in {RandomElement(Modes)}, dm \in {RandomElement(Modes)} :
           \E d \in {IF k = "resolve" THEN (IF x0 = 4 /\ x = "" THEN "chain" ELSE IF x0 \in {1, 2} THEN "all" ELSE "last") ELSE d0} :
           \E b \in {IF Kind(s.t, b0) = "d" THEN b0 ELSE Root} :
           \E p \in {RandArg(s, b)}, q \in {IF k = "walk" THEN WalkArg(s, b) ELSE IF k = "hop" THEN Entry(s, b) ELSE RandArg(s, b)} :
           \E op \in {MkOp(k, b, IF x0 = 1 THEN x ELSE "", p, q, tg, d,
                             IF k = "chmod" THEN m ELSE dm)} : Do(op)
TypeOk == TreeOk(s)
Emit == Len(h) # Depth \/ PrintT("@@" \o ToJson([s |-> {}, h |-> h]))
===============================================================================
