-------------------------------- MODULE SimOvl --------------------------------
(* Seeded histories over random layer stacks: the lower layers are built first, *)
(* then operations run through the overlay; now and then it is reopened, or its *)
(* top is frozen as a lower and a fresh top stacked above ("restack").          *)
EXTENDS OvlTree
CONSTANTS Lowers, LayerSteps, Restack, Fault, LModes, LFModes, LData
VARIABLES ls,   \* finished lower layers, mount order
          cur,  \* layer under construction
          n,    \* steps spent on it
          s, lc, h
vars == <<ls, cur, n, s, lc, h>>

Draw(S, Op(_)) == CHOOSE r \in {Op(x) : x \in {RandomElement(S)}} : TRUE
RandPath ==
  Draw({k \in {1, 2, 3} : k <= MaxLen},
       LAMBDA k : CASE k = 1 -> <<RandomElement(NameSet)>>
                    [] k = 2 -> <<RandomElement(NameSet), RandomElement(NameSet)>>
                    [] k = 3 -> <<RandomElement(NameSet), RandomElement(NameSet), RandomElement(NameSet)>>)
RandArg(t, b) ==
  LET ex == {SubSeq(p, Len(b) + 1, Len(p)) : p \in {q \in DOMAIN t : Within(b, q)}}
  IN Draw(1..6, LAMBDA c :
       IF c <= 1 \/ ex = {} THEN RandPath
       ELSE Draw(ex, LAMBDA e :
              IF Len(e) < MaxLen /\ (c <= 3 \/ e = Root) THEN Append(e, RandomElement(NameSet)) ELSE e))
MkOp(k, b, x, p, q, tg, d, m) ==
  CASE k \in {"mkdir", "mkdirall"} -> [o |-> k, b |-> b, x |-> x, p |-> p, m |-> m]
    [] k \in {"write", "create", "excl", "append", "appendc"} -> [o |-> k, b |-> b, x |-> x, p |-> p, d |-> d]
    [] k = "poke" -> [o |-> k, b |-> b, x |-> x, p |-> p, d |-> "Z"]
    [] k \in {"read", "stat", "lstat", "readlink", "remove", "removeall", "trunc",
               "chtimes", "chown", "lchown", "openroot"} ->
         [o |-> k, b |-> b, x |-> x, p |-> p]
    [] k \in {"rename", "link"} -> [o |-> k, b |-> b, x |-> x, p |-> p, q |-> q]
    [] k = "symlink" -> [o |-> k, b |-> b, x |-> x, p |-> p, a |-> tg.a, t |-> tg.t]
    [] k \in {"chmod", "hchmod"} -> [o |-> k, b |-> b, x |-> x, p |-> p, m |-> m]
    [] k = "page" -> [o |-> k, b |-> b, x |-> x, p |-> p, d |-> RandomElement(Lister), ns |-> RandomElement(Pages)]
    [] k = "readat" -> [o |-> k, b |-> b, x |-> x, p |-> p, ns |-> <<RandomElement(0..3), RandomElement({0, 1, 3})>>]
    [] k = "hmut" -> [o |-> k, b |-> b, x |-> "", p |-> p, d |-> RandomElement({"write", "writeat", "writestring", "truncate"})]
    [] k = "hstat" -> [o |-> k, b |-> b, x |-> x, p |-> p]

Init == ls = << >> /\ cur = EmptyLayer /\ n = 0 /\ s = Empty /\ lc = {} /\ h = << >>

(* one more entry of the layer under construction *)
Grow ==
  /\ Len(ls) < Lowers /\ n < LayerSteps
  /\ n' = n + 1 /\ UNCHANGED <<ls, s, lc, h>>
  /\ \E p \in {RandArg(cur, Root)}, k \in {RandomElement({"d", "d", "f", "f", "l", "D"})}, d \in {RandomElement(LData)},
        tg \in {RandomElement(Targets)}, m \in {RandomElement(LModes)}, fm \in {RandomElement(LFModes)} :
       cur' = IF p = Root \/ Has(cur, p) \/ ~Has(cur, Parent(p)) \/ cur[Parent(p)].k # "d" THEN cur
              ELSE (p :> CASE k = "d" -> LDir(m) [] k = "D" -> LDir("755")
                           [] k = "f" -> LFile(fm, d) [] k = "l" -> LLink(tg)) @@ cur
Stack ==
  /\ Len(ls) < Lowers /\ n = LayerSteps
  /\ ls' = Append(ls, cur) /\ cur' = EmptyLayer /\ n' = 0 /\ h' = h
  /\ LET st == AsTree(MergeAll(ls')) IN s' = st /\ lc' = Dirs(st)

Ready == Len(ls) = Lowers
Note(o, st) == [op |-> [o |-> o, b |-> Root, x |-> "", p |-> Root], r |-> "ok", v |-> "", d |-> Delta(s, st)]

Do(op) ==
  \E o \in {StepOvl(s, lc, op)} :
    /\ s' = o.s /\ lc' = NextLc(s, lc, op, o)
    /\ h' = IF o.r = "skip" \/ (Fault /\ Len(h) = Depth - 1 /\ o.r # "ok") THEN h
            ELSE Append(h, [op |-> op, r |-> o.r, v |-> o.v, d |-> Delta(s, o.s)])
Act ==
  /\ Ready /\ Len(h) < Depth /\ UNCHANGED <<ls, cur, n>>
  /\ \E k \in {RandomElement(Kinds)}, b0 \in {RandomElement(BaseSet)},
        x \in {RandomElement(Spell)}, x0 \in {RandomElement(1..4)},
        tg \in {RandomElement(Targets)}, d \in {RandomElement(Data)},
        m \in {RandomElement(Modes)}, dm \in {RandomElement(Modes)}, z \in {RandomElement(1..20)} :
     IF z = 1 /\ Restack /\ Len(h) + 1 < Depth THEN
       /\ LET st == AsTree(AsLayer(s)) IN s' = st /\ lc' = Dirs(st) /\ h' = Append(h, Note("restack", st))
     ELSE IF z <= 3 /\ Len(h) + 1 < Depth THEN h' = Append(h, Note("reopen", s)) /\ UNCHANGED <<s, lc>>
     ELSE \E b \in {IF Kind(s.t, b0) = "d" THEN b0 ELSE Root} :
          \E p \in {RandArg(s.t, b)}, q \in {RandArg(s.t, b)} :
          \E op \in {MkOp(k, b, IF x0 = 1 THEN x ELSE "", p, q, tg, d,
                            IF k \in {"chmod", "hchmod"} THEN m ELSE dm)} : Do(op)
Next == Grow \/ Stack \/ Act
TypeOk == TreeOk(s) /\ LayerOk(cur) /\ lc \subseteq Dirs(s)
(* the overlay's own directories hold nothing but its own *)
OwnBelow == \A p \in Dirs(s) \ lc : \A q \in Dirs(s) : Under(p, q) => q \notin lc
Emit == Len(h) # Depth \/ PrintT("@@" \o ToJson([l |-> [i \in DOMAIN ls |-> FlatLayer(ls[i])], s |-> Flat(AsTree(MergeAll(ls))), h |-> h]))
===============================================================================
