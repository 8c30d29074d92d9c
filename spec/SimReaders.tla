------------------------------ MODULE SimReaders ------------------------------
(* Random histories of calls on the readers of Readers.tla.                      *)
EXTENDS Readers, Json
CONSTANTS Which, Depth, MaxParts
VARIABLES cfg, h
vars == << cfg, h >>

D(S) == {RandomElement(S)}
\* A part: honest, or (bad) short, failing or longer than it says.
MkPart(s, a, x, m, c, bad) ==
  LET aa == IF ~bad \/ x <= 6 THEN s ELSE IF x <= 10 THEN Min(s, a) ELSE s + a
  IN [s |-> s, a |-> aa, m |-> m, c |-> c = 1]
RECURSIVE Parts(_, _)
Parts(n, bad) ==
  IF n = 0 THEN << >>
  ELSE Append(Parts(n - 1, bad),
         MkPart(RandomElement({<<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 0>>, <<5, 0>>, <<8, 0>>})[1], RandomElement(0..3), RandomElement(1..11),
                RandomElement({"eof", "eager", "err"}), RandomElement(1..8), bad))

JCfg == \E k \in D({"multi", "multi", "cat"}), n \in D(0..MaxParts), big \in D(1..4), b \in D(1..3) :
          \E P \in {Parts(IF big = 1 THEN 30 + n ELSE n, b # 1 /\ k # "cat")} :
             cfg' = [k |-> k, p |-> P]
SCfg == \E s \in D(0..12), a \in D(0..4), x \in D(1..4), ch \in D({1, 2, 3, 5, 100}), m \in D({"eof", "eager"}), z \in D(1..3),
           of \in D(SUBSET (1..4)), cf \in D(SUBSET (1..4)), es \in D(0..4), ep \in D(0..12), y \in D(1..3) :
          cfg' = [k |-> "seq", s |-> s, a |-> IF x = 1 THEN Min(s, a) ELSE IF x = 2 THEN s + a ELSE s, ch |-> ch, m |-> m,
                  z |-> z = 1, of |-> IF y = 1 THEN of ELSE {}, cf |-> IF y = 2 THEN cf ELSE {}, es |-> es, ep |-> ep]
CCfg == \E a \in D(0..10), ch \in D({1, 2, 3, 100}), m \in D({"eof", "eager", "err", "eerr"}), w \in D({"cancel", "deadline", "parent", "cause"}) :
          cfg' = [k |-> "stop", a |-> a, ch |-> ch, m |-> m, w |-> w, e |-> IF w = "deadline" THEN "deadline" ELSE "canceled"]

Lens == {0, 1, 2, 3, 4, 7, 20}
Size(C) == IF C.k = "seq" THEN C.s ELSE Total(C.p)
Offs(C) == (-1)..(Size(C) + 2)
JCall == \E o \in D(IF cfg.k = "cat" THEN {"read"} ELSE {"read1", "read2", "at1", "at2", "seek"}), k \in D(Lens), f \in D(Offs(cfg)), w \in D(-1..3) :
           \E nm \in {CASE o \in {"read1", "read2", "read"} -> "read" [] o = "seek" -> "seek" [] OTHER -> "at"} :
           h' = Append(h, [o |-> nm, k |-> k, w |-> w,
                           f |-> IF nm = "seek" /\ w = 2 THEN f - Size(cfg) ELSE IF nm = "seek" /\ w = 1 THEN f - Size(cfg) \div 2 ELSE f])
\* Mostly onwards from where the last read ended (1000: wherever that was, 1001: one further), the rest anywhere.
SCall == \E x \in D(1..5), k \in D(Lens), f \in D(Offs(cfg)) :
           h' = Append(h, [o |-> "at", k |-> k, w |-> 0,
                           f |-> IF x = 2 THEN 1000 ELSE IF x = 3 THEN 1001 ELSE IF x # 1 /\ h # << >> /\ h[Len(h)].f < 1000 THEN h[Len(h)].f + h[Len(h)].k ELSE f])
CCall == \E o \in D({"read1", "read2", "read3", "readc", "cancel"}), x \in D(1..3), k \in D(Lens) :
           h' = Append(h, [o |-> IF o \in {"readc", "cancel"} THEN (IF x = 1 THEN o ELSE "read") ELSE "read", k |-> k, w |-> 0, f |-> 0])

None == [k |-> "none"]
Init == cfg = None /\ h = << >>
Next == IF cfg = None
        THEN h' = h /\ (CASE Which = "T01" -> JCfg [] Which = "T02" -> SCfg [] Which = "T06" -> CCfg)
        ELSE /\ cfg' = cfg /\ Len(h) < Depth
             /\ CASE Which = "T01" -> JCall [] Which = "T02" -> SCall [] Which = "T06" -> CCall
Emit == cfg = None \/ Len(h) # Depth \/ PrintT("@@" \o ToJson([c |-> cfg, h |-> h]))
===============================================================================
