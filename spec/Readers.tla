-------------------------------- MODULE Readers --------------------------------
(* What a call on one of stream's readers may answer.                            *)
(*                                                                               *)
(* Joined  : parts [s declared size, a bytes really there, m what comes at a     *)
(*           ("eof" on the next read, "eager" with the last bytes, "err"),       *)
(*           c its Close fails] read through NewMultiReadAtSeekCloser.           *)
(* Seq     : a source of a bytes declared as s read through NewSeqReaderAt.      *)
(* Stop    : a source read through NewCancellable.                               *)
(*                                                                               *)
(* A byte is its own offset in the concatenation (declared sizes), 1000 and up   *)
(* where a part has more than it declared. A call is [o, k length, f offset,     *)
(* w whence]; an answer is [n, e error class, d bytes, ...]. Each relation says  *)
(* which answers are right and what state the reader is in afterwards; a state   *)
(* "any" answers for nothing more.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Ramp(o, n) == [j \in 1..n |-> o + j - 1]

----------------------------------------------------------------------------
(* Joined *)
RECURSIVE HeadOff(_, _)
HeadOff(P, i) == IF i = 1 THEN 0 ELSE HeadOff(P, i - 1) + P[i - 1].s
Total(P) == HeadOff(P, Len(P) + 1)
Bytes(o, n) == Ramp(o, n)
\* Where the data stops, reading on from o: the first part that is short there, or the end.
Gaps(P, o) == {i \in 1..Len(P) : P[i].a < P[i].s /\ HeadOff(P, i) + P[i].s > o}
GapAt(P, i, o) == IF HeadOff(P, i) + P[i].a < o THEN o ELSE HeadOff(P, i) + P[i].a
FirstGap(P, o) == CHOOSE i \in Gaps(P, o) : \A j \in Gaps(P, o) : i <= j
Break(P, o) == IF Gaps(P, o) = {} THEN Total(P) ELSE GapAt(P, FirstGap(P, o), o)
Over(P, o, k) == \E i \in 1..Len(P) : P[i].a > P[i].s /\ HeadOff(P, i) + P[i].s > o /\ HeadOff(P, i) + P[i].s < o + k
\* An error that says why nothing more came at Break.
Reason(P, o, e) ==
  /\ Gaps(P, o) # {}
  /\ e = IF P[FirstGap(P, o)].m = "err" THEN "boom" ELSE "short"

JRead(P, o, k, r) ==
  \/ Over(P, o, k) /\ r.e = "size"
  \/ /\ r.n >= 0 /\ r.n <= k
     /\ IF o >= Total(P) THEN r.n = 0 /\ r.e \in (IF k = 0 THEN {"eof", "nil"} ELSE {"eof"})
        ELSE /\ o + r.n <= Break(P, o)
             /\ r.d = Bytes(o, r.n)
             /\ \/ r.e = "nil" /\ (r.n > 0 \/ k = 0)
                \/ r.e = "eof" /\ o + r.n = Total(P)
                \/ Reason(P, o, r.e) /\ o + r.n = Break(P, o)

JReadAt(P, o, k, r) ==
  \/ o >= 0 /\ Over(P, o, k) /\ r.e = "size"
  \/ o < 0 /\ r.n = 0 /\ r.e # "nil"
  \/ /\ o >= 0 /\ r.n >= 0 /\ r.n <= k
     /\ IF o >= Total(P) THEN r.n = 0 /\ r.e \in (IF k = 0 THEN {"eof", "nil"} ELSE {"eof"})
        ELSE /\ o + r.n <= Break(P, o)
             /\ r.d = Bytes(o, r.n)
             /\ \/ r.e = "nil" /\ r.n = k
                \/ r.e = "eof" /\ o + r.n = Total(P)
                \/ Reason(P, o, r.e) /\ o + r.n = Break(P, o)

Target(P, o, c) == c.f + (CASE c.w = 0 -> 0 [] c.w = 1 -> o [] c.w = 2 -> Total(P) [] OTHER -> 0)
Sought(P, o, c) == c.w \in 0..2 /\ Target(P, o, c) >= 0
JSeek(P, o, c, r) == IF Sought(P, o, c) THEN r.e = "nil" /\ r.n = Target(P, o, c) ELSE r.e # "nil"

JClose(P, r) == r.d = [i \in 1..Len(P) |-> 1] /\ (r.e # "nil") = (\E i \in 1..Len(P) : P[i].c)

JOk(P, o, c, r) ==
  CASE c.o = "read" -> JRead(P, o, c.k, r)
    [] c.o = "at" -> JReadAt(P, c.f, c.k, r)
    [] c.o = "seek" -> JSeek(P, o, c, r)
    [] c.o = "close" -> JClose(P, r)
JNext(P, o, c, r) ==
  CASE r.e = "size" -> -1
    [] c.o = "read" -> o + r.n
    [] c.o = "seek" /\ Sought(P, o, c) -> Target(P, o, c)
    [] OTHER -> o

----------------------------------------------------------------------------
(* Seq: cfg [s, a]. Every answer also says which fault of the source it met (x), how many       *)
(* streams were open at once at most (u) and how many are open now (v).                          *)
SWant(C, c) == Min(c.k, C.s - c.f)
SReadAt(C, c, r) ==
  IF c.f < 0 THEN r.n = 0 /\ r.e \notin {"nil", "eof"}
  ELSE IF c.f >= C.s THEN r.n = 0 /\ r.e = "eof"
  ELSE LET w == SWant(C, c)
       IN /\ r.n >= 0 /\ r.n <= w
          /\ r.n = 0 \/ c.f + r.n <= C.a
          /\ r.d = Ramp(c.f, r.n)
          /\ \/ r.e = "nil" /\ r.n = c.k
             \/ r.e = "eof" /\ r.n = w /\ c.f + r.n = C.s
             \/ r.e \in {"eof", "short"} /\ C.a < C.s /\ c.f + r.n >= C.a
             \/ r.e = "boom" /\ r.x # "none"
          /\ r.x # "stale"   \* a stream that failed is not read again
          /\ r.x \in {"open", "read"} => (r.e = "boom" \/ r.n = w)
SOk(C, o, c, r) ==
  /\ r.u <= 1
  /\ CASE c.o = "at" -> SReadAt(C, c, r)
       [] c.o = "close" -> r.v = 0 /\ (r.e # "nil" => r.x = "close")
       [] c.o = "size" -> r.n = C.s
SNext(C, o, c, r) == o

----------------------------------------------------------------------------
(* Stop: cfg [e the error of the context]. State "live", "off" (cancelled) or the reported error. *)
(* Each answer also carries what the source itself answered meanwhile: us calls, un, ue, ud.      *)
COk(C, q, c, r) ==
  CASE c.o = "cancel" -> TRUE
    [] q \notin {"live", "off"} -> r.n = 0 /\ r.e = q
    [] q = "off" -> r.n = 0 /\ r.e = C.e /\ r.us = 0
    [] OTHER -> /\ r.us = 1 /\ r.n = r.un /\ r.d = r.ud
                /\ r.e = r.ue \/ (c.o = "readc" /\ r.e = C.e)
CNext(C, q, c, r) ==
  CASE c.o = "cancel" -> IF q = "live" THEN "off" ELSE q
    [] r.e # "nil" -> r.e
    [] c.o = "readc" /\ q = "live" -> "off"
    [] OTHER -> q
================================================================================
