--------------------------------- MODULE Chunks ---------------------------------
(* An object of T bytes kept as chunks of Z bytes (fileserver.ChunkedSink and     *)
(* ChunkedSource). Byte j of the object is j. A store is a sequence of chunks,    *)
(* each the sequence of its bytes, <<-1>> where there is none.                    *)
(*                                                                                *)
(* A step is [c call, s store before, z store after, r answer].                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Ramp(o, n) == [j \in 1..n |-> o + j - 1]
Count(T, Z) == IF T = 0 THEN 1 ELSE (T + Z - 1) \div Z
Want(T, Z, i) == Ramp((i - 1) * Z, Min(Z, T - (i - 1) * Z))
Absent == <<-1>>
Has(s, i) == s[i] # Absent
Sized(T, Z, s, i) == Has(s, i) /\ Len(s[i]) = Len(Want(T, Z, i))
FirstBad(T, Z, s) == IF \A i \in 1..Count(T, Z) : Sized(T, Z, s, i) THEN 0
                     ELSE CHOOSE i \in 1..Count(T, Z) : ~Sized(T, Z, s, i) /\ \A j \in 1..(i - 1) : Sized(T, Z, s, j)

\* State: where the complete chunks end. x: a request failed.
StateOk(T, Z, t) ==
  LET b == FirstBad(T, Z, t.s)
  IN t.z = t.s /\ IF t.r.x THEN t.r.e # "nil"
     ELSE t.r.e = "nil" /\ t.r.n = (IF b = 0 THEN T ELSE (b - 1) * Z) /\ t.r.w = (b = 0)

\* Append of m bytes from f on (the source then ends, or fails if c.q): x says a put failed.
AppendOk(T, Z, t) ==
  LET c == t.c  k == c.f \div Z
  IN IF c.f % Z # 0 THEN t.r.e # "nil" /\ t.z = t.s
     ELSE /\ \A i \in 1..Count(T, Z) : IF i <= k THEN t.z[i] = t.s[i] ELSE t.z[i] \in {t.s[i], Want(T, Z, i)}
          /\ IF t.r.e = "nil"
             THEN \A i \in 1..Count(T, Z) : i > k => t.z[i] = Want(T, Z, i)
             ELSE t.r.x \/ c.f + c.m < T

\* How far reading on from o finds the right bytes in a store: the first chunk that is missing or too short.
RECURSIVE Reach(_, _, _, _)
Reach(T, Z, s, o) ==
  IF o >= T THEN T
  ELSE LET i == o \div Z + 1
           e == (i - 1) * Z + (IF Has(s, i) THEN Len(s[i]) ELSE 0)
           w == Min(T, i * Z)
       IN IF e >= w THEN Reach(T, Z, s, w) ELSE IF e > o THEN e ELSE o
\* Reading from f to the first error, then a few times more: the bytes are always the next ones,
\* the end is only where the object ends, and a read only fails for a reason.
ReadOk(T, Z, t) ==
  LET c == t.c  r == t.r  e == Reach(T, Z, t.s, c.f)
  IN t.z = t.s /\
     IF c.f < 0 \/ c.f > T THEN r.e = "refused" /\ r.d = << >>
     ELSE /\ r.d = Ramp(c.f, Len(r.d))
          /\ c.f + Len(r.d) <= e
          /\ CASE r.e = "eof" -> c.f + Len(r.d) = T
               [] OTHER -> r.x \/ (e < T /\ c.f + Len(r.d) = e)
Ok(C, t) == CASE t.c.o = "state" -> StateOk(C.t, C.z, t)
              [] t.c.o = "append" -> AppendOk(C.t, C.z, t)
              [] t.c.o = "read" -> ReadOk(C.t, C.z, t)
              [] OTHER -> TRUE
================================================================================
