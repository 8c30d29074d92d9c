----------------------------- MODULE ReadersTrace -----------------------------
(* Recorded histories of the real readers, each call judged by Readers.tla.      *)
EXTENDS Readers, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
RECURSIVE Fold(_, _, _)
\* The index of the first wrong answer, 0 if there is none.
Fold(R, j, q) ==
  IF j > Len(R.h) THEN 0
  ELSE LET c == R.h[j].c  r == R.h[j].r  C == R.c
       IN CASE C.k \in {"multi", "cat"} ->
                 IF ~JOk(C.p, q, c, r) THEN j ELSE IF r.e = "size" THEN 0 ELSE Fold(R, j + 1, JNext(C.p, q, c, r))
            [] C.k = "seq" -> IF ~SOk(C, q, c, r) THEN j ELSE Fold(R, j + 1, q)
            [] C.k = "stop" -> IF ~COk(C, q, c, r) THEN j ELSE Fold(R, j + 1, CNext(C, q, c, r))
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Bad(R) == Fold(R, 1, IF R.c.k = "stop" THEN "live" ELSE 0)
Judge == LET b == Bad(Recs[i]) IN b = 0 \/ PrintT("@@bad " \o ToString(i) \o " " \o ToString(b))
===============================================================================
