------------------------------- MODULE HttpTrace -------------------------------
EXTENDS HttpRange, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Bad(R) == {j \in 1..Len(R.h) : ~Ok(R, j)}
Which(R, j) == IF R.h[j].c.o = "close" THEN "close" ELSE
               CASE ~OneVersion(R, j) -> "version" [] ~Refused(R, j) -> "refused" [] ~Peaceful(R, j) -> "peaceful"
                 [] ~OneRequest(R, j) -> "requests" [] OTHER -> "answer"
Judge == LET B == Bad(Recs[i]) IN B = {} \/
           LET b == CHOOSE j \in B : \A k \in B : j <= k
           IN PrintT("@@bad " \o ToString(i) \o " " \o ToString(b) \o " " \o Which(Recs[i], b))
================================================================================
