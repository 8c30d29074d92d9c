------------------------------- MODULE TempTrace -------------------------------
EXTENDS TempNames, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Bad(R) == {j \in 1..Len(R.h) : ~Ok(R.c, R.h[j])}
Judge == LET B == Bad(Recs[i]) IN B = {} \/
           LET b == CHOOSE j \in B : \A k \in B : j <= k
           IN PrintT("@@bad " \o ToString(i) \o " " \o ToString(b))
================================================================================
