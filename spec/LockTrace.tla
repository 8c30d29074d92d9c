----------------------------- MODULE LockTrace ------------------------------
EXTENDS FileLock, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Judge == LET R0 == Recs[i]
             b == FirstBad(R0.h)
         IN b = 0 \/ PrintT("@@bad " \o ToString(i) \o " " \o ToString(b) \o " " \o R0.h[b].e)
==============================================================================
