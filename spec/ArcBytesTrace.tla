---------------------------- MODULE ArcBytesTrace ----------------------------
EXTENDS ArcBytes, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Judge == LET R0 == Recs[i]
             b == Off(Files(R0.c), R0.h, 1)
         IN b = 0 \/ PrintT("@@bad " \o ToString(i) \o " " \o ToString(b) \o " " \o R0.h[b].x.o)
==============================================================================
