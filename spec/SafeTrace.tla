------------------------------ MODULE SafeTrace ------------------------------
EXTENDS SafeWrite, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
SetOf(e) == IF e.e0 = "ret" THEN [e EXCEPT !.is = {@[j] : j \in 1..Len(@)}] ELSE e
Judge == LET R == Recs[i]
             b == FirstBad(R.c, [j \in 1..Len(R.h) |-> SetOf(R.h[j])])
         IN b = 0 \/ PrintT("@@bad " \o ToString(i) \o " " \o ToString(b) \o " " \o R.h[b].e0)
==============================================================================
