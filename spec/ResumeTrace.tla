----------------------------- MODULE ResumeTrace -----------------------------
EXTENDS Resume, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Judge == LET R == Recs[i]
             bad == {j \in 1..Len(R.h) : ~Verdict(R.c, R.h[j])}
         IN bad = {} \/ LET b == CHOOSE j \in bad : \A k \in bad : j <= k
                        IN PrintT("@@bad " \o ToString(i) \o " " \o ToString(b) \o " " \o R.c.k \o "-" \o R.h[b].res)
==============================================================================
