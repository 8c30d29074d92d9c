------------------------------- MODULE CopyTrace -------------------------------
EXTENDS CopyTree, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Tree(l) == [q \in {l[j].p : j \in 1..Len(l)} |-> LET j == CHOOSE x \in 1..Len(l) : l[x].p = q IN [k |-> l[j].k, m |-> l[j].m, d |-> l[j].d]]
Judge == LET R == Recs[i]
             C == [R.c EXCEPT !.S = Tree(@), !.T = Tree(@)]
             B == {j \in 1..Len(R.h) : ~Ok(C, [R.h[j] EXCEPT !.A = Tree(@)])}
         IN B = {} \/ LET b == CHOOSE j \in B : \A k \in B : j <= k
                      IN PrintT("@@bad " \o ToString(i) \o " " \o ToString(b) \o " " \o R.h[b].hit \o R.h[b].e)
================================================================================
