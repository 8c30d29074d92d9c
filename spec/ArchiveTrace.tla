----------------------------- MODULE ArchiveTrace -----------------------------
EXTENDS Archive, Json, IOUtils
CONSTANT Aspect
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
\* which answers a property is about: all of them, those about leaving the root, or listings
Asked(T, c, start, st) ==
  CASE Aspect = "escape" -> "escape" \in {st.r.cl, Find(T, c.rooted, start, st.x.p, st.x.o \notin {"lstat", "readlink"}).cl}
    [] Aspect = "pages" -> st.x.o \in {"open", "pages"} /\ LET f == Find(T, c.rooted, start, st.x.p, TRUE) IN f.ok /\ T[f.p].k = "dir"
    [] OTHER -> TRUE
Judge == LET R == Recs[i]
             c == R.c
             T == Extract(c)
             s == Start(T, c)
             sub == IF ~s.ok THEN s.cl ELSE IF T[s.p].k # "dir" THEN "missing" ELSE "ok"
             bad == IF R.sub # sub /\ (Aspect = "" \/ (Aspect = "escape" /\ "escape" \in {R.sub, sub})) THEN {0} ELSE IF sub # "ok" \/ R.sub # "ok" THEN {} ELSE {j \in 1..Len(R.h) : Asked(T, c, s.p, R.h[j]) /\ ~Answers(T, c, s.p, R.h[j].x, R.h[j].r)}
         IN bad = {} \/ LET j == CHOOSE j \in bad : \A q \in bad : j <= q
                        IN PrintT("@@bad " \o ToString(i) \o " " \o ToString(j) \o " " \o (IF j = 0 THEN "sub" ELSE R.h[j].x.o))
==============================================================================
