------------------------------ MODULE SimBytes ------------------------------
(* Random histories of FileBytes. *)
EXTENDS FileBytes, Json
CONSTANTS Subs, Depth
VARIABLES c, st, h
D(S) == {RandomElement(S)}
Pick(r, s) == s[(r % Len(s)) + 1]
Init == c = [sub |-> ""] /\ st = 0 /\ h = << >>
Bytes(k, n) == [i \in 1..n |-> 1 + ((k * 7 + i) % 250)]
Ops == <<"open", "open", "open", "read", "read", "readat", "write", "write", "write", "writes", "writeat", "writeat", "seek", "seek", "trunc", "trunc",
         "stat", "cat", "cat", "size", "close", "rm", "mv", "ln", "all", "sync">>
Lens == <<0, 1, 2, 3, 5, 9, 17, 40>>
Offs == <<0, 1, 2, 4, 7, 12, 20, 45, -1>>
New == /\ c.sub = ""
       /\ \E sub \in D(Subs), i \in D(1..4), n \in D(0..20) :
            LET view == sub \in {"bytes", "fs", "range", "range2"}
            IN c' = [sub |-> sub, init |-> view \/ i = 1, ro |-> view, data |-> Bytes(3, IF sub \in {"range", "range2"} THEN n + 1 ELSE n)]
       /\ st' = Start(c') /\ h' = h
Op == /\ c.sub # "" /\ Len(h) < Depth
      /\ \E o \in D(1..Len(Ops)), s \in D(1..3), p \in D({"a", "b", "c"}), q \in D({"a", "b", "c"}), acc \in D({"r", "w", "rw", "rw2", "w2"}), fl \in D(1..12), n \in D(1..8), f \in D(1..9),
            wh \in D(0..2), bad \in D(1..25), live \in D(1..4), sm \in D(1..3) :
           LET never == Len(h) < 2 \/ \A t \in 1..3 : ~st.hs[t].open
               s1 == IF live = 1 \/ \A t \in 1..3 : ~st.hs[t].open THEN s ELSE CHOOSE t \in 1..3 : st.hs[t].open /\ (st.hs[s].open => t = s)
               o2 == IF never \/ (st.hs[s1].i = 0 /\ Ops[o] \notin {"cat", "size", "rm", "mv", "ln"}) THEN "open" ELSE Ops[o]
               o1 == IF (o2 \in {"close", "stat"} /\ ~st.hs[s1].open) \/ (o2 = "sync" /\ c.ro) \/ (o2 = "mv" /\ p = q) THEN "cat" ELSE o2
               acc1 == IF acc = "rw2" THEN "rw" ELSE IF acc = "w2" THEN "w" ELSE acc
               len == IF o1 \in {"write", "writes", "writeat", "readat", "read"} /\ Lens[n] = 0 /\ (o1 \in {"writeat", "readat"} \/ (o1 = "read" /\ ~st.hs[s1].r) \/ sm > 1 \/ st.hs[s1].app \/ ~st.hs[s1].open) THEN 1 ELSE Lens[n]
               x == [o |-> o1, s |-> s1, p |-> p, q |-> q, acc |-> IF o1 = "open" /\ c.ro /\ fl > 6 THEN "r" ELSE acc1, creat |-> (fl % 4) # 0 /\ ~(c.ro /\ (fl > 6 \/ acc1 = "r")),
                     excl |-> fl = 1, app |-> fl \in {2, 5, 6} /\ acc1 # "r" /\ ~(c.ro /\ fl > 6), trunc |-> fl \in {3, 6} /\ acc1 # "r" /\ ~(c.ro /\ fl > 6),
                     n |-> len, b |-> IF o1 \in {"write", "writes", "writeat"} THEN Bytes(Len(h), len) ELSE << >>,
                     off |-> IF o1 = "seek" /\ wh > 0 THEN Pick(f, <<0, -1, -3, 2, -7, 5, 0, -20, 30>>) ELSE IF Offs[f] = -1 /\ (bad > 5 \/ c.ro) THEN 3 ELSE Offs[f],
                     wh |-> IF bad = 1 THEN 7 ELSE wh]
           IN /\ h' = Append(h, [x |-> x]) /\ st' = Do(st, x).st /\ c' = c
Next == New \/ Op
Emit == c.sub = "" \/ Len(h) < Depth \/ PrintT("@@" \o ToJson([c |-> c, h |-> h]))
\* What holds of the specification itself.
Sane == c.sub = "" \/ (/\ \A s \in 1..3 : st.hs[s].pos >= 0
                       /\ \A p \in DOMAIN st.names : st.names[p] \in 0..Len(st.data)
                       /\ \A j \in 1..Len(st.data) : \A k \in 1..Len(st.data[j]) : st.data[j][k] \in 0..250
                       /\ \A j \in 1..Len(st.ro) : st.ro[j] => st.data[j] = c.data)
==============================================================================
