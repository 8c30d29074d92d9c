-------------------------------- MODULE SimSafe ---------------------------------
(* Random scenarios of SafeWrite. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ks        \* "write", "copy", "copyfs"
VARIABLES c
D(S) == {RandomElement(S)}
Rare(n) == {i = 1 : i \in 1..n}
R(n) == \E i \in D(1..n) : i = 1
Hs(n, m, f) == [i \in 1..n |-> f = 1 /\ i = m]
Init == c = [k |-> "none"]
Next == /\ c.k = "none"
        /\ \E k \in D(Ks), fs \in D({"mem", "mem", "os"}), pol \in D({"random", "random1", "random2", "dir", "dir1", "dir2", "deep", "taken"}),
              old \in D({"none", "file", "file1", "file2", "link", "edir", "dir"}), par \in D({"ok", "ok1", "ok2", "ok3", "ok4", "missing", "file"}),
              name \in D({"t", "d/t", "d/./t", "long", "utf", "star", ".h", "d/a b", "x.tmp"}),
              n1 \in D(0..2), n2 \in D(0..2), n3 \in D(0..2), n4 \in D(0..2),
              f \in D(1..6), fw \in D(1..4), fi \in D(1..2),
              nc \in D(0..3), bf \in D(0..8), ign \in D(BOOLEAN), ch \in D({"plain", "eof", "tiny"}),
              how \in D({"fail", "late", "short", "crash", "crashlate", "nest"}), sync \in D(BOOLEAN), cl \in D({"", "noent", "perm"}) :
             \E sz \in D([1..3 -> {0, 1, 5, 5, 40000}]), z \in D(1..5) :
             LET pol1 == CASE pol \in {"random", "random1", "random2"} -> "random" [] pol \in {"dir", "dir1", "dir2"} -> "dir" [] OTHER -> pol
                 old1 == CASE old \in {"file", "file1", "file2"} -> "file" [] OTHER -> old
                 par1 == CASE par \in {"missing", "file"} -> par [] OTHER -> "ok"
             IN c' = [k |-> k, fs |-> fs, pol |-> pol1, old |-> IF par1 = "ok" THEN old1 ELSE "none", par |-> par1, name |-> name,
                   dpre |-> Hs(n1, fi, IF f = 1 /\ fw = 1 THEN 1 ELSE 0), apre |-> Hs(n2, fi, IF f = 1 /\ fw = 2 THEN 1 ELSE 0),
                   apost |-> Hs(n3, fi, IF f = 1 /\ fw = 3 THEN 1 ELSE 0), dpost |-> Hs(n4, fi, IF f = 1 /\ fw = 4 THEN 1 ELSE 0),
                   chunks |-> [i \in 1..nc |-> IF z = 1 THEN sz[i] ELSE IF sz[i] > 5 THEN 3 ELSE sz[i]],
                   bf |-> IF bf \in 1..(nc + 1) /\ f = 2 THEN bf ELSE 0, ign |-> ign, sync |-> sync, class |-> cl, ch |-> ch,
                   how |-> IF k = "copyfs" /\ how = "nest" THEN "fail" ELSE how]
Emit == c.k = "none" \/ PrintT("@@" \o ToJson([c |-> c, h |-> << >>]))
===============================================================================
