------------------------------- MODULE TreeGen -------------------------------
(* Operation alphabet over FsTree and the two ways behaviours are generated:  *)
(* exhaustively (every operation's outcome in every state within MaxDepth     *)
(* steps) and as long seeded random histories.                                *)
EXTENDS FsTree, Integers, Json

CONSTANTS NameSet,      \* component names
          MaxLen,       \* longest path argument
          Kinds,        \* operation kinds in use
          Bases,        \* view roots in use: names of top directories, "" the root
          Spell,        \* spellings of path arguments
          Face,         \* "rw", or "ro" (a read-only view), "prefix", "plain" (StepJoin)
          Depth         \* exploration / history depth

BaseSet == {IF n = "" THEN Root ELSE <<n>> : n \in Bases}
Paths == UNION {[1..k -> NameSet] : k \in 0..MaxLen}
Deep == Paths \ {Root}
Data == {"A", "BC"}
Modes == {"755", "700"}
FModes == {"644", "600"}
(* link targets: inside, parent, self loops, absolute, escaping *)
Targets == {[a |-> FALSE, t |-> t] :
              t \in Deep \cup {<<".">>, <<"..">>} \cup {<<"..", n>> : n \in NameSet}
                    \cup {<<"..", "..", n>> : n \in NameSet}
                    \cup {<<m[1], "..", m[2]>> : m \in {w \in NameSet \X NameSet : w[1] # w[2] /\ Cardinality(NameSet) < 3}}}
           \cup {[a |-> TRUE, t |-> <<n, "none">>] : n \in NameSet}

Lister == {"ReadDir", "Readdir", "Readdirnames"}
Pages == {<<-1>>, <<0>>, <<1, 1, 1, 1>>, <<2, 2, 2>>, <<1, -1, 1>>, <<3, 1, 0>>, <<1, 0, -1>>, <<2, 1, 5, 1>>}
HandleMut == {"write", "writeat", "writestring", "truncate", "chmod", "chown", "sync"}
(* open flags with a writing, creating, appending or truncating bit *)
WFlags == {"w", "rw", "r+a", "r+c", "r+t", "w+a", "w+c", "w+t", "rw+c+x", "rw+t", "rw+a", "w+c+t", "r+c+x", "w+c+x+s"}

OpsOf(k, b, x, P, TG) ==
  CASE k = "mkdir"    -> {[o |-> k, b |-> b, x |-> x, p |-> p, m |-> "755"] : p \in P}
    [] k = "mkdirall" -> {[o |-> k, b |-> b, x |-> x, p |-> p, m |-> "755"] : p \in P}
    [] k \in {"write", "create", "excl", "append", "appendc"} ->
         {[o |-> k, b |-> b, x |-> x, p |-> p, d |-> d] : p \in P, d \in Data}
    [] k = "poke" -> {[o |-> k, b |-> b, x |-> x, p |-> p, d |-> "Z"] : p \in P}
    [] k \in {"read", "stat", "lstat", "readlink", "remove", "removeall", "trunc",
               "chtimes", "chown", "lchown", "openroot"} ->
         {[o |-> k, b |-> b, x |-> x, p |-> p] : p \in P}
    [] k \in {"rename", "link"} ->
         {[o |-> k, b |-> b, x |-> x, p |-> p, q |-> q] : p \in P, q \in P}
    [] k = "symlink" ->
         {[o |-> k, b |-> b, x |-> x, p |-> p, a |-> t.a, t |-> t.t] : p \in P, t \in TG}
    [] k = "page" -> {[o |-> k, b |-> b, x |-> x, p |-> p, d |-> d, ns |-> ns] : p \in P, d \in Lister, ns \in Pages}
    [] k = "readat" -> {[o |-> k, b |-> b, x |-> x, p |-> p, ns |-> <<i, j>>] : p \in P, i \in 0..3, j \in {0, 1, 3}}
    [] k = "resolve" -> {[o |-> k, b |-> b, x |-> x, p |-> p, d |-> d] : p \in P, d \in IF x = "" THEN {"all", "last", "chain"} ELSE {"all", "last"}}
    [] k = "hstat" -> {[o |-> k, b |-> b, x |-> x, p |-> p] : p \in P}
    [] k = "caps" -> {[o |-> k, b |-> b, x |-> x, p |-> p, d |-> d] : p \in P, d \in {"full", "plain"}}
    [] k = "hmut" -> {[o |-> k, b |-> b, x |-> x, p |-> p, d |-> d] : p \in P, d \in HandleMut}
    [] k = "openw" -> {[o |-> k, b |-> b, x |-> x, p |-> p, d |-> d] : p \in P, d \in WFlags}
    [] k = "chmod" -> {[o |-> k, b |-> b, x |-> x, p |-> p, m |-> m] : p \in P, m \in {"700"}}

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Empty == [t |-> (Root :> D("755")), c |-> << >>]

(* chmod on a symlink-free object only changes bits in Modes/FModes; reads are
   not state changes and are emitted in the table only *)
StepF(s, op) ==
  CASE Face = "io" -> StepIO(s, op)
    [] Face = "ro" -> StepRO(s, op)
    [] Face = "rw" -> Step(s, op)
    [] Face = "prefix" -> StepJoin(s, op, TRUE)
    [] Face = "plain" -> StepJoin(s, op, FALSE)
Case(s, op) ==
  LET o == StepF(s, op) IN [op |-> op, r |-> o.r, v |-> o.v, d |-> Delta(s, o.s)]

=============================================================================
