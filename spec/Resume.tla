------------------------------- MODULE Resume -------------------------------
(* Resumable pulls and pushes.

   A store is [dest, part, side]: the finished object, the part received so far and the tag kept beside it,
   each a sequence of at most one value. Versions of the content are numbered; byte i of version v is
   32 * v + i - 1, so bytes tell which version and place they come from. c.vs[v] is [n, etag].

   An attempt a says what surrounds one call: what the caller expects, which version the source shows at
   its first and later opens and what it tells about it, where it stops, what the hooks say. Plan is what the
   call is to do then; Done the outcome when no call on the store goes wrong; Safe the outcomes that are fine
   when one does, or the process stops. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Take(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Rest(s, k) == SubSeq(s, k + 1, Len(s))
Content(c, v) == [i \in 1..c.vs[v].n |-> 32 * v + i - 1]
Side(s) == IF s.side = << >> THEN "" ELSE s.side[1]
Part(s) == IF s.part = << >> THEN << >> ELSE s.part[1]
MaxOf(x, y) == IF x > y THEN x ELSE y
Extra == <<240, 241, 242>>
\* what comes after offset k when reading the source's version v
Avail(c, a, v, k) ==
  LET w == Rest(Content(c, v), k) IN
  CASE a.cut \in {"err", "eof"} -> Take(w, MaxOf(0, a.cat - k))
    [] a.cut = "extra" -> w \o Extra
    [] OTHER -> w

SrcE(c, a, v) == IF a.hideE THEN "" ELSE c.vs[v].etag
SrcS(c, a, v) == IF a.hideS THEN -1 ELSE c.vs[v].n
Clash(x, y) == x # "" /\ y # "" /\ x # y

-----------------------------------------------------------------------------
(* Pull *)
Stop(res, opens, k) == [do |-> "stop", res |-> res, opens |-> opens, k |-> k, v |-> 1, eff |-> "", size |-> -1]
PullCopy(c, a, opens, k, v) ==
  LET e == SrcE(c, a, v)
      s == SrcS(c, a, v)
  IN IF s >= 0 /\ a.expS >= 0 /\ s # a.expS THEN Stop("size", opens, k)
     ELSE [do |-> "copy", res |-> "", opens |-> opens, k |-> k, v |-> v, eff |-> IF e = "" THEN a.expE ELSE e,
           size |-> IF s >= 0 THEN s ELSE a.expS]
PullPlan(c, a, s) ==
  LET plen == Len(Part(s))
      st == IF s.part = << >> THEN "" ELSE Side(s)
      drop == s.part # << >> /\ ((a.expS >= 0 /\ plen > a.expS) \/ Clash(st, a.expE))
      k == IF drop THEN 0 ELSE plen
      e1 == SrcE(c, a, a.v1)
      s1 == SrcS(c, a, a.v1)
      trusted == (e1 = "" \/ e1 = st \/ (st = "" /\ a.expE # "" /\ e1 = a.expE)) /\ (s1 < 0 \/ k <= s1)
  IN IF s.dest # << >> THEN Stop(IF a.expS >= 0 /\ Len(s.dest[1]) # a.expS THEN "size" ELSE "ok", << >>, plen)
     ELSE IF a.openErr = 1 THEN Stop("src", <<k>>, k)
     ELSE IF Clash(e1, a.expE) THEN Stop("changed", <<k>>, k)
     ELSE IF k = 0 \/ trusted THEN PullCopy(c, a, <<k>>, k, a.v1)
     ELSE IF a.openErr = 2 THEN Stop("src", <<k, 0>>, 0)
     ELSE IF Clash(SrcE(c, a, a.v2), a.expE) THEN Stop("changed", <<k, 0>>, 0)
     ELSE PullCopy(c, a, <<k, 0>>, 0, a.v2)

-----------------------------------------------------------------------------
(* Push: the store is the sink's, version v1 the local file, of which cat bytes can be read when it is cut *)
PushPlan(c, a, s) ==
  LET n == c.vs[a.v1].n
      plen == Len(Part(s))
      off == IF plen > n \/ Clash(IF s.part = << >> THEN "" ELSE Side(s), a.expE) THEN 0 ELSE plen
      P(do, k) == [do |-> do, res |-> "", opens |-> IF do = "copy" THEN <<k>> ELSE << >>, k |-> k, v |-> a.v1, eff |-> a.expE, size |-> n]
  IN IF a.openErr = 1 THEN Stop("local", << >>, plen)
     ELSE IF a.expS >= 0 /\ a.expS # n THEN Stop("size", << >>, plen)
     ELSE IF a.openErr = 2 THEN Stop("boom", << >>, plen)
     ELSE IF s.dest # << >> THEN Stop("ok", << >>, plen)
     ELSE IF off = n /\ off > 0 THEN P("commit", off)
     ELSE P("copy", off)

-----------------------------------------------------------------------------
Total(c, a, p, s) == Take(Part(s), p.k) \o (IF p.do = "copy" THEN Avail(c, a, p.v, p.k) ELSE << >>)
\* the tag beside bytes put after the kept ones
Tag(p, s) == IF p.eff # "" THEN p.eff ELSE IF p.k = 0 THEN "" ELSE Side(s)
HookFails(a) == \E i \in 1..Len(a.hooks) : a.hooks[i]
Whole(c, a, p, s) == a.cut # "err" /\ (p.size < 0 \/ Len(Total(c, a, p, s)) = p.size)
\* the results there can be once everything there is to read has been read
EndRes(c, a, p, s) ==
  IF p.do = "stop" THEN {p.res}
  ELSE IF p.do = "commit" THEN {IF a.openErr = 4 THEN "boom" ELSE "ok"}
  ELSE IF a.k = "push" /\ a.openErr = 3 THEN {"boom"}
  ELSE IF a.cut = "err" THEN {"src"}
  ELSE IF ~Whole(c, a, p, s) THEN {"short", "size"}
  ELSE IF HookFails(a) THEN {"hook"}
  ELSE {IF a.k = "push" /\ a.openErr = 4 THEN "boom" ELSE "ok"}
Succeeds(c, a, p, s) == p.do # "stop" /\ EndRes(c, a, p, s) = {"ok"}

\* o is [res, d, fired, post]: the result, how many bytes were handed out, whether the context was cancelled
Same(s, t) == s.dest = t.dest /\ s.part = t.part /\ Side(s) = Side(t)
Done(c, a, s, o) ==
  LET p == IF a.k = "push" THEN PushPlan(c, a, s) ELSE PullPlan(c, a, s)
      n == IF p.do = "copy" THEN Len(Avail(c, a, p.v, p.k)) ELSE 0
      t == o.post
      early == o.fired /\ o.res = "ctx"
      untouched == Same(s, t) \/ (a.k = "pull" /\ p.k = 0 /\ t.dest = s.dest /\ t.part = << >> /\ Side(t) = "")
  IN /\ o.opens = p.opens
     /\ early \/ o.res \in EndRes(c, a, p, s)
     /\ CASE p.do = "stop" -> IF p.res = "ok" THEN Same(s, t) ELSE untouched
          [] p.do = "commit" -> IF o.res = "ok" THEN t.dest = s.part /\ t.part = << >> /\ t.side = << >> ELSE Same(s, t)
          [] a.k = "push" /\ a.openErr = 3 -> Same(s, t)
          [] OTHER -> /\ early \/ o.d = n
                      /\ CASE o.res = "ok" -> t.dest = <<Total(c, a, p, s)>> /\ t.part = << >> /\ t.side = << >>
                           [] o.res = "hook" -> t.dest = << >> /\ t.part = << >> /\ t.side = << >>
                           [] OTHER -> /\ t.dest = << >>
                                       /\ t.part = <<Take(Part(s), p.k) \o Take(Avail(c, a, p.v, p.k), o.d)>>
                                       /\ Side(t) = Tag(p, s)

-----------------------------------------------------------------------------
(* One call on the store goes wrong, or the process stops at it. last is the size of the last read. *)
Prefixes(e) == {SubSeq(e, 1, i) : i \in 0..Len(e)}
SafeSides(p, s) == {Side(s), "", p.eff} \cup Prefixes(p.eff)
Safe(c, a, s, t, d, last) ==
  LET p == IF a.k = "push" THEN PushPlan(c, a, s) ELSE PullPlan(c, a, s)
      av == IF p.do = "copy" THEN Avail(c, a, p.v, p.k) ELSE << >>
      kept == Take(Part(s), p.k)
      low == IF p.do = "copy" THEN MaxOf(0, d - last) ELSE 0
      gone == p.k = 0 \/ (d = Len(av) /\ Whole(c, a, p, s) /\ Len(a.hooks) > 0)
  IN IF s.dest # << >> THEN Same(s, t)
     ELSE \/ low = 0 /\ Same(s, t)
          \/ p.do = "stop" /\ p.k = 0 /\ t.dest = << >> /\ t.part = << >> /\ Side(t) \in {Side(s), ""}
          \/ p.do # "stop" /\ Succeeds(c, a, p, s) /\ t.dest = <<Total(c, a, p, s)>> /\ t.part = << >>
          \/ p.do = "copy" /\ t.dest = << >> /\ t.part = << >> /\ Side(t) \in SafeSides(p, s) /\ low = 0
          \/ p.do = "copy" /\ t.dest = << >> /\ t.part = << >> /\ Side(t) \in SafeSides(p, s) /\ gone /\ d = Len(av)
          \/ /\ p.do = "copy" /\ t.dest = << >> /\ t.part # << >>
             /\ Len(t.part[1]) - Len(kept) \in low..d
             /\ t.part[1] = kept \o Take(av, Len(t.part[1]) - Len(kept))
             /\ IF Len(t.part[1]) > Len(kept) THEN Side(t) = Tag(p, s) ELSE Side(t) \in SafeSides(p, s)

\* What an attempt during which call hit of the store went wrong may report (hit.op, hit.what: "part", "side", "dest")
Told(c, a, s, o) ==
  LET p == IF a.k = "push" THEN PushPlan(c, a, s) ELSE PullPlan(c, a, s)
  IN o.res = "ok" => IF p.do = "stop" THEN p.res = "ok" /\ Same(s, o.post)
                     ELSE /\ Succeeds(c, a, p, s) /\ o.post.dest = <<Total(c, a, p, s)>> /\ o.post.part = << >>
                          /\ ~(o.hit.what = "part" /\ o.hit.op \in {"write", "close", "truncate"})

\* every hook sees the whole part, from its start
HooksOK(c, a, s, o) ==
  LET p == PullPlan(c, a, s)
      fails == {i \in 1..Len(a.hooks) : a.hooks[i]}
      n == IF fails = {} THEN Len(a.hooks) ELSE CHOOSE i \in fails : \A j \in fails : i <= j
  IN /\ \A i \in 1..Len(o.hv) : o.hv[i] = Total(c, a, p, s)
     /\ Len(o.hv) <= n
     /\ o.res \in {"ok", "hook"} /\ p.do = "copy" => Len(o.hv) = n
     /\ p.do # "copy" \/ ~Whole(c, a, p, s) => o.hv = << >>

\* o.seen: every dest there was after any call
Accept(c, a, o) ==
  LET s == o.pre
      p == IF a.k = "push" THEN PushPlan(c, a, s) ELSE PullPlan(c, a, s)
  IN /\ \A i \in 1..Len(o.seen) : o.seen[i] = s.dest \/ (Succeeds(c, a, p, s) /\ o.seen[i] = <<Total(c, a, p, s)>>)
     /\ IF o.hit.op = "" THEN Done(c, a, s, o)
        ELSE /\ Safe(c, a, s, o.post, o.d, o.last)
             /\ Told(c, a, s, o)
             /\ \/ o.opens = p.opens
                \/ o.opens = << >>
                \/ Len(p.opens) > 1 /\ o.opens = Take(p.opens, 1)
     /\ a.k = "pull" => HooksOK(c, a, s, o)

-----------------------------------------------------------------------------
(* The sink on a filesystem, call by call: x is [op, off, etag, v, n, fail], r what it answered. *)
SinkOK(c, x, r) ==
  LET s == r.pre
      t == r.post
      w == Take(Rest(Content(c, x.v), x.off), x.n)
  IN CASE x.op = "state" ->
            /\ Same(s, t) /\ r.res = "ok"
            /\ r.st = IF s.dest # << >> THEN [off |-> Len(s.dest[1]), etag |-> r.st.etag, complete |-> TRUE]
                      ELSE [off |-> Len(Part(s)), etag |-> IF s.part = << >> THEN "" ELSE Side(s), complete |-> FALSE]
       [] x.op = "append" ->
            IF x.off > Len(Part(s)) THEN r.res = "size" /\ t.dest = s.dest /\ Part(t) = Part(s) /\ Side(t) = Side(s)
            ELSE /\ r.res = IF x.fail THEN "src" ELSE "ok"
                 /\ t.dest = s.dest
                 /\ t.part = <<Take(Part(s), x.off) \o w>>
                 /\ Side(t) = IF x.etag # "" THEN x.etag ELSE IF x.off = 0 THEN "" ELSE Side(s)
       [] x.op = "commit" ->
            IF s.dest # << >> THEN r.res = "ok" /\ t = [dest |-> s.dest, part |-> << >>, side |-> << >>]
            ELSE IF s.part = << >> THEN r.res = "noent" /\ Same(s, t)
            ELSE r.res = "ok" /\ t = [dest |-> s.part, part |-> << >>, side |-> << >>]

Verdict(c, o) == IF c.k = "sink" THEN SinkOK(c, c.as[o.a], o) ELSE Accept(c, c.as[o.a], o)
=============================================================================
