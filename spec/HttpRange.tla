------------------------------- MODULE HttpRange -------------------------------
(* What reads of an HTTP object through httprange may answer.                    *)
(*                                                                               *)
(* A history R is a configuration c [k plain/range, b view base, l view length   *)
(* (-1 to the end), pe pl ps prior etag, last-modified, size (-1 unknown)],      *)
(* calls h [c call, r answer] and the responses q the server gave:               *)
(*   st status (0: no response), f l the range asked for (l = -1: to the end),   *)
(*   cr what its Content-Range is (none, bad, star, unsat, ok) and if ok s e t,  *)
(*   v the version of the object it served, et lm og the validators and origin   *)
(*   it states ("" where it does not), enc its encoding, n body bytes that come, *)
(*   fin TRUE if the body ended as announced, hon TRUE if it did what HTTP asks. *)
(* Byte j of version v is 64 * v + j. Calls of one batch g ran concurrently.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Rng(f) == {f[x] : x \in DOMAIN f}

Plain(q) == q.enc = ""
Placed(q) == q.st = 206 /\ q.cr = "ok" /\ q.s = q.f /\ (IF q.l < 0 THEN q.e = q.t - 1 ELSE q.e <= q.l /\ (q.e = q.l \/ q.e = q.t - 1))
Served(q) == Plain(q) /\ Placed(q)
Past(q) == Plain(q) /\ q.st = 416 /\ q.cr = "unsat" /\ q.t <= q.f
Hollow(q) == Plain(q) /\ q.st = 200 /\ q.cr = "none" /\ q.n = 0 /\ q.fin
Good(q) == Served(q) \/ Past(q) \/ Hollow(q)
\* A refusal inside the object is an error, but what it says of the object may be held against later answers.
Says(q) == Good(q) \/ (Plain(q) /\ q.st = 416 /\ q.cr = "unsat")
Size(q) == IF q.st = 200 THEN 0 ELSE q.t
Whole(q) == ~Served(q) \/ (q.fin /\ q.n = q.e - q.s + 1)

Differ(a, b) == a # "" /\ b # "" /\ a # b
Clash(p, q) == Size(p) # Size(q) \/ Differ(p.et, q.et) \/ Differ(p.lm, q.lm) \/ Differ(p.og, q.og)
Denied(C, q) == (C.ps >= 0 /\ C.ps # Size(q)) \/ Differ(C.pe, q.et) \/ Differ(C.pl, q.lm)

Base(C) == IF C.k = "range" THEN C.b ELSE 0
End(C) == IF C.k = "range" /\ C.l >= 0 THEN C.b + C.l ELSE 1000
Abs(C, c) == Base(C) + c.f
Ver(b) == b \div 64
Off(b) == b % 64

\* Responses there were when call j had been answered: those of its batch and before.
Seen(R, j) == {x \in 1..Len(R.q) : R.q[x].g <= R.h[j].c.g}
Own(R, j) == Rng(R.h[j].r.q)
\* Responses that may have served call j's bytes.
Cand(R, j) ==
  LET c == R.h[j].c  r == R.h[j].r  o == Abs(R.c, c)
  IN CASE c.o = "at" /\ r.n > 0 ->
            {x \in Seen(R, j) : /\ x \in Own(R, j) \/ (R.c.k = "range" /\ Own(R, j) = {})
                                /\ LET q == R.q[x] IN /\ Served(q) /\ ~Denied(R.c, q)
                                                      /\ q.s <= o /\ o + r.n <= q.s + q.n
                                                      /\ q.v = Ver(r.d[1])}
       [] c.o = "at" /\ r.e = "eof" /\ Own(R, j) # {} ->
            {x \in Own(R, j) : Good(R.q[x]) /\ ~Denied(R.c, R.q[x]) /\ Size(R.q[x]) <= o}
       [] c.o = "probe" /\ r.e = "nil" -> {x \in Own(R, j) : Good(R.q[x]) /\ ~Denied(R.c, R.q[x])}
       [] OTHER -> {}
Believed(R, j) == LET c == R.h[j].c  r == R.h[j].r
                  IN (c.o = "at" /\ (r.n > 0 \/ (r.e = "eof" /\ Own(R, j) # {}))) \/ (c.o = "probe" /\ r.e = "nil")
OneVersion(R, j) ==
  Believed(R, j) =>
    /\ Cand(R, j) # {}
    /\ \A i \in 1..(j - 1) : Believed(R, i) /\ Cand(R, i) # {} =>
          \E x \in Cand(R, i), y \in Cand(R, j) : ~Clash(R.q[x], R.q[y])

\* The object did not change and every request was answered as HTTP asks.
Calm(R, j) ==
  /\ \A x \in Seen(R, j) : LET q == R.q[x] IN q.hon /\ q.v = R.q[1].v /\ q.og = R.q[1].og /\ ~q.dp
\* A reason for call j to fail.
Trouble(R, j) ==
  \/ \E i \in 1..(j - 1) : R.h[i].c.o = "close"
  \/ \E x \in (Own(R, j) \cup (IF R.c.k = "range" THEN Seen(R, j) ELSE {})) :
        LET q == R.q[x] IN
          \/ ~Good(q) \/ ~Whole(q) \/ Denied(R.c, q)
          \/ \E y \in Seen(R, j) : Says(R.q[y]) /\ Clash(R.q[y], q)
Last(R, j) == R.q[R.h[j].r.q[Len(R.h[j].r.q)]]
Why(R, j, e) ==
  Own(R, j) # {} /\ ~(\E i \in 1..(j - 1) : R.h[i].c.o = "close") =>
    LET q == Last(R, j)
    IN CASE Good(q) /\ Whole(q) -> e = "changed"
         [] Plain(q) /\ q.st = 200 -> e \in {"changed", "ignored"}
         [] Plain(q) /\ q.st = 206 /\ q.cr = "ok" /\ ~Placed(q) -> e \in {"changed", "ignored"}
         [] OTHER -> TRUE
Ends(R, j, o) ==
  \/ o >= End(R.c)
  \/ R.c.ps >= 0 /\ o >= R.c.ps
  \/ \E x \in Seen(R, j) : Says(R.q[x]) /\ o >= Size(R.q[x])

AtOk(R, j) ==
  LET C == R.c  c == R.h[j].c  r == R.h[j].r  o == Abs(C, c)
  IN IF c.f < 0 THEN r.n = 0 /\ r.e \notin {"nil", "eof"}
     ELSE IF c.k = 0 THEN r.n = 0 /\ (r.e = "eof" => Ends(R, j, o))
     ELSE IF o >= End(C) THEN r.n = 0 /\ r.e = "eof"
     ELSE /\ r.n >= 0 /\ r.n <= Min(c.k, End(C) - o)
          /\ \A x \in 1..r.n : Off(r.d[x]) = o + x - 1 /\ Ver(r.d[x]) = Ver(r.d[1])
          /\ CASE r.e = "nil" -> r.n = c.k
               [] r.e = "eof" -> Ends(R, j, o + r.n)
               [] OTHER -> Trouble(R, j) /\ Why(R, j, r.e)
\* A call has its own failing response and answers as if it had not.
Refused(R, j) ==
  Own(R, j) # {} /\ R.h[j].c.o \in {"at", "probe"} /\ ~(Good(Last(R, j)) /\ ~Denied(R.c, Last(R, j)))
    => R.h[j].r.e \notin {"nil", "eof"} /\ R.h[j].r.n = 0
ProbeOk(R, j) == LET r == R.h[j].r IN r.e = "nil" \/ (Trouble(R, j) /\ Why(R, j, r.e))
Peaceful(R, j) ==
  LET c == R.h[j].c
  IN Own(R, j) # {} /\ (c.o = "probe" \/ (c.o = "at" /\ c.f >= 0)) /\ Calm(R, j) /\ ~(\E i \in 1..(j - 1) : R.h[i].c.o = "close")
       => R.h[j].r.e \in {"nil", "eof"}
\* Reads in order through a range view cost one request.
InOrder(R, j) == \A i \in 1..j :
                   LET c == R.h[i].c
                   IN c.o = "at" /\ c.k > 0 /\ (\A x \in 1..Len(R.h) : x # i => R.h[x].c.g # c.g)
                      /\ c.f = (IF i = 1 THEN 0 ELSE R.h[i - 1].c.f + R.h[i - 1].r.n)
                      /\ (i < j => R.h[i].r.e = "nil")
OneRequest(R, j) == R.c.k = "range" /\ j > 1 /\ InOrder(R, j) => Own(R, j) = {}

Ok(R, j) ==
  CASE R.h[j].c.o = "at" -> AtOk(R, j) /\ OneVersion(R, j) /\ Refused(R, j) /\ Peaceful(R, j) /\ OneRequest(R, j)
    [] R.h[j].c.o = "probe" -> ProbeOk(R, j) /\ OneVersion(R, j) /\ Refused(R, j) /\ Peaceful(R, j)
    [] R.h[j].c.o = "close" -> R.h[j].r.n = 0
================================================================================
