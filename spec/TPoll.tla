------------------------------- MODULE TPoll -------------------------------
(* The timers and the waiting of the daemon: what a caller of tpoll.h sees.  *)
(* Times are <<seconds, microseconds>>.  A call of tpoll() is made of what    *)
(* it does in between: it sleeps (Blk), the kernel reports (Kern), timers run *)
(* (Fire), and other threads may change what is waited for at any point.      *)
EXTENDS Integers, Sequences, FiniteSets, Functions

VARIABLES ev,      \* descriptor -> events wanted (a nonempty set)
          tm,      \* timers set: records [k, id, at], in the order of setting
          rep,     \* descriptor -> what the last wait reported
          loose,   \* descriptors changed while their report was on its way
          chg,     \* descriptors changed since the kernel last reported
          call,    \* the call of tpoll() in progress
          tick     \* microseconds that every look at the clock takes
vars == <<ev, tm, rep, loose, chg, call, tick>>

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == ~Lt(b, a)
Plus(a, us) == LET u == a[2] + us IN <<a[1] + u \div 1000000, u % 1000000>>
(* Sleeping is counted in milliseconds: up to two more than was asked for.   *)
Slack == 2000 + 8 * tick

None == [in |-> FALSE, ms |-> 0, ent |-> <<0, 0>>, till |-> <<0, 0>>, last |-> -2, had |-> {}, mixed |-> FALSE]
Idle == call = None
Ev(fd) == IF fd \in DOMAIN ev THEN ev[fd] ELSE {}
Ks == { tm[i].k : i \in 1..Len(tm) }
Ids == { tm[i].id : i \in 1..Len(tm) }
Without(f, D) == [ x \in DOMAIN f \ D |-> f[x] ]
With(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]

Init == ev = <<>> /\ tm = <<>> /\ rep = <<>> /\ loose = {} /\ chg = {} /\ call = None /\ tick = 0

-----------------------------------------------------------------------------
(* What any thread may do at any time.                                       *)
Touch(D) == /\ chg' = chg \cup D /\ loose' = IF call.in THEN loose \cup D ELSE loose \ D
            /\ call' = IF call.in THEN [ call EXCEPT !.mixed = TRUE ] ELSE call
SetRc(fd) == IF fd < 0 THEN -1 ELSE 0
Set(fd, E) ==
  /\ IF fd < 0 \/ E \subseteq Ev(fd) THEN UNCHANGED <<ev, rep, loose, chg, call>>
     ELSE /\ ev' = With(ev, fd, Ev(fd) \cup E)
          /\ rep' = IF fd \in DOMAIN ev THEN rep ELSE Without(rep, {fd})
          /\ IF fd \in DOMAIN ev /\ ~call.in THEN UNCHANGED <<loose, chg, call>> ELSE Touch({fd})
  /\ UNCHANGED <<tm, tick>>
Clear(fd, E) ==
  /\ IF fd < 0 \/ Ev(fd) \cap E = {} THEN UNCHANGED <<ev, rep, loose, chg, call>>
     ELSE /\ ev' = IF Ev(fd) \subseteq E THEN Without(ev, {fd}) ELSE With(ev, fd, Ev(fd) \ E)
          /\ rep' = IF Ev(fd) \subseteq E THEN Without(rep, {fd}) ELSE rep
          /\ chg' = chg \cup {fd}
          /\ loose' = loose \cup {fd}
          /\ call' = IF call.in THEN [ call EXCEPT !.mixed = TRUE ] ELSE call
  /\ UNCHANGED <<tm, tick>>
(* The last wait's answer for a descriptor: nothing if it is not waited for. *)
IsOk(fd, E, rc, got) ==
  IF fd < 0 THEN rc = -1
  ELSE /\ rc >= 0
       /\ LET R == IF fd \in DOMAIN ev /\ fd \in DOMAIN rep THEN rep[fd] \cap E ELSE {}
          IN IF fd \in loose THEN got \subseteq R ELSE got = R
ZeroRc(how) == IF how \in 0..3 THEN 0 ELSE -1
Zero(how) ==
  /\ IF how \in {1, 3}
     THEN LET D == DOMAIN ev IN ev' = <<>> /\ rep' = <<>> /\ Touch(D)
     ELSE UNCHANGED <<ev, rep, loose, chg, call>>
  /\ tm' = IF how \in {2, 3} THEN <<>> ELSE tm
  /\ UNCHANGED tick
TimerOk(k, id) == id > 0 /\ id \notin Ids /\ k \notin Ks
Timer(k, id, at) == /\ tm' = Append(tm, [k |-> k, id |-> id, at |-> at])
                    /\ UNCHANGED <<ev, rep, loose, chg, call, tick>>
CancelRc(id) == IF id <= 0 THEN -1 ELSE IF id \in Ids THEN 1 ELSE 0
Cancel(id) == /\ tm' = SelectSeq(tm, LAMBDA t : t.id # id)
              /\ UNCHANGED <<ev, rep, loose, chg, call, tick>>

-----------------------------------------------------------------------------
(* A call of tpoll(): wait up to ms milliseconds (-1: without end).          *)
Enter(ms, now, till) ==
  /\ call' = [in |-> TRUE, ms |-> ms, ent |-> now, till |-> till, last |-> -2, had |-> Ks, mixed |-> FALSE]
  /\ chg' = {} /\ UNCHANGED <<ev, tm, rep, loose, tick>>
(* It sleeps only when there is nothing to do, for what is wanted now, and    *)
(* no longer than to the next timer or its own end.                           *)
BlkOk(now, inf, till, F) ==
  /\ call.in /\ call.ms # 0
  /\ { <<fd, ev[fd]>> : fd \in DOMAIN ev } = F
  /\ ~(call.ms < 0 /\ ev = <<>> /\ tm = <<>>)
  /\ inf => call.ms < 0 /\ tm = <<>>
  /\ ~inf => /\ (call.ms > 0 => Le(till, Plus(call.till, Slack)))
             /\ \A i \in 1..Len(tm) : Le(till, Plus(tm[i].at, Slack))
(* What the kernel reports is what is_set answers from then on.               *)
Kern(n, R) ==
  LET At(fd) == UNION { r[2] : r \in { x \in R : x[1] = fd } } IN
  /\ rep' = [ fd \in DOMAIN ev |-> At(fd) ]
  /\ loose' = chg /\ chg' = {}
  /\ call' = [ call EXCEPT !.last = n ]
  /\ UNCHANGED <<ev, tm, tick>>
(* Timers run when they are due, each once, by time and then in the order of  *)
(* setting.                                                                   *)
At(k) == CHOOSE i \in 1..Len(tm) : tm[i].k = k
FireOk(k, now) ==
  /\ call.in /\ k \in Ks
  /\ Le(tm[At(k)].at, now)
  /\ \A j \in 1..Len(tm) : j # At(k) =>
        (IF j < At(k) THEN Lt(tm[At(k)].at, tm[j].at) ELSE Le(tm[At(k)].at, tm[j].at))
Fire(k) == /\ tm' = SelectSeq(tm, LAMBDA t : t.k # k)
           /\ UNCHANGED <<ev, rep, loose, chg, call, tick>>
(* It returns the number of descriptors reported, 0 when its time is over or  *)
(* there is nothing to wait for, or -1 when the sleep was interrupted; what   *)
(* was due at the start has run by then.                                      *)
RetOk(n, now) ==
  /\ call.in
  /\ \A i \in 1..Len(tm) : ~(tm[i].k \in call.had /\ Le(tm[i].at, call.ent))
  /\ CASE n > 0 -> IF call.mixed THEN n <= call.last ELSE n = call.last
       [] n = 0 -> /\ call.last = 0 \/ (call.mixed /\ call.last >= 0)
                   /\ \/ call.ms = 0
                      \/ call.ms > 0 /\ Le(call.till, now)
                      \/ call.ms < 0 /\ ev = <<>> /\ tm = <<>>
       [] OTHER -> n = -1 /\ call.last = -1
Ret == call' = None /\ UNCHANGED <<ev, tm, rep, loose, chg, tick>>
=============================================================================
