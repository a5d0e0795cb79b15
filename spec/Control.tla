------------------------------ MODULE Control ------------------------------
(* Daemons, the configuration they run with, and the requests made to them. *)
(* A process is a daemon being started ("start") or a request to a running  *)
(* one ("term", "hup", "query").  What is said here is what a user can see: *)
(* who comes up, who is signalled, what each command returns, and whose the *)
(* process id file is.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES P,        \* the processes
          gen,      \* which edition of the configuration file is in place
          pf        \* the process id file: 0 none, k the k-th process's, -1 another

SIGHUP == 1
SIGTERM == 15
ESRCH == 3
EPERM == 1
Ids == 1 .. Len(P)
Starts == { q \in Ids : P[q].k = "start" }
Up == { q \in Ids : P[q].ph = "up" }                \* in service and not told to end
Live == { q \in Starts : P[q].ph # "gone" }
Sigs(k) == CASE k = "term" -> SIGTERM [] k = "hup" -> SIGHUP [] k = "query" -> 0 [] OTHER -> -1

(* k kind; own: it keeps a process id file; named: the file is named on its  *)
(* command line; fg: it stays in the foreground; gens: the editions it may   *)
(* have found; saw: daemons there were at some time during its life; thru:   *)
(* daemons in service throughout (thruF: that a file named to it names);     *)
(* pfs: what the process id file said at some time; sent: what it has done   *)
New(k, own, named, fg) ==
  [ k |-> k, own |-> own, named |-> named, fg |-> fg, ph |-> "run", gens |-> {gen}, saw |-> Live, thru |-> { q \in Up : gen \in P[q].gens /\ Cardinality(P[q].gens) = 1 },
    thruF |-> IF named THEN { q \in Up : P[q].own } ELSE {}, pfs |-> {pf}, was |-> FALSE, sent |-> 0, crashed |-> FALSE, told |-> FALSE, ok |-> FALSE, ret |-> -1, denied |-> FALSE ]

Init == P = <<>> /\ gen = 1 /\ pf = 0
(* What becomes of the others' knowledge when the daemons are L, U is in     *)
(* service, and the file says f.                                             *)
Note(Q, L, U, f) == [ q \in DOMAIN Q |-> IF Q[q].ph = "gone" THEN Q[q] ELSE [ Q[q] EXCEPT !.saw = @ \cup (L \ {q}), !.thru = @ \cap U, !.thruF = @ \cap U, !.pfs = @ \cup {f} ] ]
LiveOf(Q) == { q \in DOMAIN Q : Q[q].k = "start" /\ Q[q].ph # "gone" }
UpOf(Q) == { q \in DOMAIN Q : Q[q].ph = "up" }
Put(Q, f) == P' = Note(Q, LiveOf(Q), UpOf(Q), f) /\ pf' = f

(* ------------------------------------------------------------ what may happen *)
Spawn(p, k, own, named, fg, f) ==
  /\ p = Len(P) + 1
  /\ Put(Append(P, New(k, own, named, fg)), f)
  /\ UNCHANGED gen
(* A daemon comes into service: no other is, with the same configuration. *)
CanUp(p, f) ==
  /\ P[p].k = "start" /\ P[p].ph = "run" /\ P[p].ret <= 0
  /\ \A q \in Up : P[q].gens \cap P[p].gens = {} \/ Cardinality(P[q].gens \cup P[p].gens) > 1
  /\ P[p].own => f = p
GoUp(p, f) ==
  /\ CanUp(p, f)
  /\ Put([ P EXCEPT ![p].ph = IF P[p].told THEN "term" ELSE "up", ![p].was = TRUE ], f)
  /\ UNCHANGED gen
(* A request's signal: to one daemon that runs with this configuration, or    *)
(* that the process id file it was given names; to the one in service if one  *)
(* was all along.                                                             *)
Target(p, to) ==
  \/ to \in Starts /\ P[to].gens \cap P[p].gens # {} /\ to \in P[p].saw \cup Live
  \/ P[p].named /\ to \in P[p].pfs
CanSig(p, to, s, r) ==
  /\ P[p].k # "start" /\ P[p].ph = "run"
  /\ s = Sigs(P[p].k)
  /\ P[p].sent = 0
  /\ to \in Ids =>
       /\ Target(p, to)
       /\ P[p].thru # {} => to \in P[p].thru
       /\ P[to].k = "start"
  /\ to <= 0 => P[p].named /\ (-1 \in P[p].pfs) /\ P[p].thru = {} /\ r = ESRCH
Sig(p, to, s, r, f) ==
  /\ CanSig(p, to, s, r)
  /\ LET A == [ P EXCEPT ![p].sent = IF r = 0 \/ (s = 0 /\ r = EPERM) THEN to ELSE @, ![p].denied = @ \/ r # 0 ]
         B == IF to \notin Ids \/ r # 0 \/ s = 0 \/ A[to].ph = "gone" THEN A
              ELSE IF A[to].ph = "run" THEN [ A EXCEPT ![to].crashed = TRUE, ![to].told = @ \/ s = SIGTERM ]    \* may not be ready for signals yet
              ELSE IF s = SIGTERM THEN [ A EXCEPT ![to].ph = "term" ] ELSE A
     IN Put(B, f)
  /\ UNCHANGED gen
(* A process ends.  A daemon ends because it was told to, or because another  *)
(* was there before it could come into service; when it was told to, the      *)
(* process id file is gone with it.                                           *)
CanGo(p, f) ==
  /\ P[p].ph # "gone"
  /\ (P[p].k = "start" /\ ~P[p].crashed) =>
       CASE P[p].ph = "run" -> ~P[p].ok /\ P[p].saw # {}
         [] P[p].ph = "term" -> f # p
         [] OTHER -> FALSE
Go(p, f) ==
  /\ CanGo(p, f)
  /\ Put([ P EXCEPT ![p].ph = "gone" ], f)
  /\ UNCHANGED gen
(* A command returns to its caller: a daemon in the background when it is     *)
(* ready, anything else when it ends; err: it said what was wrong.            *)
CanRet(p, rc, out, err) ==
  /\ P[p].ret = -1
  /\ IF P[p].k = "start" THEN
       P[p].crashed \/
       ( IF P[p].fg THEN P[p].ph = "gone" /\ (rc = 0) = P[p].was /\ (rc # 0 => err)
         ELSE (rc # 0 => P[p].ph \in {"run", "gone"} /\ err) )
     ELSE /\ (rc = 0) = (P[p].sent # 0)
          /\ (rc = 0 /\ P[p].k = "query") => out = P[p].sent
          /\ (rc = 0 /\ P[p].k # "query") => out = 0
          /\ rc # 0 => err /\ out = 0
          /\ P[p].thru \cup P[p].thruF # {} /\ ~P[p].denied => rc = 0
Ret(p, rc, out, err, f) ==
  /\ CanRet(p, rc, out, err)
  /\ Put([ P EXCEPT ![p].ret = rc, ![p].ok = @ \/ (rc = 0 /\ P[p].k = "start") ], f)
  /\ UNCHANGED gen
Crash(p, f) ==
  /\ P[p].ph # "gone"
  /\ Put([ P EXCEPT ![p].crashed = TRUE, ![p].ph = IF @ = "up" THEN "term" ELSE @ ], f)
  /\ UNCHANGED gen
(* Something that no one need notice *)
Step(p, f) == P[p].ph # "gone" /\ Put(P, f) /\ UNCHANGED gen
Edit(f) ==
  /\ gen' = gen + 1
  /\ P' = [ q \in Ids |-> IF P[q].ph = "run" THEN [ P[q] EXCEPT !.gens = @ \cup {gen + 1}, !.thru = {}, !.pfs = @ \cup {f} ] ELSE P[q] ]
  /\ pf' = f
Stale(f) == Put(P, f) /\ UNCHANGED gen
(* All is quiet: those in service are, and no others. *)
CanEnd(alive, listening) ==
  /\ { alive[k] : k \in 1 .. Len(alive) } = Up
  /\ \A q \in Ids : P[q].ph \in {"up", "gone"} /\ P[q].ret >= (IF P[q].ph = "up" /\ P[q].fg THEN -1 ELSE 0)
  /\ listening = (Up # {})

(* ------------------------------------------------------------ always *)
(* The process id file of a daemon in service names it. *)
FileRight == \A q \in Up : P[q].own => pf = q
OneUp == \A q, u \in Up : q # u => P[q].gens \cap P[u].gens = {} \/ Cardinality(P[q].gens \cup P[u].gens) > 1
=============================================================================
