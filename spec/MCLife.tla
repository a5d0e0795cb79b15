------------------------------- MODULE MCLife -------------------------------
(* The life of a console of each kind: attempts that succeed, fail, hang or  *)
(* cannot resolve a name, connections that break or end, programs that die,  *)
(* socket files that appear, sessions that come and want it back, reset      *)
(* commands that end or hang, and time.  The daemon is ConMan; time passes   *)
(* only when it has done all it must.                                        *)
EXTENDS ConMan

CONSTANTS Kinds, Ops, Fails  \* Ops: what the world does; Fails: attempts that fail
VARIABLES S, G, left
vars == <<S, G, left>>

Cfg(kd) == [ cons |-> [ c \in {"1"} |-> [ name |-> "a", kind |-> kd, dev |-> "d", logged |-> FALSE, san |-> FALSE, ts |-> FALSE ] ],
             reset |-> TRUE, host |-> "h", rx |-> [ z \in {} |-> 0 ], zero |-> FALSE ]
TS == [ long |-> "L", short |-> "S", tz |-> "Z" ]
C == S.con["1"]
Kd == Kind(S, "1")
Least == CASE Kd = "unix" -> 1000 [] Kd = "telnet" -> 0 [] Kd = "process" -> 0 [] Kd = "ipmi" -> 60000 [] OTHER -> 0
Most == CASE Kd = "unix" -> 60000 [] OTHER -> 1800000

(* A session which writes to the console (that the daemon has started). *)
WithSession(A) ==
  LET B == HsRead(Accept(A, "k"), "k", "HELLO USER='u'\n")
  IN HsRead(CliWrite(B, "k", B.cli["k"].rsp), "k", "CONNECT CONSOLE='a'\n")
Quietly(A) == [ A EXCEPT !.cli = [ k \in DOMAIN A.cli |-> [ A.cli[k] EXCEPT !.out = "" ] ],
                         !.con["1"].out = IF A.con["1"].st = "up" THEN "" ELSE @ ]
NewG == [ down |-> 0,                \* since when it is not connected
          gap |-> 0,                 \* the wait before the last attempt that the timer made, if the one before failed too
          tries |-> 0, up |-> 0,     \* failed attempts in a row; since when it is up
          alive |-> {}, pids |-> 0,  \* programs that run, started
          resets |-> <<>>,           \* reset commands that run: <<pid, since>>
          late |-> FALSE, asked |-> FALSE, fails |-> 0, last |-> 0, why |-> "" ]
Init == \E kd \in Kinds : S = InitState(Cfg(kd), TS) /\ G = [ NewG EXCEPT !.why = "kick" ] /\ left = Ops
Keep(A, H) == S' = Quietly(A) /\ G' = H
Spend == left > 0 /\ left' = left - 1

(* Why an attempt is made now. *)
Why == IF C.kick THEN "kick" ELSE IF C.tm >= 0 /\ C.tm <= S.now THEN "timer" ELSE "file"
Failed(H) == [ H EXCEPT !.asked = FALSE, !.fails = @ + 1, !.tries = @ + 1, !.gap = IF Why = "timer" /\ G.tries > 0 /\ G.why # "resolve" THEN S.now - G.last ELSE 0, !.last = S.now, !.why = Why ]
Came(H) == [ H EXCEPT !.asked = FALSE, !.up = S.now, !.why = Why, !.gap = 0, !.tries = 0 ]
Attempt == /\ TryOk(S, "1") /\ Kd \notin {"process"} /\ UNCHANGED left
           /\ \/ Kd # "ipmi" /\ Keep(Try(S, "1", "ok", ""), Came(G))
              \/ G.fails < Fails /\ Kd \in {"unix", "serial"} /\ Keep(Try(S, "1", "cfail", ""), Failed(G))
              \/ G.fails < Fails /\ Kd = "telnet" /\ \E r \in {"fail", "resolve"} : Keep(Try(S, "1", r, ""), IF r = "resolve" THEN [ Failed(G) EXCEPT !.gap = 0, !.why = "resolve" ] ELSE Failed(G))
              \/ Kd = "telnet" /\ Keep(Try(S, "1", "pend", ""), [ G EXCEPT !.why = Why, !.asked = FALSE ])
              \/ G.fails < Fails /\ Kd = "ipmi" /\ Keep(Try(S, "1", "pend", ""), [ G EXCEPT !.asked = FALSE, !.why = Why, !.fails = @ + 1, !.late = FALSE ])
              \/ G.fails < Fails /\ Kd = "ipmi" /\ Keep(Try(S, "1", "fail", ""), Failed(G))
Program == /\ Kd = "process" /\ UNCHANGED left
           /\ \/ ForkOk(S, "1", TRUE) /\ Keep(Fork(S, "1", G.pids + 1), [ Came(G) EXCEPT !.pids = @ + 1, !.alive = @ \cup {G.pids + 1} ])
              \/ TryOk(S, "1") /\ C.mustkill = 0 /\ G.fails < Fails /\ Keep(Try(S, "1", "fail", "x"), Failed(G))
Outcome == /\ C.st = "pend" /\ PendOk(S, "1") /\ Spend
           /\ \/ Keep(Pend(S, "1", 0), Came(G))
              \/ G.fails < Fails /\ Keep(Pend(S, "1", 111), [ Failed(G) EXCEPT !.gap = 0, !.why = G.why ])
(* An attempt that was given up ends after all. *)
Late == Kd = "ipmi" /\ C.st = "down" /\ G.late /\ Spend /\ Keep(Pend(S, "1", 0), [ G EXCEPT !.late = FALSE ])
Close == /\ ConCloseOk(S, "1") /\ UNCHANGED left
         /\ Keep(ConClose(S, "1"), [ G EXCEPT !.down = S.now, !.last = S.now ])
KillIt == /\ C.mustkill # 0 /\ UNCHANGED left
          /\ KillOk(S, "1", C.mustkill, FALSE, 9, FALSE) /\ Keep(Kill(S, "1", C.mustkill, 9, FALSE), [ G EXCEPT !.alive = @ \ {C.mustkill} ])
KillReset == /\ C.rkill /\ C.rpid # 0 /\ UNCHANGED left
             /\ Keep(Kill(S, "1", C.rpid, 9, TRUE), [ G EXCEPT !.resets = SelectSeq(@, LAMBDA r : r[1] # C.rpid) ])
(* the world *)
Breaks == C.st = "up" /\ ~C.err /\ ~C.eof /\ Spend /\ (Keep(ConFail(S, "1"), G) \/ Keep(ConEof(S, "1"), G))
Appears == Kd = "unix" /\ C.nfy + C.nfo < 2 /\ Spend /\ Keep(Appeared(S, "1"), G)
Comes == "k" \notin DOMAIN S.cli /\ Spend /\ Keep(WithSession(S), G)
Starts == "k" \in DOMAIN S.cli /\ S.cli["k"].rsp # "" /\ Spend /\ Keep(CliWrite(S, "k", S.cli["k"].rsp), [ G EXCEPT !.tries = 0, !.gap = 0, !.asked = (C.st = "down") ])
ResetIt == /\ "k" \in DOMAIN S.cli /\ S.cli["k"].st = "run" /\ G.pids < 20 /\ Spend
           /\ LET p == G.pids + 100
                  r == CliReadA(S, "k", <<ESC, "R">>, <<p>>, "")
              IN /\ ~r.bad
                 /\ Keep([ r.S EXCEPT !.con["1"].rq = <<>> ], IF r.S.con["1"].rpid = p THEN [ G EXCEPT !.pids = @ + 1, !.resets = Append(@, <<p, S.now>>) ] ELSE G)
ResetEnds == \E i \in 1 .. Len(G.resets) : /\ Spend
               /\ Keep(ResetDead(S, "1", G.resets[i][1]), [ G EXCEPT !.resets = SelectSeq(@, LAMBDA r : r # G.resets[i]) ])
Idle == C.nfy = 0 /\ ConIdle(S, "1", FALSE)
(* Time goes on to when something is due, or to some time before. *)
Due == { t \in { C.tm, C.rtm, IF C.rpid # 0 THEN C.rdue ELSE -1 } : t > S.now }
Time == /\ Idle /\ ~(C.tm >= 0 /\ C.tm <= S.now /\ C.st = "down") /\ ~(C.rpid # 0 /\ C.rdue <= S.now)
        /\ \E t \in (IF Due = {} THEN {} ELSE { CHOOSE t \in Due : \A u \in Due : t <= u }) \cup { S.now + 1000, S.now + 20000 } :
             /\ \A u \in Due : t <= u
             /\ IF t \in Due THEN UNCHANGED left ELSE Spend
             /\ Keep(Waited(Clock(S, t, TS, 0)), IF C.st = "pend" /\ Kd = "ipmi" /\ C.tm <= t THEN [ G EXCEPT !.last = t, !.gap = 0, !.tries = @ + 1, !.late = TRUE ] ELSE G)
Daemon == Attempt \/ Program \/ Close \/ KillIt \/ KillReset
Next == IF S.con["1"].by # "" THEN Attempt \/ Program ELSE Daemon \/ Outcome \/ Late \/ Breaks \/ Appears \/ Comes \/ Starts \/ ResetIt \/ ResetEnds \/ Time
Spec == Init /\ [][Next]_vars /\ WF_vars(Daemon) /\ WF_vars(Time)

(* ------------------------------------------------------------ what is promised *)
(* It is never forgotten: when it is down and all is quiet, there is a time *)
(* at which it is tried again, not further away than the longest delay.      *)
NotForgotten == (C.st = "down" /\ Idle /\ Kd # "serial") => C.tm >= 0 /\ C.tm - S.now <= Most
(* Waits between failed attempts of the timer's double up to the longest.    *)
NotTooOften == G.why = "timer" /\ G.gap > 0 => G.gap >= Least /\ G.gap <= Most
Quiet1 == C.st = "up" => C.tm = -1 /\ ~TryOk(S, "1")
(* A connection that held is forgiven its earlier failures.                 *)
Forgiven == C.st = "up" /\ Kd # "serial" /\ S.now - G.up >= ResetAfter(Kd) /\ Idle => C.delay = (CASE Kd = "unix" -> 1 [] Kd = "ipmi" -> 60 [] OTHER -> 0)
OneProgram == Cardinality(G.alive) <= 1 /\ (Idle => G.alive = (IF C.st = "up" /\ Kd = "process" THEN {C.pid} ELSE {}))
(* A session that starts has the console tried at once. *)
TriedForIt == Idle => ~G.asked
OneReset == Len(G.resets) <= 1
ShortReset == Idle => \A i \in 1 .. Len(G.resets) : S.now - G.resets[i][2] <= 60000
Goes == ~Idle => ENABLED Daemon \/ C.st = "pend" \/ C.out # "" \/ C.nfy + C.nfo > 0 \/ (Kd = "ipmi" /\ G.fails = Fails)
DelayOk == C.delay >= 0 /\ 1000 * C.delay <= Most
Doubling == [][ (G'.gap > 0 /\ G.gap > 0 /\ G'.tries = G.tries + 1 /\ G'.why = "timer") => G'.gap \in {Lesser(2 * G.gap, Most)} ]_vars
=============================================================================
