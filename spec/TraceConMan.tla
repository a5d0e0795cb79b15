---------------------------- MODULE TraceConMan ----------------------------
(* Checks recorded runs of the real daemon against ConMan.  The file named  *)
(* by TRACE holds one event per line; several runs follow one another, each *)
(* starting with a "cfg" event.  Every event must be one that ConMan allows *)
(* in the state reached so far.                                             *)
EXTENDS ConMan, TLCExt, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l

TSof(e) == [ long |-> e.long, short |-> e.short, tz |-> e.tz ]
Say(x) == PrintT(<<"REJECT", l, x>>)

G(g, x) == IF g THEN TRUE ELSE Say(x) /\ FALSE

OutOf(e) == IF e.ty = "k" THEN (IF e.o \in DOMAIN S.cli THEN (IF S.cli[e.o].st = "run" THEN S.cli[e.o].out ELSE S.cli[e.o].rsp) ELSE "?")
            ELSE IF e.ty = "c" THEN S.con[e.o].out ELSE S.log[e.o].out
StOf(e) == IF e.ty = "k" THEN (IF e.o \in DOMAIN S.cli THEN S.cli[e.o] ELSE "?") ELSE IF e.ty = "c" THEN S.con[e.o] ELSE S.log[e.o]

Rd(e) ==
  IF e.ty = "c" THEN G(ConReadOk(S, e.o) /\ LineSet(S, e.o), StOf(e)) /\ S' = ConRead(S, e.o, e.p)
  ELSE IF e.th THEN G(HsReadOk(S, e.o, e.d), StOf(e)) /\ S' = HsRead(S, e.o, e.d)
  ELSE /\ G(CliReadOk(S, e.o), StOf(e))
       /\ LET r == CliReadA(S, e.o, e.p, e.pids, e.ferr)
          IN G(~r.bad /\ r.pids = <<>>, <<"reset", r.bad, r.pids>>) /\ S' = r.S
Eof(e) ==
  IF e.ty = "c" THEN G(ConEofOk(S, e.o), StOf(e)) /\ S' = ConEof(S, e.o)
  ELSE IF e.o \in DOMAIN S.cli /\ S.cli[e.o].st \in {"greet", "req"}
       THEN G(HsEofOk(S, e.o), StOf(e)) /\ S' = HsEof(S, e.o)
       ELSE G(CliEofOk(S, e.o), StOf(e)) /\ S' = CliEof(S, e.o)
Wr(e) ==
  CASE e.ty = "k" -> G(CliWriteOk(S, e.o, e.d), <<"write", e.o, e.d, "expected", OutOf(e), StOf(e)>>) /\ S' = CliWrite(S, e.o, e.d)
    [] e.ty = "c" -> G(ConWriteOk(S, e.o, e.d) /\ LineSet(S, e.o), <<"write", e.o, e.d, "expected", OutOf(e)>>) /\ S' = ConWrite(S, e.o, e.d)
    [] OTHER -> G(LogWriteOk(S, e.o, e.d), <<"log write", e.o, e.d, "expected", OutOf(e)>>) /\ S' = LogWrite(S, e.o, e.d)
Fail(e) ==
  CASE e.ty = "k" -> G(e.o \in DOMAIN S.cli, e) /\ S' = CliFail(S, e.o)
    [] e.ty = "c" -> S' = ConFail(S, e.o)
    [] OTHER -> S' = LogFail(S, e.o)
Cl(e) ==
  CASE e.ty = "k" -> G(CliCloseOk(S, e.o), <<"close", StOf(e)>>) /\ S' = CliClose(S, e.o)
    [] e.ty = "c" -> G(ConCloseOk(S, e.o) /\ LineOwn(S, e.o), <<"close", StOf(e)>>) /\ S' = ConClose(S, e.o)
    [] OTHER -> G(LogCloseOk(S, e.o), <<"close", StOf(e)>>) /\ S' = LogClose(S, e.o)
SetOf(s) == { s[i] : i \in 1 .. Len(s) }
IdleEv(e) ==
  LET bad == IdleBad(S, SetOf(e.blk))
  IN /\ G(bad = {}, <<"not done", { <<x, IF x[1] = "k" THEN S.cli[x[2]] ELSE IF x[1] = "c" THEN S.con[x[2]] ELSE S.log[x[2]]>> : x \in bad }>>)
     /\ G(~S.term, "told to end")
     /\ G(e.unread = <<>> /\ e.unacc = <<>>, <<"unread", e.unread, e.unacc>>)
     /\ G("unlk" \in DOMAIN e => e.unlk = <<>>, <<"not locked", e>>)
     /\ G(LinesSet(S), <<"lines", { <<c, S.con[c].line, S.cfg.cons[c].line>> : c \in DOMAIN S.con }>>)
     /\ S' = Waited(S)

Step(e) ==
  CASE e.e = "const" -> S' = S
    [] e.e = "cfg" -> S' = InitState([ cons |-> e.cons, reset |-> e.reset, host |-> e.host, rx |-> e.rx, zero |-> e.zero, env |-> e.env ], TSof(e))
    [] e.e = "clk" -> S' = Clock(S, e.now, TSof(e), e.mark)
    [] e.e = "acc" -> G(AcceptOk(S, e.o), e) /\ S' = Accept(S, e.o)
    [] e.e = "accfail" -> S' = S                             \* the connection waits or is gone
    [] e.e = "nothread" -> S' = CliFail(S, e.o)             \* nothing can serve the connection
    [] e.e = "rd" -> Rd(e)
    [] e.e = "eof" -> Eof(e)
    [] e.e = "wr" -> /\ G("STRICT" \notin DOMAIN IOEnv \/ e.ty # "k" \/ StillFree(S, e.o), <<"not free any more", StOf(e)>>)
                     /\ Wr(e)
    [] e.e \in {"rerr", "werr"} -> Fail(e)
    [] e.e = "cl" -> IF S.term THEN G(e.ty = "c" => LineOwn(S, e.o), e) /\ S' = S ELSE Cl(e)          \* everything is closed at the end
    [] e.e = "nfy" -> S' = Appeared(S, e.o)
    [] e.e = "try" -> G(TryOk(S, e.o), <<"attempt", S.now, S.con[e.o]>>) /\ S' = Try(S, e.o, e.r, e.why)
    [] e.e = "so" -> G(PendOk(S, e.o), e) /\ S' = Pend(S, e.o, e.r)
    [] e.e = "fork" -> G(GivenOk(S, e.fds, e.env), e) /\ IF e.why = "con" THEN G(ForkOk(S, e.o, e.ok), <<"start", S.now, S.con[e.o], e>>) /\ S' = Fork(S, e.o, e.pid)
                       ELSE G(e.why = "reset" /\ ResetForkOk(S, e.o, e.pid, e.ok), e) /\ S' = ResetFork(S, e.o, e.pid)
    [] e.e = "kill" -> G(e.o # "" /\ KillOk(S, e.o, e.pid, e.grp, e.sig, e.reset), <<e, IF e.o # "" THEN S.con[e.o] ELSE "">>)
                        /\ S' = Kill(S, e.o, e.pid, e.sig, e.reset)
    [] e.e = "rdead" -> S' = ResetDead(S, e.o, e.pid)
    [] e.e = "line" -> S' = SetLine(S, e.o, e)
    [] e.e = "brk" -> G(BreakOk(S, e.o), e) /\ S' = Break(S, e.o)
    [] e.e = "opn" -> G(LogOpenOk(S, e.o, e.trunc, e.app) /\ LogNameOk(S, e.o, e), <<e, S.log>>) /\ S' = LogOpen(S, e.o, e.r)
    [] e.e = "full" -> S' = LogFull(S, e.o, e.f)
    [] e.e = "hup" -> S' = Hangup(S)
    [] e.e = "idle" -> IdleEv(e)
    [] e.e = "term" -> S' = [ S EXCEPT !.term = TRUE ]
    [] e.e = "exit" -> G(S.term /\ e.rc = 0, e) /\ S' = S
    [] OTHER -> G(FALSE, <<"event", e>>) /\ S' = S

Init == S = [ x |-> 0 ] /\ l = 1
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<S, l>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
