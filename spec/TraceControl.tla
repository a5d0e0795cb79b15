---------------------------- MODULE TraceControl ----------------------------
(* Checks recorded histories of real daemons and requests against Control.   *)
EXTENDS Control, TLC, TLCExt, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Say(x) == PrintT(<<"REJECT", l, x>>)
G(g, x) == IF g THEN TRUE ELSE Say(x) /\ FALSE

Do(e) ==
  CASE e.e = "start" -> P' = <<>> /\ gen' = 1 /\ pf' = 0
    [] e.e = "spawn" -> Spawn(e.p, e.k, e.own, e.named, e.fg, e.pf)
    [] e.e = "up" -> G(CanUp(e.p, e.pf), <<"up", e.p, P, e.pf>>) /\ GoUp(e.p, e.pf)
    [] e.e = "sig" -> G(CanSig(e.p, e.to, e.s, e.r), <<"signal", e, P>>) /\ Sig(e.p, e.to, e.s, e.r, e.pf)
    [] e.e = "gone" -> G(CanGo(e.p, e.pf), <<"ends", e, P>>) /\ Go(e.p, e.pf)
    [] e.e = "ret" -> G(CanRet(e.p, e.rc, e.out, e.err), <<"returns", e, P>>) /\ Ret(e.p, e.rc, e.out, e.err, e.pf)
    [] e.e = "crash" -> Crash(e.p, e.pf)
    [] e.e = "step" -> Step(e.p, e.pf)
    [] e.e = "edit" -> Edit(e.pf)
    [] e.e = "stale" -> Stale(e.pf)
    [] e.e = "end" -> G(CanEnd(e.alive, e.listening), <<"end", e, P>>) /\ Put(P, e.pf) /\ UNCHANGED gen
    [] OTHER -> G(FALSE, e)

TInit == l = 1 /\ Init
TNext == /\ l <= Len(Log)
         /\ Do(Log[l])
         /\ G(FileRight', <<"the file of", P', pf'>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, P, gen, pf>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
