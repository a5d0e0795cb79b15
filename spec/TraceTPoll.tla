----------------------------- MODULE TraceTPoll -----------------------------
(* Checks what the real tpoll.c did against TPoll.                           *)
EXTENDS TPoll, TLC, TLCExt, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Say(x) == PrintT(<<"REJECT", l, x>>)
G(g, x) == IF g THEN TRUE ELSE Say(x) /\ FALSE
ToSet(s) == { s[i] : i \in 1..Len(s) }
Pairs(s) == { <<s[i][1], ToSet(s[i][2])>> : i \in 1..Len(s) }
Now(e) == <<e.now[1], e.now[2]>>

Do(e) ==
  CASE e.e = "new" -> /\ G(e.ok, "cannot be made")
                      /\ ev' = <<>> /\ tm' = <<>> /\ rep' = <<>> /\ loose' = {} /\ chg' = {} /\ call' = None /\ tick' = e.tick
    [] e.e = "set" -> G(e.rc = SetRc(e.fd), e) /\ Set(e.fd, ToSet(e.ev))
    [] e.e = "clr" -> G(e.rc = SetRc(e.fd), e) /\ Clear(e.fd, ToSet(e.ev))
    [] e.e = "is" -> G(IsOk(e.fd, ToSet(e.ev), e.rc, ToSet(e.got)), <<"is set", e, ev, rep, loose>>) /\ UNCHANGED vars
    [] e.e = "zero" -> G(e.rc = ZeroRc(e.how), e) /\ Zero(e.how)
    [] e.e = "tset" -> G(TimerOk(e.k, e.id), <<"timer", e, tm>>) /\ Timer(e.k, e.id, <<e.at[1], e.at[2]>>)
    [] e.e = "can" -> G(e.rc = CancelRc(e.id), <<"cancel", e, tm>>) /\ Cancel(e.id)
    [] e.e = "enter" -> Enter(e.ms, Now(e), <<e.till[1], e.till[2]>>)
    [] e.e = "blk" -> G(BlkOk(Now(e), e.inf, <<e.till[1], e.till[2]>>, Pairs(e.fds)), <<"sleeps", e, ev, tm, call>>) /\ UNCHANGED vars
    [] e.e = "kern" -> Kern(e.n, Pairs(e.rep))
    [] e.e = "fire" -> G(FireOk(e.k, Now(e)), <<"runs", e, tm>>) /\ Fire(e.k)
    [] e.e = "ret" -> G(RetOk(e.n, Now(e)), <<"returns", e, ev, tm, call>>) /\ Ret
    [] e.e = "null" -> G(e.rc = 1, "accepts nothing for something") /\ UNCHANGED vars
    [] e.e \in {"asleep", "end"} -> UNCHANGED vars
    [] OTHER -> G(FALSE, e)

TInit == l = 1 /\ Init
TNext == l <= Len(Log) /\ Do(Log[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, vars>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
