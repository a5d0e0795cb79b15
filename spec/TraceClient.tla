---------------------------- MODULE TraceClient ----------------------------
(* Checks recorded runs of the real client program against Client.          *)
EXTENDS Client, TLCExt, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES C, l

Say(x) == PrintT(<<"REJECT", l, x>>)
G(g, x) == IF g THEN TRUE ELSE Say(x) /\ FALSE
Has(s, t) == \E i \in 0 .. Len(s) - Len(t) : SubSeq(s, i + 1, i + Len(t)) = t

(* Text printed before anything else happens. *)
Printed(e) ==
  CASE C.cf.stop = "help" -> Has(e.d, "[" \o C.cf.host \o ":" \o ToString(C.cf.port) \o "]") /\ Has(e.d, "[" \o Caret(C.cf.esc) \o "]")
    [] C.cf.stop \in {"license", "version"} -> Len(e.d) > 0
    [] OTHER -> FALSE

Step(e) ==
  CASE e.e = "start" -> LET D == Start(e.args, e.env, e.files, e.user, e.tty, e.istty, e.now)
                              h == D.cf.host
                          IN C' = D @@ (IF h \in DOMAIN e.hosts THEN [ ip |-> e.hosts[h].ip, host |-> e.hosts[h].name ]
                                        ELSE [ ip |-> "", host |-> "" ])
    [] e.e = "lopen" -> G(LogOpenedOk(C, e.path, e.app, e.trunc), <<e, C>>) /\ C' = LogOpened(C, e.r)
    [] e.e = "nohost" -> G(C.ph = "start" /\ C.ip = "" /\ e.name = C.cf.host, <<e, C.cf>>) /\ C' = NoHost(C)
    [] e.e = "conn" -> G(ConnOk(C, e.ip, e.port, C.ip) /\ C.host # "", <<e, C>>) /\ C' = Conn(C, e.r)
    [] e.e = "tx" -> G(SentOk(C, e.d), <<"sent", e.d, C>>) /\ C' = Sent(C, e.d)
    [] e.e = "shut" -> G(ShutOk(C), <<e, C>>) /\ C' = Shut(C)
    [] e.e = "rx" -> G(RecvOk(C), <<e, C>>) /\ C' = Recv(C, e.d)
    [] e.e = "rxeof" -> G(RecvOk(C), <<e, C>>) /\ C' = RecvEof(C)
    [] e.e = "rxerr" -> C' = RecvErr(C, e.r)
    [] e.e = "txerr" -> C' = SendErr(C, e.r)
    [] e.e = "key" -> G(KeyOk(C), <<e, C>>) /\ C' = Key(C, e.d, C.host)
    [] e.e = "keyeof" -> G(KeyOk(C), <<e, C>>) /\ C' = KeyEof(C)
    [] e.e = "keyerr" -> C' = OutErr(C, e.r)
    [] e.e = "out" -> G(ShownOk(C, e.d), <<"shown", e.d, "expected", C.out>>) /\ C' = Shown(C, e.d)
    [] e.e = "outerr" -> C' = OutErr(C, e.r)
    [] e.e = "log" -> G(LoggedOk(C, e.d), <<"logged", e.d, "expected", C.lg>>) /\ C' = LogSent(C, e.d)
    [] e.e = "logerr" -> C' = [ OutErr(C, e.r) EXCEPT !.lgany = TRUE ]
    [] e.e = "stop" -> G(StopOk(C, e.cooked), <<e, C>>) /\ C' = Stop(C)
    [] e.e = "term" -> C' = Term(C)
    [] e.e = "wait" -> G(WaitOk(C, e.raw, e.echo, e.blkn, e.blko, e.blkl) /\ e.unread = 0, <<e, C>>) /\ C' = C
    [] e.e = "printed" -> G(Printed(e), <<e, C>>) /\ C' = C
    [] e.e = "exit" -> G(ExitOk(C, e.rc, e.cooked, e.err), <<e, C>>) /\ C' = C
    [] OTHER -> G(FALSE, <<"event", e>>) /\ C' = C

Init == C = [ x |-> 0 ] /\ l = 1
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<C, l>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
