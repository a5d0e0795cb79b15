---------------------------- MODULE TraceConfig ----------------------------
(* Checks what the real daemon made of configuration files against Config.  *)
EXTENDS Config, TLCExt, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Say(x) == PrintT(<<"REJECT", l, x>>)
G(g, x) == IF g THEN TRUE ELSE Say(x) /\ FALSE
IsSet(s, T) == Len(s) = Cardinality(T) /\ { s[k] : k \in 1 .. Len(s) } = T
Tag(c) == <<c.kind>> \o c.dev
RECURSIVE WNum(_, _)
WNum(w, i) == IF i < 0 THEN 0 ELSE (IF i \in w THEN 2 ^ i ELSE 0) + WNum(w, i - 1)

ConOk(c, o) ==
  /\ c.name \in DOMAIN o.got
  /\ G(c.kind = "test" \/ o.got[c.name] = <<Tag(c)>>, <<"console", c, "shows", o.got[c.name]>>)
  /\ c.kind = "telnet" =>
       G(c.dev[1] \in DOMAIN o.tkeep /\ (IF c.keep THEN 1 ELSE 0) \in { o.tkeep[c.dev[1]][k] : k \in 1 .. Len(o.tkeep[c.dev[1]]) },
         <<"keepalive of", c, o.tkeep>>)
  /\ c.kind = "serial" =>
       G(c.dev[1] \in DOMAIN o.ser /\ LET s == o.ser[c.dev[1]] IN [ bps |-> s.bps, db |-> s.db, par |-> s.par, sb |-> s.sb ] = c.ser
                                                                  /\ s.ibps = s.bps, <<"line of", c, o.ser>>)
  /\ c.kind = "ipmi" =>
       G(c.dev[1] \in DOMAIN o.ipmi
         /\ LET i == o.ipmi[c.dev[1]]
            IN i.u = c.ipmi.u /\ i.p = c.ipmi.p /\ i.k = c.ipmi.k /\ i.l = c.ipmi.l /\ i.c = c.ipmi.c
               /\ i.w = (IF c.ipmi.w = WDefault THEN -1 ELSE WNum(c.ipmi.w, 29)), <<"session of", c, o.ipmi>>)
  /\ c.log # "" =>
       G(c.log \in DOMAIN o.logs, <<"no log of", c, DOMAIN o.logs>>)
       /\ LET g == o.logs[c.log] IN
          G(/\ g.name = c.name
            /\ g.lock = c.lo.lock
            /\ c.kind # "test" => g.devs = <<Tag(c)>> /\ g.san = c.lo.san /\ g.ts = c.lo.ts, <<"log of", c, g>>)

(* Milliseconds until the next mark in the logs, some time after the start. *)
Due(stamp, env, passed) ==
  LET m == (((env.sec \div 60) \div stamp + 1) * stamp * 60 - env.sec)
  IN IF stamp = 0 THEN -1
     ELSE 1000 * (IF m > passed THEN m - passed ELSE stamp * 60 - ((passed - m) % (stamp * 60)))
Soft(n, env) == IF n = 0 THEN env.soft ELSE IF n < 0 THEN env.hard ELSE n

Step(e) ==
  LET P == Parse(e.text, e.env, e.fixed)
      o == e.obs
      cons == { P.cons[k] : k \in 1 .. Len(P.cons) }
      logs == { c.log : c \in { d \in cons : d.log # "" } }
  IN /\ G(o.errs = P.errs, <<"errors at", o.errs, "not", P.errs>>)
     /\ G(o.alive = (cons # {}), <<"consoles", cons, "yet", o.alive>>)
     /\ ~o.alive => G(o.rc = 1, <<"exit", o.rc>>)
     /\ o.alive =>
        /\ G(IsSet(o.names, { c.name : c \in cons }), <<"names", o.names, "not", { c.name : c \in cons }>>)
        /\ \A c \in cons : ConOk(c, o)
        /\ G(DOMAIN o.logs = logs, <<"logs", DOMAIN o.logs, logs>>)
        /\ G(o.port = PortOf(P.sv) /\ (o.ip = "127.0.0.1") = P.sv.loop, <<"listens on", o.ip, o.port>>)
        /\ G({ o.keep[k] : k \in 1 .. Len(o.keep) } = { IF P.sv.keep THEN 1 ELSE 0 }, <<"keepalive", o.keep, P.sv.keep>>)
        /\ G(o.wrap = P.sv.wrap, <<"wrappers", o.wrap>>)
        /\ G(o.nofile[1] = ToString(Soft(P.sv.nofile, e.env)), <<"files", o.nofile, P.sv.nofile>>)
        /\ G(o.core = P.sv.core, <<"core", o.core>>)
        /\ G(o.quit # "" => o.quit = IF ~P.sv.core THEN "-" ELSE IF P.sv.coredir = "" THEN e.env.cwd ELSE P.sv.coredir, <<"quit", o.quit, P.sv>>)
        /\ G(o.files = IF P.sv.pidfile = "" THEN <<>> ELSE P.sv.pidfile :> (o.pid \o "\n"), <<"files", o.files, P.sv.pidfile>>)
        /\ G((\E c \in cons : c.kind = "test") \/ P.sv.stamp > 30000 \/ logs = {} \/ o.rem = Due(P.sv.stamp, e.env, o.passed), <<"mark", o.rem, P.sv.stamp>>)
        /\ LET w == Split(P.sv.reset, {" "}, 1, "")
           IN G(o.reset = IF w # <<>> /\ Is(e.env, w[1], "exe") THEN w ELSE <<>>, <<"reset", o.reset, P.sv.reset>>)

Init == l = 1
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
