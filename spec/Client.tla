------------------------------- MODULE Client -------------------------------
(* The client program as a state machine: command line and environment, the  *)
(* handshake, replies, and the interactive session.  C is the state:         *)
(*   cf    what the command line and environment ask for                     *)
(*   ph    start, greet, req (awaiting those replies), data (the rest of an  *)
(*         error), sess, end                                                 *)
(*   tx out lg   bytes that must still go to the daemon, screen, log file    *)
(*   fin lgfin   what then still is to be shown and logged at the end        *)
(*   late  what the daemon sent may still be shown before that               *)
(*   err   text due on the error output (errany: any error text)             *)
(*   rc    exit status due, -1 while running                                 *)
EXTENDS ConMan

HasC(s, c) == Find(s, c) > 0

(* ------------------------------------------------------- command line *)
RECURSIVE AtoiFrom(_, _, _)
AtoiFrom(s, i, n) == IF i <= Len(s) /\ Chr(s, i) \in Digits THEN AtoiFrom(s, i + 1, 10 * n + DigitVal(Chr(s, i))) ELSE n
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ Chr(s, i) \in {" ", "\t", "\n", "\r", "\f", Byte(11)} THEN SkipWs(s, i + 1) ELSE i
Atoi(s) == LET i == SkipWs(s, 1)
           IN IF i > Len(s) THEN 0
              ELSE IF Chr(s, i) = "-" THEN 0 - AtoiFrom(s, i + 1, 0)
              ELSE AtoiFrom(s, IF Chr(s, i) = "+" THEN i + 1 ELSE i, 0)

Dest(a, s) ==                        \* HOST[:PORT]
  LET k == Find(s, ":")
      h == IF k = 0 THEN s ELSE Take(s, k - 1)
      p == IF k = 0 THEN 0 ELSE Atoi(Drop(s, k))
  IN [ a EXCEPT !.host = IF h = "" THEN @ ELSE h, !.port = IF p > 0 THEN p ELSE @ ]

RECURSIVE SplitOn(_, _)
SplitOn(s, c) == LET k == Find(s, c)
                 IN IF k = 0 THEN <<s>> ELSE <<Take(s, k - 1)>> \o SplitOn(Drop(s, k), c)
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # "")
Blank == {" ", "\t", "\n", "\r", "\f", Byte(11)}
RECURSIVE TrimR(_)
TrimR(s) == IF s # "" /\ Chr(s, Len(s)) \in Blank THEN TrimR(Take(s, Len(s) - 1)) ELSE s
Trim(s) == TrimR(Drop(s, SkipWs(s, 1) - 1))
FileNames(text) == SelectSeq([ i \in 1 .. Len(SplitOn(text, "\n")) |-> Trim(SplitOn(text, "\n")[i]) ],
                             LAMBDA x : x # "" /\ Chr(x, 1) # "#")

NoConf == [ host |-> "127.0.0.1", port |-> 7890, esc |-> "&", cmd |-> "CONNECT", b |-> FALSE, f |-> FALSE, j |-> FALSE,
            q |-> FALSE, r |-> FALSE, log |-> "", names |-> <<>>, help |-> FALSE, stop |-> "", rest |-> <<>> ]
EnvConf(env) ==
  LET a == IF "host" \in DOMAIN env THEN Dest(NoConf, env.host) ELSE NoConf
      b == IF "port" \in DOMAIN env /\ Atoi(env.port) > 0 THEN [ a EXCEPT !.port = Atoi(env.port) ] ELSE a
  IN IF "esc" \in DOMAIN env /\ env.esc # "" THEN [ b EXCEPT !.esc = Chr(env.esc, 1) ] ELSE b

Flag(a, c) ==
  CASE c = "b" -> [ a EXCEPT !.b = TRUE ]
    [] c = "f" -> [ a EXCEPT !.f = TRUE, !.j = FALSE ]
    [] c = "j" -> [ a EXCEPT !.f = FALSE, !.j = TRUE ]
    [] c = "h" -> [ a EXCEPT !.help = TRUE ]
    [] c = "m" -> [ a EXCEPT !.cmd = "MONITOR" ]
    [] c = "q" -> [ a EXCEPT !.cmd = "QUERY" ]
    [] c = "Q" -> [ a EXCEPT !.q = TRUE ]
    [] c = "r" -> [ a EXCEPT !.r = TRUE ]
    [] c = "v" -> a
    [] c = "L" -> [ a EXCEPT !.stop = "license" ]
    [] c = "V" -> [ a EXCEPT !.stop = "version" ]
    [] OTHER -> [ a EXCEPT !.stop = "bad" ]
WithArg(a, c, x, files) ==
  CASE c = "d" -> Dest(a, x)
    [] c = "e" -> [ a EXCEPT !.esc = IF x = "" THEN NUL ELSE Chr(x, 1) ]
    [] c = "l" -> [ a EXCEPT !.log = x ]
    [] OTHER -> IF x \in DOMAIN files THEN [ a EXCEPT !.names = @ \o FileNames(files[x]) ] ELSE [ a EXCEPT !.stop = "bad" ]
(* Options may come before, between and after the console names.            *)
RECURSIVE Opts(_, _, _, _, _)
Opts(args, i, j, a, files) ==        \* position j in argument i
  IF i > Len(args) \/ a.stop # "" THEN a
  ELSE LET s == args[i] IN
    IF j = 1 /\ s = "--" THEN [ a EXCEPT !.rest = @ \o SubSeq(args, i + 1, Len(args)) ]
    ELSE IF j = 1 /\ (Len(s) < 2 \/ Chr(s, 1) # "-") THEN Opts(args, i + 1, 1, [ a EXCEPT !.rest = Append(@, s) ], files)
    ELSE IF j = 1 THEN Opts(args, i, 2, a, files)
    ELSE IF j > Len(s) THEN Opts(args, i + 1, 1, a, files)
    ELSE LET c == Chr(s, j) IN
      IF c \in {"d", "e", "F", "l"}
      THEN IF j < Len(s) THEN Opts(args, i + 1, 1, WithArg(a, c, Drop(s, j), files), files)
           ELSE IF i < Len(args) THEN Opts(args, i + 2, 1, WithArg(a, c, args[i + 1], files), files)
           ELSE [ a EXCEPT !.stop = "bad" ]
      ELSE Opts(args, i, j + 1, Flag(a, c), files)
Conf(args, env, files) ==
  LET a == Opts(args, 1, 1, EnvConf(env), files)
      b == IF a.cmd = "MONITOR" THEN [ a EXCEPT !.b = FALSE, !.f = FALSE, !.j = FALSE ] ELSE a
      \* console names may be given as comma separated lists
      n == FoldLeft(LAMBDA x, s : x \o NonEmpty(SplitOn(s, ",")), <<>>, b.rest)
      d == [ b EXCEPT !.names = @ \o n ]
  IN IF d.stop = "" /\ (d.help \/ (d.cmd # "QUERY" /\ d.names = <<>>)) THEN [ d EXCEPT !.stop = "help" ] ELSE d
ReqOpts(cf) == (IF cf.q THEN {"QUIET"} ELSE {}) \cup (IF cf.r THEN {"REGEX"} ELSE {})
               \cup (IF cf.cmd # "CONNECT" THEN {}
                     ELSE (IF cf.f THEN {"FORCE"} ELSE {}) \cup (IF cf.j THEN {"JOIN"} ELSE {})
                          \cup (IF cf.b THEN {"BROADCAST"} ELSE {}))

(* ------------------------------------------------------------- state *)
End(C, rc) == [ C EXCEPT !.ph = "end", !.rc = rc ]
LocalErr(C) == [ End(C, 2) EXCEPT !.errany = TRUE, !.lgany = TRUE ]
Fatal(C) == [ End(C, 1) EXCEPT !.errany = TRUE, !.lgany = TRUE, !.out = "", !.tx = "", !.shut = FALSE, !.raw = FALSE,
                               !.susp = FALSE, !.fin = "", !.lgfin = "", !.late = FALSE ]
(* the time of the run never changes: now is its text                        *)
Start(args, env, files, user, tty, istty, now) ==
  LET cf == Conf(args, env, files)
      C == [ cf |-> cf, ph |-> "start", user |-> user, tty |-> tty, istty |-> istty, now |-> now,
             due |-> "", txl |-> "", line |-> "", tx |-> "", shut |-> FALSE, out |-> "", lg |-> "",
             lgst |-> IF cf.log = "" THEN "none" ELSE "due", lgany |-> FALSE,
             err |-> "", errany |-> FALSE, rc |-> 0 - 1, cons |-> <<>>, reset |-> FALSE, esc |-> FALSE,
             cmd |-> cf.cmd, q |-> cf.q, bc |-> FALSE, echo |-> FALSE, closed |-> FALSE, susp |-> FALSE, code |-> 0,
             raw |-> FALSE, pipe |-> FALSE,
             fin |-> "", lgfin |-> "", late |-> FALSE, term |-> FALSE ]
  IN CASE cf.stop = "" -> C
       [] cf.stop = "bad" -> Fatal(C)
       [] OTHER -> End(C, 0)

LogOpenedOk(C, path, app, trunc) == C.ph = "start" /\ C.lgst = "due" /\ path = C.cf.log /\ app /\ ~trunc
LogOpened(C, err) == IF err # 0 THEN Fatal(C)
                     ELSE [ C EXCEPT !.lgst = "open", !.lg = Msg("Log started at " \o C.now) ]
ToLog(C, x) == IF C.lgst = "open" THEN [ C EXCEPT !.lg = @ \o x ] ELSE C
Finish(C, rc) == End(ToLog(C, Msg("Log finished at " \o C.now)), rc)

ConnOk(C, ip, port, want) == C.ph = "start" /\ C.lgst # "due" /\ ip = want /\ port = C.cf.port % 65536
Conn(C, err) == IF err # 0 THEN LocalErr(C) ELSE [ C EXCEPT !.ph = "greet", !.due = "hello" ]
NoHost(C) == LocalErr(C)

Show(C, x) == [ C EXCEPT !.out = @ \o x ]
Status(C, what) ==
  Msg((IF Len(C.cons) = 1 THEN "Connection to console [" \o C.cons[1] \o "] "
       ELSE "Broadcast to " \o ToString(Len(C.cons)) \o " consoles ") \o what)
EndSession(C) ==
  End([ C EXCEPT !.raw = FALSE, !.shut = FALSE, !.late = TRUE, !.term = FALSE,
                 !.fin = IF C.closed THEN "" ELSE Status(C, "terminated by server"),
                 !.lgfin = IF C.lgst = "open" THEN Msg("Log finished at " \o C.now) ELSE "" ], 0)
(* Asked to terminate, the client first completes what it is about. *)
Norm(C) == IF C.term /\ C.ph = "sess" /\ C.tx = "" /\ C.out = "" /\ C.lg = "" /\ ~C.susp /\ ~C.shut
           THEN EndSession(C) ELSE C


(* ------------------------------------------------------- the handshake *)
LineOk(C, line) ==
  IF C.due = "hello" THEN Greeting(line) = <<C.user, C.tty>>
  ELSE Request(line) = [ cmd |-> C.cf.cmd, pats |-> C.cf.names, opt |-> ReqOpts(C.cf) ]
SentOk(C, d) ==
  IF C.due # "" THEN LET x == C.txl \o d
                     IN IF HasC(x, "\n") THEN Find(x, "\n") = Len(x) /\ LineOk(C, x) ELSE TRUE
  ELSE StartsWith(C.tx, d)
Sent(C, d) ==
  IF C.due = "" THEN Norm([ C EXCEPT !.tx = Drop(@, Len(d)) ])
  ELSE IF ~HasC(C.txl \o d, "\n") THEN [ C EXCEPT !.txl = @ \o d ]
  ELSE [ C EXCEPT !.txl = "", !.due = "", !.shut = (C.due = "request" /\ C.cf.cmd = "QUERY") ]
ShutOk(C) == C.shut /\ C.tx = "" /\ C.due = ""
Shut(C) == Norm([ C EXCEPT !.shut = FALSE ])

RECURSIVE OkLine2(_, _, _)
OkLine2(ts, i, a) ==
  CASE Tok(ts, i) \in {"EOL", "EOF"} -> a
    [] Tok(ts, i) = "CONSOLE" -> LET v == StrVal(ts, i + 1)
                                 IN OkLine2(ts, v[1], IF v[2] = "" THEN a ELSE [ a EXCEPT !.cons = Append(@, Decode(v[2])) ])
    [] Tok(ts, i) = "OPTION" -> IF Tok(ts, i + 1) # "=" THEN OkLine2(ts, Adv(ts, i + 1), a)
                                ELSE OkLine2(ts, Adv(ts, i + 2), IF Tok(ts, i + 2) = "RESET" THEN [ a EXCEPT !.reset = TRUE ] ELSE a)
    [] OTHER -> OkLine2(ts, i + 1, a)
RECURSIVE ErrLine2(_, _, _)
ErrLine2(ts, i, a) ==
  CASE Tok(ts, i) \in {"EOL", "EOF"} -> a
    [] Tok(ts, i) = "CODE" -> IF Tok(ts, i + 1) # "=" THEN ErrLine2(ts, Adv(ts, i + 1), a)
                              ELSE ErrLine2(ts, Adv(ts, i + 2), IF Tok(ts, i + 2) = "INT" THEN [ a EXCEPT !.code = Atoi(Txt(ts, i + 2)) ] ELSE a)
    [] Tok(ts, i) = "MESSAGE" -> LET v == StrVal(ts, i + 1)
                                 IN ErrLine2(ts, v[1], IF v[2] = "" THEN a ELSE [ a EXCEPT !.text = Decode(v[2]) ])
    [] OTHER -> ErrLine2(ts, i + 1, a)
RECURSIVE Reply(_, _)
Reply(ts, i) ==
  CASE Tok(ts, i) = "OK" -> [ OkLine2(ts, i + 1, [ cons |-> <<>>, reset |-> FALSE ]) EXCEPT !.cons = @ ] @@ [ ok |-> TRUE ]
    [] Tok(ts, i) = "ERROR" -> ErrLine2(ts, i + 1, [ code |-> 0, text |-> "" ]) @@ [ ok |-> FALSE ]
    [] Tok(ts, i) \in {"EOL", "EOF"} -> [ ok |-> FALSE, code |-> 0, text |-> "" ]
    [] OTHER -> Reply(ts, i + 1)

Hint(C) ==
  IF C.code = 6 /\ ~C.cf.b THEN "\nDo you want to broadcast (-b) to multiple consoles?\n\n"
  ELSE IF C.code = 7 /\ ~C.cf.f /\ ~C.cf.j THEN "\nDo you want to force (-f) or join (-j) the connection?\n\n"
  ELSE ""
ToErr(C, x) == ToLog([ C EXCEPT !.err = @ \o x ], x)
ErrEnd(C) == End(ToErr(C, Hint(C)), 2)
Replied(C, r) ==
  IF ~r.ok THEN
    IF r.code <= 1 THEN LocalErr(C)
    ELSE LET D == ToErr([ C EXCEPT !.code = r.code, !.ph = "data" ],
                        "ERROR: " \o (IF r.text = "" THEN "Unspecified" ELSE r.text) \o ".\n\n")
         IN IF C.ph = "greet" /\ r.code = 4 THEN ErrEnd(D) ELSE D
  ELSE IF C.ph = "greet" THEN [ C EXCEPT !.ph = "req", !.due = "request" ]
  ELSE IF C.cf.cmd = "QUERY"
       THEN LET x == Join([ i \in 1 .. Len(r.cons) |-> r.cons[i] \o "\n" ]) IN Finish(ToLog(Show(C, x), x), 0)
  ELSE IF ~C.istty THEN Fatal(C)
  ELSE LET D == [ C EXCEPT !.ph = "sess", !.cons = r.cons, !.reset = r.reset, !.bc = (C.cf.b /\ Len(r.cons) # 1), !.raw = TRUE ]
       IN Show(D, Status(D, "opened"))
RecvOk(C) == (C.ph \in {"greet", "req", "data", "sess"} \/ C.late) /\ C.due = ""
(* Requests are answered by one line; what follows is data. *)
RECURSIVE Recv(_, _)
Recv(C, d) ==
  IF d = "" THEN C
  ELSE CASE C.ph \in {"greet", "req"} ->
              LET k == Find(d, "\n")
              IN IF k = 0 THEN [ C EXCEPT !.line = @ \o d ]
                 ELSE Recv(Replied([ C EXCEPT !.line = "" ], Reply(Lex(C.line \o Take(d, k)), 1)), Drop(d, k))
         [] C.ph = "data" -> ToErr(C, d)
         [] C.ph = "sess" \/ C.late -> ToLog(Show(C, d), d)
         [] OTHER -> C
RecvEof(C) ==
  CASE C.ph \in {"greet", "req"} -> IF C.line = "" THEN LocalErr(C)
                                    ELSE Replied([ C EXCEPT !.line = "" ], Reply(Lex(C.line), 1))
    [] C.ph = "data" -> ErrEnd(C)
    [] C.ph = "sess" -> EndSession(C)
    [] OTHER -> C
EINTR == 4  EPIPE == 32  ECONNRESET == 104
RecvErr(C, e) ==
  IF e = EINTR THEN C
  ELSE CASE C.ph \in {"greet", "req"} -> LocalErr(C)
         [] C.ph = "sess" /\ e \in {EPIPE, ECONNRESET} -> EndSession(C)
         [] C.late /\ e \in {EPIPE, ECONNRESET} -> C
         [] OTHER -> Fatal(C)
SendErr(C, e) ==
  IF e = EINTR THEN C
  ELSE IF C.ph \in {"greet", "req"} THEN [ LocalErr(C) EXCEPT !.pipe = (e = EPIPE) ]
  ELSE IF e \in {EPIPE, ECONNRESET} THEN [ EndSession(IF C.susp THEN [ C EXCEPT !.susp = FALSE, !.out = "" ] ELSE C) EXCEPT !.tx = "" ]
  ELSE Fatal(C)
OutErr(C, e) == IF e = EINTR THEN C ELSE Fatal(C)

(* -------------------------------------------------------- the session *)
Caret(c) == LET n == Ord[c] % 128
            IN IF n < 32 THEN "^" \o Byte(n + 64) ELSE IF n = 127 THEN "^?" ELSE Byte(n)
Stuff(s) == Join([ i \in 1 .. Len(s) |-> IF Chr(s, i) = ESC THEN ESC \o ESC ELSE Chr(s, i) ])
ToNet(C, x) == [ C EXCEPT !.tx = @ \o x ]
Esc(C, c) == ToNet(C, ESC \o c)

PadL(s, n) == IF Len(s) < n THEN SubSeq("      ", 1, n - Len(s)) \o s ELSE s
PadR(s, n) == IF Len(s) < n THEN s \o SubSeq("      ", 1, n - Len(s)) ELSE s
Help(C) ==
  LET e == Caret(C.cf.esc)
      L(on, c, text) == IF on THEN "  " \o PadL(e, 2) \o PadR(c, 2) \o " -  " \o text \o ".\r\n" ELSE ""
      rw == C.cmd = "CONNECT"
  IN "\r\nSupported ConMan Escape Sequences:\r\n"
     \o L(TRUE, "?", "Display this help message") \o L(TRUE, ".", "Terminate the connection")
     \o L(TRUE, e, "Send the escape character") \o L(rw, "B", "Transmit a serial-break")
     \o L(rw, "D", "Transmit a DEL character")
     \o L(rw, "E", (IF C.echo THEN "Disable" ELSE "Enable") \o " echoing of client input")
     \o L(~rw, "F", "Force write-privileges (console-stealing)")
     \o L(TRUE, "I", "Display connection information")
     \o L(~rw, "J", "Join write-privileges (console-sharing)")
     \o L(~C.bc, "L", "Replay up to the last 4096 bytes of the log")
     \o L(rw /\ ~C.bc, "M", "Monitor without write-privileges (read-only)")
     \o L(TRUE, "Q", IF C.q THEN "Disable quiet-mode (display info msgs)" ELSE "Enable quiet-mode (suppress info msgs)")
     \o L(rw /\ C.reset, "R", "Reset node" \o (IF Len(C.cons) = 1 THEN "" ELSE "s") \o " associated with this console")
     \o L(TRUE, "Z", "Suspend the client")
Info(C, host) ==
  LET at == " on <" \o host \o ":" \o ToString(C.cf.port) \o ">"
  IN Msg(IF Len(C.cons) = 1 THEN "Connected " \o (IF C.cmd = "MONITOR" THEN "R/O" ELSE "R/W") \o " to console [" \o C.cons[1] \o "]" \o at
         ELSE "Broadcasting to " \o ToString(Len(C.cons)) \o " consoles" \o at)

Commands == CharSet(".BDEF?IJLMQRZ")
Command(C, c, host) ==
  LET rw == C.cmd = "CONNECT" IN
  CASE c \in {"B", "D"} -> IF rw THEN Esc(C, c) ELSE C
    [] c = "." -> LET D == [ Show(C, Caret(C.cf.esc) \o ".") EXCEPT !.shut = TRUE, !.closed = TRUE ] IN Show(D, Status(D, "closed"))
    [] c = "E" -> IF rw THEN [ C EXCEPT !.echo = ~@ ] ELSE C
    [] c \in {"F", "J"} -> IF rw THEN C ELSE [ Esc(C, c) EXCEPT !.cmd = "CONNECT" ]
    [] c = "M" -> IF rw /\ ~C.bc THEN [ Esc(C, c) EXCEPT !.cmd = "MONITOR" ] ELSE C
    [] c = "L" -> IF C.bc THEN C ELSE Esc(C, c)
    [] c = "Q" -> [ Esc(C, c) EXCEPT !.q = ~@ ]
    [] c = "R" -> IF rw /\ C.reset THEN Esc(C, c) ELSE C
    [] c = "?" -> Show(C, Help(C))
    [] c = "I" -> Show(C, Info(C, host))
    [] OTHER -> LET D == Esc(Show(C, Caret(C.cf.esc) \o "Z"), "Z") IN [ Show(D, Status(D, "suspended")) EXCEPT !.susp = TRUE ]
Key1(C, c, host) ==
  LET e == C.cf.esc
      Data(D, s) == IF D.cmd = "CONNECT" THEN ToNet(D, Stuff(s)) ELSE D
  IN IF ~C.esc THEN IF c = e THEN [ C EXCEPT !.esc = TRUE ] ELSE Data(C, c)
     ELSE LET D == [ C EXCEPT !.esc = FALSE ]
          IN IF c \in Commands THEN Command(D, c, host)
             ELSE IF c = e THEN Data(D, c) ELSE Data(D, e \o c)
KeyOk(C) == C.ph = "sess" /\ ~C.susp
Key(C, d, host) == FoldLeft(LAMBDA D, c : Key1(D, c, host), C, Chars(d))
KeyEof(C) == EndSession(C)

DropOver(s, n) == IF n <= 0 THEN s ELSE Drop(s, n)
ShownOk(C, d) == StartsWith(C.out \o C.fin, d)
Shown(C, d) == Norm([ C EXCEPT !.out = Drop(@, Len(d)), !.fin = DropOver(@, Len(d) - Len(C.out)),
                               !.late = @ /\ Len(d) <= Len(C.out) ])
LoggedOk(C, d) == C.lgst = "open" /\ (C.lgany \/ StartsWith(C.lg \o C.lgfin, d))
LogSent(C, d) == IF StartsWith(C.lg \o C.lgfin, d)
                 THEN Norm([ C EXCEPT !.lg = Drop(@, Len(d)), !.lgfin = DropOver(@, Len(d) - Len(C.lg)),
                                      !.late = @ /\ Len(d) <= Len(C.lg) ])
                 ELSE [ C EXCEPT !.lg = "" ]
(* While stopped the terminal is as it was found and the daemon knows.       *)
StopOk(C, cooked) == C.susp /\ C.tx = "" /\ C.out = "" /\ cooked
Stop(C) == LET D == [ C EXCEPT !.susp = FALSE ] IN Esc(Show(D, Status(D, "resumed")), "Z")
Term(C) == CASE C.ph = "sess" -> Norm([ C EXCEPT !.term = TRUE ])
             [] C.ph = "end" -> C
             [] OTHER -> End(C, 128 + 15)

(* Waiting for input: everything due has been done.  Otherwise the client    *)
(* only waits for what cannot be written, and is still to be written.        *)
WaitOk(C, raw, echo, blkn, blko, blkl) ==
  \/ /\ C.rc = 0 - 1 /\ C.ph \in {"greet", "req", "data", "sess"}
     /\ ~C.susp /\ ~C.term
     /\ C.due = "" /\ C.tx = "" /\ ~C.shut /\ C.out = "" /\ (C.lg = "" \/ C.lgany)
     /\ C.ph = "sess" => raw /\ echo = C.echo
  \/ blkn /\ (C.tx # "" \/ C.due # "")
  \/ blko /\ (C.out # "" \/ C.fin # "")
  \/ blkl /\ (C.lg # "" \/ C.lgfin # "" \/ C.lgany)
ExitOk(C, rc, cooked, err) ==
  /\ C.rc = rc \/ (C.pipe /\ rc = 128 + 13)      \* no session yet: SIGPIPE may end it
  /\ C.out = "" /\ C.fin = "" /\ cooked
  /\ C.lgst # "due" \/ C.cf.stop # "" \/ rc = 1
  /\ C.errany \/ (C.lg = "" /\ C.lgfin = "")
  /\ C.tx = "" /\ ~C.shut
  /\ IF C.errany THEN StartsWith(err, "ERROR:") \/ (C.pipe /\ err = "") ELSE err = C.err
=============================================================================
