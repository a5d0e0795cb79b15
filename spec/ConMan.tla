------------------------------ MODULE ConMan ------------------------------
(* The ConMan daemon as a state machine over its externally visible actions. *)
(*                                                                           *)
(* The state S is a record                                                   *)
(*   cfg  configuration: cons (id -> name, kind, dev, logged, san, ts),      *)
(*        reset (a reset command exists), host (name of the clients' host),  *)
(*        rx (regular expression -> syntax tree)                             *)
(*   now  milliseconds since the start; ts the same instant as text          *)
(*   cli  sessions and handshakes;  con  consoles;  log  console logs        *)
(* Each action of the daemon (reading, writing, connecting, ...) has an      *)
(* enabling condition  XOk(S, ...)  - may the daemon do this now? - and an   *)
(* effect  X(S, ...).  Idle(S, ...) says what the daemon must have done when *)
(* it goes back to waiting.  Both the model checker (MCConMan) and the trace *)
(* checker (TraceConMan) use these operators.                                *)
EXTENDS Strs, Json

NUL == Byte(0)   ESC == Byte(255)   IAC == Byte(255)   DEL == Byte(127)

CONSTANTS BufMax,         \* pending bytes an object can hold
          ReplayMax       \* bytes shown by a log replay

Msg(x) == "\r\n<ConMan> " \o x \o ".\r\n"
Lesser(a, b) == IF a < b THEN a ELSE b
SeqRemove(s, x) == SelectSeq(s, LAMBDA y : y # x)
InSeq(x, s) == \E i \in 1 .. Len(s) : s[i] = x

(* ------------------------------------------------------------ initial *)
NewCon == [ st |-> "down", out |-> "", rd |-> {}, wr |-> <<>>, eof |-> FALSE, err |-> FALSE,
            stale |-> FALSE, tm |-> -1, rtm |-> -1, delay |-> 0, kick |-> TRUE, nfy |-> 0, nfo |-> 0,
            iac |-> "data", line |-> "own", lost |-> FALSE, pid |-> 0, tstart |-> 0, mustkill |-> 0, brk |-> 0,
            rpid |-> 0, rdue |-> 0, rdead |-> FALSE, rkill |-> FALSE, rq |-> <<>>, by |-> "" ]
StartDelay(kind) == CASE kind = "unix" -> 1
                      [] kind = "process" -> 60
                      [] kind = "ipmi" -> 60
                      [] OTHER -> 15
NewLog == [ open |-> FALSE, out |-> "", may |-> "", ls |-> "INIT", tail |-> "", want |-> TRUE, again |-> 0, first |-> TRUE, err |-> FALSE,
            full |-> FALSE ]
InitState(cfg, ts) ==
  [ cfg |-> cfg, now |-> 0, ts |-> ts, cli |-> <<>>, term |-> FALSE,
    con |-> [ c \in DOMAIN cfg.cons |-> [ NewCon EXCEPT !.delay = StartDelay(cfg.cons[c].kind) ] ],
    log |-> [ c \in { d \in DOMAIN cfg.cons : cfg.cons[d].logged } |-> NewLog ] ]

Name(S, c) == S.cfg.cons[c].name
Kind(S, c) == S.cfg.cons[c].kind
Dev(S, c) == S.cfg.cons[c].dev
Logged(S, c) == S.cfg.cons[c].logged

NewCli == [ st |-> "greet", buf |-> "", rsp |-> "", next |-> "none", user |-> "", tty |-> "",
            cmd |-> "NONE", sel |-> <<>>, bc |-> FALSE, force |-> FALSE, join |-> FALSE,
            q |-> FALSE, susp |-> FALSE, held |-> FALSE, esc |-> FALSE, out |-> "", eof |-> FALSE,
            dead |-> FALSE, wrs |-> <<>>, todo |-> <<>>, tread |-> 0, busy |-> <<>>, late |-> FALSE ]
Running(cl) == cl.st = "run"
Who(S, k) == LET cl == S.cli[k] IN
             "<" \o cl.user \o "@" \o S.cfg.host \o ">" \o (IF cl.tty = "" THEN "" ELSE " on " \o cl.tty)

(* ------------------------------------------------ queueing output *)
(* Each object keeps the most recent BufMax unsent bytes.                   *)
PutCli(S, k, x, info) ==
  LET cl == S.cli[k] IN
  IF cl.eof \/ (info /\ cl.q) THEN S
  ELSE [ S EXCEPT !.cli[k].out = LastN(cl.out \o x, BufMax) ]
PutCon(S, c, x) ==
  IF S.con[c].eof THEN S
  ELSE [ S EXCEPT !.con[c].out = LastN(@ \o x, BufMax), !.con[c].stale = (S.con[c].st # "up") ]
PutLogRaw(S, c, x, info) ==
  IF ~Logged(S, c) THEN S
  ELSE [ S EXCEPT !.log[c].out = LastN(@ \o x, BufMax), !.log[c].tail = LastN(@ \o x, ReplayMax),
                  !.log[c].ls = IF info THEN "INIT" ELSE @ ]

(* ---- processed logs: line ends, timestamps, printable forms ---- *)
Printable1(c) == Ord[c] >= 32 /\ Ord[c] <= 126
Sanitized(c) ==
  LET o == Ord[c] % 128   hi == Ord[c] >= 128
  IN IF o < 32 THEN (IF hi THEN "~" ELSE "^") \o Byte(o + 64)
     ELSE IF o = 127 THEN (IF hi THEN "~?" ELSE "^?")
     ELSE (IF hi THEN "`" ELSE "") \o Byte(o)
(* One piece: a single byte or a run of printable characters. *)
LogPiece(a, x, san, stamp) ==        \* a = <<line state, text>>
  LET ls == a[1]   t == a[2]   c == Chr(x, 1) IN
  CASE c = "\r" -> IF ls = "DATA" THEN <<"CR", t>>
                   ELSE IF ls = "INIT" THEN <<"CR", t \o stamp>>
                   ELSE a
    [] c = "\n" -> <<"LF", t \o (IF ls \in {"INIT", "LF"} THEN stamp ELSE "") \o "\r\n">>
    [] c = NUL /\ ls \in {"CR", "LF"} -> a
    [] OTHER -> <<"DATA", t \o (IF ls = "CR" THEN "\r\n" ELSE "")
                            \o (IF ls # "DATA" THEN stamp ELSE "")
                            \o (IF san /\ Len(x) = 1 THEN Sanitized(c) ELSE x)>>
(* Data from the console; pieces are single bytes or printable runs.        *)
PutLogData(S, c, pieces) ==
  IF ~Logged(S, c) THEN S
  ELSE LET f == S.cfg.cons[c] IN
    IF ~(f.san \/ f.ts) THEN PutLogRaw(S, c, Join(pieces), FALSE)
    ELSE LET r == FoldLeft(LAMBDA a, x : LogPiece(a, x, f.san, IF f.ts THEN S.ts.long \o " " ELSE ""),
                           <<S.log[c].ls, "">>, pieces)
             t == r[2]
         IN [ S EXCEPT !.log[c].ls = r[1],
                       \* no data is lost unless the file takes none
                       !.log[c].out = IF S.log[c].open /\ ~S.log[c].full THEN @ \o t ELSE LastN(@ \o t, BufMax),
                       !.log[c].tail = LastN(@ \o t, ReplayMax) ]

(* ---- notices: one to each attached session, and to the log ---- *)
Attached(S, c) == S.con[c].rd \cup { S.con[c].wr[i] : i \in 1 .. Len(S.con[c].wr) }
Notify(S, c, text) ==
  LET m == Msg(text)
      T == PutLogRaw(S, c, m, TRUE)
  IN FoldLeft(LAMBDA A, k : PutCli(A, k, m, TRUE), T, SetToSeq(Attached(S, c)))

(* ------------------------------------------------ sessions and consoles *)
Unlink(S, k, c) ==                   \* k gives up write access to c
  LET T == [ S EXCEPT !.con[c].wr = SeqRemove(@, k), !.cli[k].wrs = SeqRemove(@, c) ]
      U == Notify(T, c, "Console [" \o Name(S, c) \o "] departed by " \o Who(S, k) \o " at " \o S.ts.short)
  IN IF U.cli[k].wrs = <<>> /\ \A d \in DOMAIN U.con : k \notin U.con[d].rd
     THEN [ U EXCEPT !.cli[k].eof = TRUE ] ELSE U
UnlinkAll(S, k) ==                   \* the session of k ends
  LET T == [ S EXCEPT !.con = [ d \in DOMAIN S.con |-> [ S.con[d] EXCEPT !.rd = @ \ {k} ] ] ]
      U == FoldLeft(LAMBDA A, c : Unlink(A, k, c), T, T.cli[k].wrs)
  IN [ U EXCEPT !.cli[k].eof = TRUE ]
Link(S, k, c) ==                     \* k gains write access to c
  LET cl == S.cli[k]
      old == S.con[c].wr
      stolen == cl.force /\ old # <<>>
      nm == "Console [" \o Name(S, c) \o "] "
      at == " at " \o S.ts.short
      S1 == Notify(S, c, nm \o (IF stolen THEN "stolen" ELSE "joined")
                            \o (IF cl.bc THEN " for B/C" ELSE "") \o " by " \o Who(S, k) \o at)
      S2 == FoldLeft(LAMBDA A, w : PutCli(A, k, Msg(nm \o (IF stolen THEN "stolen from " ELSE "joined with ")
                                                       \o Who(S, w) \o at), TRUE), S1, old)
      S3 == IF stolen THEN FoldLeft(LAMBDA A, w : UnlinkAll(A, w), S2, old) ELSE S2
  IN [ S3 EXCEPT !.con[c].wr = Append(@, k), !.cli[k].wrs = Append(@, c) ]

(* A new session is told when its console is down, and an attempt is made.  *)
CheckState(S, c, k) ==
  LET st == S.con[c].st
      kd == Kind(S, c)
      d == IF kd \in {"telnet", "ipmi"} THEN "<" \o Dev(S, c) \o ">" ELSE "\"" \o Dev(S, c) \o "\""
      T == PutCli(S, k, Msg("Console [" \o Name(S, c) \o "] is currently disconnected from " \o d), TRUE)
  IN IF st = "up" THEN S
     ELSE LET U == IF kd = "telnet" THEN [ T EXCEPT !.con[c].delay = 15 ] ELSE T
          IN IF st = "down" THEN [ U EXCEPT !.con[c].kick = TRUE ] ELSE U

(* ------------------------------------------------------------ protocol *)
Keywords == { "BROADCAST", "CODE", "CONNECT", "CONSOLE", "ERROR", "FORCE", "HELLO", "JOIN", "MESSAGE",
              "MONITOR", "OK", "OPTION", "QUERY", "QUIET", "REGEX", "RESET", "TTY", "USER" }
IdStart == Alpha \cup {"_"}
IdChar == Alnum \cup {"_"}
RECURSIVE SpanTo(_, _, _)
SpanTo(s, i, set) == IF i <= Len(s) /\ Chr(s, i) \in set THEN SpanTo(s, i + 1, set) ELSE i
RECURSIVE SkipTo(_, _, _)
SkipTo(s, i, set) == IF i <= Len(s) /\ Chr(s, i) \notin set THEN SkipTo(s, i + 1, set) ELSE i
RECURSIVE Tokens(_, _, _)
Tokens(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Chr(s, i)
           nx == IF i < Len(s) THEN Chr(s, i + 1) ELSE "" IN
    CASE c \in {" ", "\t", "\f", Byte(11)} -> Tokens(s, i + 1, acc)
      [] c = "#" -> Tokens(s, SkipTo(s, i, {"\r", "\n"}), acc)
      [] c = "\r" -> Tokens(s, IF nx = "\n" THEN i + 2 ELSE i + 1, Append(acc, <<"EOL", "">>))
      [] c = "\n" -> Tokens(s, i + 1, Append(acc, <<"EOL", "">>))
      [] c \in {"\"", "'"} ->
           LET j == SkipTo(s, i + 1, {c, "\r", "\n"})
           IN IF j <= Len(s) /\ Chr(s, j) = c
              THEN Tokens(s, j + 1, Append(acc, <<"STR", SubSeq(s, i + 1, j - 1)>>))
              ELSE Tokens(s, j, Append(acc, <<"ERR", "">>))
      [] c = "\\" /\ nx = "\n" -> Tokens(s, i + 2, acc)
      [] c = "\\" /\ nx = "\r" /\ i + 2 <= Len(s) /\ Chr(s, i + 2) = "\n" -> Tokens(s, i + 3, acc)
      [] c \in IdStart ->
           LET j == SpanTo(s, i, IdChar)
               w == SubSeq(s, i, j - 1)
               u == Upper(w)
           IN Tokens(s, j, Append(acc, IF u \in Keywords THEN <<u, w>> ELSE <<"STR", w>>))
      [] c \in Digits \/ (c \in {"-", "+"} /\ nx \in Digits) ->
           LET j == SpanTo(s, i + 1, Digits) IN Tokens(s, j, Append(acc, <<"INT", SubSeq(s, i, j - 1)>>))
      [] OTHER -> Tokens(s, i + 1, Append(acc, <<c, "">>))
Lex(line) == LET z == Find(line, NUL) IN Tokens(IF z > 0 THEN Take(line, z - 1) ELSE line, 1, <<>>)
Tok(ts, i) == IF i <= Len(ts) THEN ts[i][1] ELSE "EOF"
Txt(ts, i) == IF i <= Len(ts) THEN ts[i][2] ELSE ""
Adv(ts, i) == IF i <= Len(ts) THEN i + 1 ELSE i
RECURSIVE DecFrom(_, _, _), EncFrom(_, _, _)
DecFrom(x, i, acc) == IF i > Len(x) THEN acc
  ELSE LET c == Chr(x, i) IN DecFrom(x, i + 1, acc \o (IF Ord[c] >= 128 THEN Byte(Ord[c] - 128) ELSE c))
EncFrom(x, i, acc) == IF i > Len(x) THEN acc
  ELSE LET c == Chr(x, i) IN EncFrom(x, i + 1, acc \o (IF c \in {"'", "\""} THEN Byte(Ord[c] + 128) ELSE c))
Decode(x) == DecFrom(x, 1, "")
Encode(x) == EncFrom(x, 1, "")

(* Value of  = STR  after position i: <<next position, value or "">>. *)
StrVal(ts, i) ==
  IF Tok(ts, i) # "=" THEN <<Adv(ts, i), "">>
  ELSE <<Adv(ts, i + 1), IF Tok(ts, i + 1) = "STR" THEN Txt(ts, i + 1) ELSE "">>

RECURSIVE Greet2(_, _, _)            \* inside a HELLO: <<position, <<user, tty>>>>
Greet2(ts, i, a) ==
  CASE Tok(ts, i) \in {"EOL", "EOF"} -> <<Adv(ts, i), a>>
    [] Tok(ts, i) = "USER" -> LET v == StrVal(ts, i + 1)
                              IN Greet2(ts, v[1], <<IF v[2] = "" THEN a[1] ELSE Decode(v[2]), a[2]>>)
    [] Tok(ts, i) = "TTY" -> LET v == StrVal(ts, i + 1)
                             IN Greet2(ts, v[1], <<a[1], IF v[2] = "" THEN a[2] ELSE Decode(v[2])>>)
    [] OTHER -> Greet2(ts, i + 1, a)
RECURSIVE Greet1(_, _, _)
Greet1(ts, i, a) ==
  CASE Tok(ts, i) \in {"EOL", "EOF"} -> a
    [] Tok(ts, i) = "HELLO" -> LET r == Greet2(ts, i + 1, a) IN Greet1(ts, r[1], r[2])
    [] OTHER -> Greet1(ts, i + 1, a)
Greeting(line) == Greet1(Lex(line), 1, <<"", "">>)

NoReq == [ cmd |-> "NONE", pats |-> <<>>, opt |-> {} ]
RECURSIVE Req2(_, _, _)
Req2(ts, i, a) ==
  CASE Tok(ts, i) \in {"EOL", "EOF"} -> <<Adv(ts, i), a>>
    [] Tok(ts, i) = "CONSOLE" -> LET v == StrVal(ts, i + 1)
                                 IN Req2(ts, v[1], IF v[2] = "" THEN a
                                                   ELSE [ a EXCEPT !.pats = Append(@, Decode(v[2])) ])
    [] Tok(ts, i) = "OPTION" -> IF Tok(ts, i + 1) # "=" THEN Req2(ts, Adv(ts, i + 1), a)
                                ELSE Req2(ts, Adv(ts, i + 2), [ a EXCEPT !.opt = @ \cup {Tok(ts, i + 2)} ])
    [] OTHER -> Req2(ts, i + 1, a)
RECURSIVE Req1(_, _, _)
Req1(ts, i, a) ==
  CASE Tok(ts, i) \in {"EOL", "EOF"} -> a
    [] Tok(ts, i) \in {"CONNECT", "MONITOR", "QUERY"} ->
         LET r == Req2(ts, i + 1, [ a EXCEPT !.cmd = Tok(ts, i) ]) IN Req1(ts, r[1], r[2])
    [] OTHER -> Req1(ts, i + 1, a)
Request(line) == Req1(Lex(line), 1, NoReq)

(* ---- selecting consoles ---- *)
Bar(ps) == FoldLeft(LAMBDA a, p : IF a = "" THEN p ELSE a \o "|" \o p, "", ps)
Selected(S, r) ==                    \* set of console ids, or "bad" in .bad
  LET all == DOMAIN S.cfg.cons IN
  IF r.pats = <<>> THEN [ bad |-> FALSE, set |-> IF r.cmd = "QUERY" THEN all ELSE {} ]
  ELSE IF "REGEX" \in r.opt
       THEN LET t == S.cfg.rx[Bar(r.pats)]
            IN IF t[1] = "bad" THEN [ bad |-> TRUE, set |-> {} ]
               ELSE [ bad |-> FALSE, set |-> { c \in all : RegexMatch(t, Name(S, c)) } ]
       ELSE [ bad |-> FALSE,
              set |-> { c \in all : \E i \in 1 .. Len(r.pats) : GlobMatch(r.pats[i], Name(S, c)) } ]
Sorted(S, set) == SetToSortSeq(set, LAMBDA a, b : NameLess(Name(S, a), Name(S, b)))

ErrLine(code, text) == "ERROR CODE=" \o ToString(code) \o " MESSAGE='" \o Encode(text) \o "'\n"
OkLine(S, sel) == "OK" \o (IF S.cfg.reset THEN " OPTION=RESET" ELSE "")
                  \o Join([ i \in 1 .. Len(sel) |-> " CONSOLE='" \o Encode(Name(S, sel[i])) \o "'" ]) \o "\n"
BusyLine(S, c, w) ==
  LET cl == S.cli[w] IN
  "Console [" \o Name(S, c) \o "] open "
   \o (IF \A d \in DOMAIN S.con : w \notin S.con[d].rd THEN "B/C" ELSE "R/W")
   \o " by " \o Who(S, w) \o " (idle " \o DeltaStr(S.now \div 1000 - cl.tread \div 1000) \o ").\n"
(* What follows the error line when consoles are busy, as of now.           *)
BusyText(S, busy) == Join([ i \in 1 .. Len(busy) |->
                        Join([ j \in 1 .. Len(S.con[busy[i]].wr) |-> BusyLine(S, busy[i], S.con[busy[i]].wr[j]) ]) ])
Refuse(S, k, text) == [ S EXCEPT !.cli[k].rsp = text, !.cli[k].next = "close" ]
Answer(S, k, r) ==
  LET m == Selected(S, r)
      sel == Sorted(S, m.set)
      n == Len(sel)
      bc == n # 1 /\ "BROADCAST" \in r.opt
      busy == IF r.cmd = "CONNECT" /\ ~({"FORCE", "JOIN"} \cap r.opt # {})
              THEN SelectSeq(sel, LAMBDA c : S.con[c].wr # <<>>) ELSE <<>>
  IN IF m.bad THEN [ Refuse(S, k, "ERROR CODE=3 MESSAGE='") EXCEPT !.cli[k].st = "badrx" ]
     ELSE IF n = 0 THEN Refuse(S, k, ErrLine(5, "Found no matching consoles"))
     ELSE IF r.cmd # "QUERY" /\ n > 1 /\ ~(r.cmd = "CONNECT" /\ bc)
       THEN Refuse(S, k, ErrLine(6, "Found " \o ToString(n) \o " matching consoles")
                         \o Join([ i \in 1 .. n |-> Name(S, sel[i]) \o "\n" ]))
     ELSE IF busy # <<>>
       THEN [ Refuse(S, k, ErrLine(7, IF Len(busy) = 1 THEN "Found console already in use"
                                      ELSE "Found " \o ToString(Len(busy)) \o " consoles already in use"))
              EXCEPT !.cli[k].busy = busy ]
     ELSE [ S EXCEPT !.cli[k].rsp = OkLine(S, sel),
                     !.cli[k].next = IF r.cmd = "QUERY" THEN "close" ELSE "link",
                     !.cli[k].cmd = r.cmd, !.cli[k].sel = sel, !.cli[k].bc = bc,
                     !.cli[k].force = ("FORCE" \in r.opt), !.cli[k].join = ("JOIN" \in r.opt),
                     !.cli[k].q = ("QUIET" \in r.opt) ]

Line(S, k, line) ==                  \* a complete line arrived during the handshake
  LET cl == S.cli[k] IN
  IF cl.st = "greet"
  THEN LET g == Greeting(line) IN
       IF g[1] = "" THEN Refuse(S, k, ErrLine(2, "Invalid greeting: no user specified"))
       ELSE [ S EXCEPT !.cli[k].user = g[1], !.cli[k].tty = g[2], !.cli[k].rsp = "OK\n",
                       !.cli[k].next = "req", !.cli[k].buf = "" ]
  ELSE Answer([ S EXCEPT !.cli[k].buf = "" ], k, Request(line))

(* A broadcast session takes its consoles one after the other; an attempt    *)
(* made for one that is down comes before the next one is taken.            *)
RECURSIVE StartMore(_, _)
StartMore(S, k) ==
  IF S.cli[k].todo = <<>> THEN S
  ELSE LET c == Head(S.cli[k].todo)
           T == CheckState(Link([ S EXCEPT !.cli[k].todo = Tail(@) ], k, c), c, k)
       IN IF T.con[c].kick THEN [ T EXCEPT !.con[c].by = k ] ELSE StartMore(T, k)
Resume(S, c) ==                      \* the attempt has been made
  LET k == S.con[c].by IN
  IF k = "" THEN S ELSE StartMore([ S EXCEPT !.con[c].by = "" ], k)
(* The session starts once the reply is on the wire. *)
StartSession(S, k) ==
  LET cl == S.cli[k]
      T == [ S EXCEPT !.cli[k].st = "run", !.cli[k].next = "none", !.cli[k].tread = S.now ]
      c1 == cl.sel[1]
  IN IF cl.cmd = "MONITOR"
     THEN CheckState([ T EXCEPT !.con[c1].rd = @ \cup {k} ], c1, k)
     ELSE IF Len(cl.sel) = 1
     THEN CheckState([ Link(T, k, c1) EXCEPT !.con[c1].rd = @ \cup {k} ], c1, k)
     ELSE StartMore([ T EXCEPT !.cli[k].todo = cl.sel ], k)

(* ------------------------------------------------------- client actions *)
AcceptOk(S, k) == k \notin DOMAIN S.cli
Accept(S, k) == [ S EXCEPT !.cli = (k :> NewCli) @@ @ ]

HsReadOk(S, k, d) ==                 \* the handshake reads at most one line at a time
  /\ k \in DOMAIN S.cli /\ S.cli[k].st \in {"greet", "req"} /\ S.cli[k].rsp = "" /\ S.cli[k].next = "none"
  /\ Find(Take(d, Len(d) - 1), "\n") = 0
HsRead(S, k, d) ==
  LET t == S.cli[k].buf \o d IN
  IF EndsWith(t, "\n") THEN Line(S, k, t) ELSE [ S EXCEPT !.cli[k].buf = t ]
HsEofOk(S, k) == k \in DOMAIN S.cli /\ S.cli[k].st \in {"greet", "req"}
HsEof(S, k) == IF S.cli[k].buf # "" THEN Line(S, k, S.cli[k].buf)
               ELSE [ S EXCEPT !.cli[k].next = "close", !.cli[k].rsp = "" ]

CurCon(S, k) == { c \in DOMAIN S.con : k \in S.con[c].rd }   \* at most one
(* Break, delete: to every console the client is writing to. *)
Break1(S, c) == CASE Kind(S, c) = "process" -> PutCon(S, c, "&B")
                  [] Kind(S, c) = "serial" -> IF S.con[c].st = "up" THEN [ S EXCEPT !.con[c].brk = @ + 1 ] ELSE S
                  [] Kind(S, c) = "telnet" -> IF S.con[c].st = "up" THEN PutCon(S, c, IAC \o Byte(243)) ELSE S
                  [] Kind(S, c) = "ipmi" -> IF S.con[c].st = "up" THEN [ S EXCEPT !.con[c].brk = @ + 1 ] ELSE S
                  [] OTHER -> S
Mode(S, k, force, join, wr) ==       \* change between read-only and read-write
  LET cl == S.cli[k]
      cs == CurCon(S, k)
  IN IF cl.bc \/ cs = {} THEN S
     ELSE LET c == CHOOSE x \in cs : TRUE
              T == [ S EXCEPT !.cli[k].force = force, !.cli[k].join = join ]
          IN IF wr = (cl.wrs # <<>>) THEN T
             ELSE IF wr THEN Link(T, k, c) ELSE Unlink(T, k, c)
Replay(S, k) ==
  LET cs == CurCon(S, k) IN
  IF cs = {} THEN S
  ELSE LET c == CHOOSE x \in cs : TRUE
           n == "console [" \o Name(S, c) \o "]"
       IN IF ~Logged(S, c) \/ ~S.log[c].open
          THEN PutCli(S, k, Msg("Console [" \o Name(S, c) \o "] is not being logged -- cannot replay"), FALSE)
          ELSE PutCli(S, k, Msg("Begin log replay of " \o n) \o S.log[c].tail \o Msg("End log replay of " \o n),
                      FALSE)
Quiet(S, k) ==
  LET T == [ S EXCEPT !.cli[k].q = ~@ ]
  IN PutCli(T, k, Msg(IF T.cli[k].q THEN "Quiet-mode enabled -- info msgs will be suppressed"
                      ELSE "Quiet-mode disabled -- info msgs will be displayed"), FALSE)
Suspend(S, k) == [ S EXCEPT !.cli[k].susp = ~@, !.cli[k].held = FALSE ]
(* A reset starts one command per console that has none active; pids lists  *)
(* the processes started, in order (-1: could not be started).              *)
Reset(A, k) ==                       \* A = [S, pids]
  IF ~A.S.cfg.reset THEN A
  ELSE FoldLeft(LAMBDA B, c :
         LET T == B.S
             nm == "Console [" \o Name(T, c) \o "]" IN
         IF T.con[c].rpid # 0 /\ ~T.con[c].rdead
         THEN [ B EXCEPT !.S = Notify(T, c, "Ignoring reset of console [" \o Name(T, c) \o "]: pid "
                                             \o ToString(T.con[c].rpid) \o " still active") ]
         ELSE IF B.pids = <<>> THEN [ B EXCEPT !.bad = TRUE ]
         ELSE LET p == Head(B.pids) IN
           IF p < 0 THEN [ B EXCEPT !.pids = Tail(@),
               !.S = Notify(T, c, "Unable to reset console [" \o Name(T, c) \o "]: fork failed: " \o B.ferr) ]
           ELSE [ B EXCEPT !.pids = Tail(@),
               !.S = Notify([ T EXCEPT !.con[c].rpid = p, !.con[c].rdue = T.now + 60000, !.con[c].rdead = FALSE,
                                       !.con[c].rq = Append(@, p) ], c,
                            nm \o " reset by <" \o T.cli[k].user \o "@" \o T.cfg.host \o "> (pid "
                               \o ToString(p) \o ")") ],
       A, A.S.cli[k].wrs)

Escape(A, k, x) ==
  LET S == A.S IN
  CASE x = "B" -> [ A EXCEPT !.S = FoldLeft(Break1, S, S.cli[k].wrs) ]
    [] x = "D" -> [ A EXCEPT !.S = FoldLeft(LAMBDA T, c : PutCon(T, c, DEL), S, S.cli[k].wrs) ]
    [] x = "F" -> [ A EXCEPT !.S = Mode(S, k, TRUE, FALSE, TRUE) ]
    [] x = "J" -> [ A EXCEPT !.S = Mode(S, k, FALSE, TRUE, TRUE) ]
    [] x = "M" -> [ A EXCEPT !.S = Mode(S, k, FALSE, FALSE, FALSE) ]
    [] x = "L" -> [ A EXCEPT !.S = Replay(S, k) ]
    [] x = "Q" -> [ A EXCEPT !.S = Quiet(S, k) ]
    [] x = "R" -> Reset(A, k)
    [] x = "Z" -> [ A EXCEPT !.S = Suspend(S, k) ]
    [] OTHER -> A
(* A byte 0xFF in the data of a telnet connection is sent doubled. *)
Doubled(x) == FoldLeft(LAMBDA a, c : a \o (IF c = IAC THEN IAC \o IAC ELSE c), "", Chars(x))
ToCon(S, c, x) == PutCon(S, c, IF Kind(S, c) = "telnet" /\ x = IAC THEN IAC \o IAC ELSE x)
Literal(S, k, x) == FoldLeft(LAMBDA T, c : ToCon(T, c, x), S, S.cli[k].wrs)
(* pieces: single 0xFF bytes, or runs without that byte. *)
InPiece(A, k, x) ==
  IF A.S.cli[k].esc
  THEN LET B == [ A EXCEPT !.S.cli[k].esc = FALSE ]
           c == Chr(x, 1)
           C == IF c = ESC THEN [ B EXCEPT !.S = Literal(B.S, k, c) ] ELSE Escape(B, k, c)
       IN IF Len(x) = 1 THEN C ELSE [ C EXCEPT !.S = Literal(C.S, k, Drop(x, 1)) ]
  ELSE IF x = ESC THEN [ A EXCEPT !.S.cli[k].esc = TRUE ]
  ELSE [ A EXCEPT !.S = Literal(A.S, k, x) ]
CliReadOk(S, k) == k \in DOMAIN S.cli /\ Running(S.cli[k]) /\ ~S.cli[k].dead
CliReadA(S, k, pieces, pids, ferr) ==
  FoldLeft(LAMBDA A, x : InPiece(A, k, x),
           [ S |-> [ S EXCEPT !.cli[k].tread = S.now ], pids |-> pids, ferr |-> ferr, bad |-> FALSE ], pieces)
CliEofOk(S, k) == k \in DOMAIN S.cli /\ Running(S.cli[k])
CliEof(S, k) == [ S EXCEPT !.cli[k].eof = TRUE ]

CliWriteOk(S, k, d) ==
  /\ k \in DOMAIN S.cli
  /\ LET cl == S.cli[k] IN
     CASE cl.st \in {"greet", "req"} -> cl.late \/ StartsWith(cl.rsp \o BusyText(S, cl.busy), d)
       [] cl.st = "badrx" -> cl.rsp = "" \/ StartsWith(d, cl.rsp) \/ StartsWith(cl.rsp, d)
       [] cl.st = "run" -> StartsWith(cl.out, d) /\ (~cl.held \/ cl.eof)
       [] OTHER -> FALSE
CliWrite(S, k, d) ==
  LET cl == S.cli[k] IN
  IF cl.st = "run" THEN [ S EXCEPT !.cli[k].out = Drop(@, Len(d)) ]
  ELSE IF cl.st = "badrx" THEN [ S EXCEPT !.cli[k].rsp = "" ]
  ELSE IF cl.busy # <<>> /\ Len(d) >= Len(cl.rsp)
       \* the list of writers is put together line by line: after a partial write the rest may change
       THEN [ S EXCEPT !.cli[k].rsp = "", !.cli[k].late = Len(d) < Len(cl.rsp) + Len(BusyText(S, cl.busy)),
                       !.cli[k].busy = <<>> ]
  ELSE LET T == [ S EXCEPT !.cli[k].rsp = Drop(@, Len(d)) ] IN
       IF T.cli[k].rsp # "" THEN T
       ELSE CASE cl.next = "req" -> [ T EXCEPT !.cli[k].st = "req", !.cli[k].next = "none" ]
              [] cl.next = "link" -> StartSession(T, k)
              [] OTHER -> T
(* Write access is granted only while nobody has it, unless it is shared or *)
(* taken: the answer may have been given when that was so.                  *)
StillFree(S, k) ==
  LET cl == S.cli[k] IN
  cl.next = "link" /\ cl.cmd = "CONNECT" /\ ~cl.force /\ ~cl.join => \A i \in 1 .. Len(cl.sel) : S.con[cl.sel[i]].wr = <<>>
CliFail(S, k) == [ S EXCEPT !.cli[k].dead = TRUE ]
CliCloseOk(S, k) ==
  /\ k \in DOMAIN S.cli
  /\ LET cl == S.cli[k] IN
     \/ cl.dead
     \/ cl.st \in {"greet", "req", "badrx"} /\ cl.next = "close" /\ cl.rsp = "" /\ cl.busy = <<>>
     \/ cl.st = "run" /\ cl.eof /\ cl.out = ""
CliClose(S, k) ==
  LET T == IF Running(S.cli[k])
           THEN UnlinkAll([ S EXCEPT !.cli[k].eof = TRUE ], k) ELSE S
  IN [ T EXCEPT !.cli[k] = [ NewCli EXCEPT !.st = "gone" ] ]

(* ------------------------------------------------------ console actions *)
(* ---- telnet: commands removed, options answered ---- *)
DoReply(o) == IF o \in {0, 3} THEN "" ELSE IAC \o Byte(252) \o Byte(o)
WillReply(o) == IF o \in {0, 1, 3} THEN "" ELSE IAC \o Byte(254) \o Byte(o)
RECURSIVE TelPiece(_, _)
TelPiece(a, x) ==                    \* a = [st, data (pieces), reply]
  IF x = "" THEN a
  ELSE LET c == Chr(x, 1)   rest == Drop(x, 1)   o == Ord[c] IN
    CASE a.st = "data" -> IF c = IAC THEN TelPiece([ a EXCEPT !.st = "iac" ], rest)
                          ELSE [ a EXCEPT !.data = Append(@, x) ]
      [] a.st = "iac" ->
           IF c = IAC THEN TelPiece([ a EXCEPT !.st = "data", !.data = Append(@, c) ], rest)
           ELSE IF o = 253 THEN TelPiece([ a EXCEPT !.st = "do" ], rest)
           ELSE IF o = 251 THEN TelPiece([ a EXCEPT !.st = "will" ], rest)
           ELSE IF o \in {252, 254} THEN TelPiece([ a EXCEPT !.st = "opt" ], rest)
           ELSE IF o = 250 THEN TelPiece([ a EXCEPT !.st = "sb" ], rest)
           ELSE TelPiece([ a EXCEPT !.st = "data" ], rest)
      [] a.st = "do" -> TelPiece([ a EXCEPT !.st = "data", !.reply = @ \o DoReply(o) ], rest)
      [] a.st = "will" -> TelPiece([ a EXCEPT !.st = "data", !.reply = @ \o WillReply(o) ], rest)
      [] a.st = "opt" -> TelPiece([ a EXCEPT !.st = "data" ], rest)
      [] a.st = "sb" -> IF c = IAC THEN TelPiece([ a EXCEPT !.st = "sbiac" ], rest) ELSE a
      [] a.st = "sbiac" ->           \* inside a subnegotiation only IAC SE ends it
           TelPiece([ a EXCEPT !.st = IF o = 240 THEN "data" ELSE "sb" ], rest)
Telnet(st, pieces) == FoldLeft(TelPiece, [ st |-> st, data |-> <<>>, reply |-> "" ], pieces)

ConReadOk(S, c) == S.con[c].st = "up" /\ ~S.con[c].eof /\ ~S.con[c].err
ConData(S, c, pieces) ==
  IF pieces = <<>> THEN S
  ELSE LET d == Join(pieces)
           T == PutLogData(S, c, pieces)
       IN FoldLeft(LAMBDA A, k : PutCli(A, k, d, FALSE), T, SetToSeq(S.con[c].rd))
ConRead(S, c, pieces) ==
  IF Kind(S, c) # "telnet" THEN ConData(S, c, pieces)
  ELSE LET r == Telnet(S.con[c].iac, pieces)
           T == [ S EXCEPT !.con[c].iac = r.st ]
       IN ConData(IF r.reply = "" THEN T ELSE PutCon(T, c, r.reply), c, r.data)
ConEofOk(S, c) == S.con[c].st = "up" /\ ~S.con[c].err
ConEof(S, c) == [ S EXCEPT !.con[c].eof = TRUE ]
ConWriteOk(S, c, d) == S.con[c].st = "up" /\ StartsWith(S.con[c].out, d)
ConWrite(S, c, d) == [ S EXCEPT !.con[c].out = Drop(@, Len(d)) ]
ConFail(S, c) == [ S EXCEPT !.con[c].err = TRUE ]

(* ---- coming up and going down ---- *)
ResetAfter(kind) == IF kind = "telnet" THEN 15000 ELSE 60000
ConnText(S, c, pid) ==
  CASE Kind(S, c) \in {"telnet", "ipmi"} -> "<" \o Dev(S, c) \o ">"
    [] Kind(S, c) = "process" -> "\"" \o Dev(S, c) \o "\" (pid " \o ToString(pid) \o ")"
    [] OTHER -> "\"" \o Dev(S, c) \o "\""
GoUp(S, c, pid) ==
  LET kd == Kind(S, c)
      T == [ S EXCEPT !.con[c].st = "up", !.con[c].tm = -1, !.con[c].kick = FALSE, !.con[c].eof = FALSE,
                      !.con[c].rtm = IF kd = "serial" THEN -1 ELSE S.now + ResetAfter(kd),
                      !.con[c].iac = "data", !.con[c].pid = pid, !.con[c].tstart = S.now ]
      U == Notify(T, c, "Console [" \o Name(S, c) \o "] connected to " \o ConnText(S, c, pid))
  IN IF kd = "telnet"
     THEN PutCon(U, c, IAC \o Byte(253) \o Byte(0) \o IAC \o Byte(253) \o Byte(1) \o IAC \o Byte(253) \o Byte(3)
                       \o IAC \o Byte(251) \o Byte(0) \o IAC \o Byte(251) \o Byte(3))
     ELSE U
(* The next attempt is due after the current delay, which then grows. *)
NextDelay(kind, d) ==
  CASE kind = "unix" -> Lesser(2 * d, 60)
    [] kind = "process" -> IF d = 0 THEN 60 ELSE Lesser(2 * d, 1800)
    [] kind = "telnet" -> IF d = 0 THEN 15 ELSE Lesser(2 * d, 1800)
    [] OTHER -> IF d = 0 THEN 60 ELSE Lesser(2 * d, 1800)
Backoff(S, c) ==
  IF Kind(S, c) = "serial" THEN S
  ELSE [ S EXCEPT !.con[c].tm = S.now + 1000 * S.con[c].delay,
                  !.con[c].delay = NextDelay(Kind(S, c), S.con[c].delay), !.con[c].rtm = -1 ]
(* A socket file appears; appearances not yet seen may be seen as one.      *)
Appeared(S, c) == IF S.con[c].nfy > 0 THEN [ S EXCEPT !.con[c].nfo = @ + 1 ] ELSE [ S EXCEPT !.con[c].nfy = 1 ]
TryOk(S, c) == S.con[c].st = "down" /\ (S.con[c].kick \/ S.con[c].nfy + S.con[c].nfo > 0 \/ (S.con[c].tm >= 0 /\ S.con[c].tm <= S.now))
Try1(S, c, r, why) ==
  LET d == S.con[c]
      early == ~d.kick /\ ~(d.tm >= 0 /\ d.tm <= S.now)    \* only because the socket file appeared
      \* with two reasons to try the notification may also come after this attempt
      S0 == [ S EXCEPT !.con[c].kick = FALSE, !.con[c].nfy = IF @ > 0 THEN @ - 1 ELSE 0,
                       !.con[c].nfo = IF d.nfy > 0 /\ ~early THEN @ + 1 ELSE @ ]
  IN CASE r = "ok" -> GoUp(S0, c, 0)
       [] r = "pend" -> [ S0 EXCEPT !.con[c].st = "pend",      \* an IPMI session must come up within 300 s
                                    !.con[c].tm = IF Kind(S, c) = "ipmi" THEN S.now + 300000 ELSE -1 ]
       [] r = "resolve" -> [ S0 EXCEPT !.con[c].tm = S.now + 1800000 ]
       [] r = "fail" /\ Kind(S, c) = "telnet" -> [ S0 EXCEPT !.con[c].st = "fail", !.con[c].tm = -1 ]
       [] r = "fail" /\ Kind(S, c) = "process" ->
            Backoff(Notify(S0, c, "Console [" \o Name(S, c) \o "] connection failed: " \o why), c)
       [] r = "cfail" -> Backoff(IF early THEN [ S0 EXCEPT !.con[c].delay = 1 ] ELSE S0, c)
       [] OTHER -> Backoff(S0, c)
Try(S, c, r, why) == Resume(Try1(S, c, r, why), c)
PendOk(S, c) == S.con[c].st = "pend" \/ (Kind(S, c) = "ipmi" /\ S.con[c].st = "down")
Pend(S, c, err) == IF S.con[c].st = "down" THEN [ S EXCEPT !.con[c].kick = TRUE ]   \* an abandoned attempt ended
                   ELSE IF err = 0 THEN GoUp(S, c, 0)
                   ELSE IF Kind(S, c) = "ipmi" THEN Backoff([ S EXCEPT !.con[c].st = "down" ], c)
                   ELSE [ S EXCEPT !.con[c].st = "fail" ]
(* A serial line is given the configured settings, and made transparent to  *)
(* every byte, each time it is opened and before any data passes; it gets   *)
(* back what it had before it is closed, unless it failed, after which what *)
(* it had is not known any more.                                            *)
SetLine(S, c, e) == [ S EXCEPT !.con[c].line =
  LET good == e.s = S.cfg.cons[c].line /\ e.raw IN IF good THEN (IF e.own THEN "both" ELSE "set") ELSE IF e.own THEN "own" ELSE "other" ]
LineSet(S, c) == Kind(S, c) = "serial" => S.con[c].line \in {"set", "both"}
LineOwn(S, c) == S.con[c].line \in {"own", "both"} \/ S.con[c].lost \/ S.con[c].err \/ S.con[c].eof
LinesSet(S) == \A c \in DOMAIN S.con : S.con[c].st = "up" => LineSet(S, c)
(* A program the daemon starts is given its standard streams and no other   *)
(* descriptor, and of the environment the standard search path, IFS, TERM   *)
(* and what of DEBUG and TZ the daemon itself was started with (a shell in  *)
(* between may add its own).                                                *)
GivenOk(S, fds, env) ==
  /\ fds = <<>>
  /\ Range(S.cfg.env) \cup { <<"PATH", "/usr/bin:/bin:/usr/sbin:/sbin">> } \subseteq Range(env)
  /\ { v[1] : v \in Range(env) } \ {"IFS", "TERM", "PATH", "PWD", "OLDPWD", "SHLVL", "_"} \subseteq { v[1] : v \in Range(S.cfg.env) }
ForkOk(S, c, ok) == Kind(S, c) = "process" /\ TryOk(S, c) /\ S.con[c].pid = 0 /\ S.con[c].mustkill = 0 /\ ok
Fork(S, c, pid) == Resume(GoUp([ S EXCEPT !.con[c].kick = FALSE ], c, pid), c)

ConCloseOk(S, c) ==
  LET d == S.con[c] IN
  \/ d.st = "fail"
  \/ d.st = "up" /\ (d.err \/ (d.eof /\ d.out = "") \/ d.nfy + d.nfo > 0)
ConClose(S, c) ==
  LET d == S.con[c]
      kd == Kind(S, c)
      quit == d.err \/ d.eof
      T == [ S EXCEPT !.con[c].st = "down", !.con[c].err = FALSE, !.con[c].eof = FALSE,
                      !.con[c].out = IF quit THEN "" ELSE @, !.con[c].stale = ~quit,
                      !.con[c].nfy = IF quit \/ @ = 0 THEN @ ELSE @ - 1,
                      !.con[c].nfo = IF quit \/ d.nfy > 0 \/ @ = 0 THEN @ ELSE @ - 1,
                      !.con[c].pid = 0, !.con[c].mustkill = d.pid, !.con[c].line = "own", !.con[c].lost = @ \/ d.line \notin {"own", "both"}, !.con[c].kick = (kd \in {"serial", "ipmi"}) ]
      nm == "Console [" \o Name(S, c) \o "] disconnected from "
      U == IF d.st # "up" \/ kd = "serial" THEN T
           ELSE Notify(T, c, nm \o ConnText(S, c, d.pid)
                  \o (IF kd = "process" THEN " after " \o DeltaStr(S.now \div 1000 - d.tstart \div 1000) ELSE ""))
  IN IF kd = "ipmi" THEN [ U EXCEPT !.con[c].tm = -1, !.con[c].rtm = -1 ] ELSE Backoff(U, c)

KillOk(S, c, pid, grp, sig, reset) ==
  \/ sig = 0
  \/ ~reset /\ sig = 9 /\ S.con[c].mustkill = pid /\ pid # 0
  \/ reset /\ sig = 9 /\ grp /\ S.con[c].rkill /\ S.con[c].rpid = pid
Kill(S, c, pid, sig, reset) ==
  IF sig = 0 THEN S
  ELSE IF reset THEN [ S EXCEPT !.con[c].rkill = FALSE, !.con[c].rpid = 0, !.con[c].rdead = FALSE ]
  ELSE [ S EXCEPT !.con[c].mustkill = 0 ]
ResetForkOk(S, c, pid, ok) == InSeq(pid, S.con[c].rq) /\ ok
ResetFork(S, c, pid) == [ S EXCEPT !.con[c].rq = SeqRemove(@, pid) ]
ResetDead(S, c, pid) == IF S.con[c].rpid = pid THEN [ S EXCEPT !.con[c].rdead = TRUE ] ELSE S
BreakOk(S, c) == S.con[c].brk > 0 \/ (Kind(S, c) = "ipmi" /\ S.con[c].st # "up")
Break(S, c) == [ S EXCEPT !.con[c].brk = IF @ > 0 THEN @ - 1 ELSE 0 ]

(* ---------------------------------------------------------- log actions *)
LogOpenOk(S, c, trunc, app) ==
  Logged(S, c) /\ (S.log[c].want \/ S.log[c].again > 0) /\ ~S.log[c].open /\ app /\ (trunc => S.log[c].first /\ S.cfg.zero)
   /\ (S.log[c].first /\ S.cfg.zero => trunc)
(* A log whose name has conversion specifiers is opened under the name they *)
(* expand to at that time (fm), in directories that are made as needed.     *)
LogNameOk(S, c, e) ==
  "fm" \in DOMAIN e =>
    /\ e.path = Expand(S.cfg.cons[c].tmpl, 1, [ name |-> Name(S, c), kind |-> Kind(S, c), dev |-> << S.cfg.cons[c].dev >> ], e.fm)
    /\ e.r # 2
LogOpen(S, c, err) ==
  IF err # 0 THEN [ S EXCEPT !.log[c].want = FALSE, !.log[c].again = IF @ > 0 THEN @ - 1 ELSE 0, !.log[c].open = FALSE, !.log[c].first = FALSE ]
  ELSE LET T == [ S EXCEPT !.log[c].want = FALSE, !.log[c].again = IF @ > 0 THEN @ - 1 ELSE 0, !.log[c].open = TRUE, !.log[c].first = FALSE ]
       IN PutLogRaw(T, c, Msg("Console [" \o Name(S, c) \o "] log opened at " \o S.ts.tz), TRUE)
(* After a failed write the text that was pending is given up, but the end *)
(* of it may be kept for when the file is opened again (`may').            *)
LogKept(S, c, d) ==
  LET l == S.log[c] IN
  { n \in 1 .. Len(l.may) : StartsWith(LastN(LastN(l.may, n) \o l.out, BufMax), d) }
LogWriteOk(S, c, d) ==
  S.log[c].open /\ (StartsWith(S.log[c].out, d) \/ LogKept(S, c, d) # {})
LogWrite(S, c, d) ==
  LET l == S.log[c]
      t == IF StartsWith(l.out, d) THEN l.out
           ELSE LET ns == LogKept(S, c, d)   n == CHOOSE n \in ns : \A m \in ns : n <= m
                IN LastN(LastN(l.may, n) \o l.out, BufMax)
  IN [ S EXCEPT !.log[c].out = Drop(t, Len(d)), !.log[c].may = "" ]
LogFull(S, c, f) ==                  \* the file stops taking data, or takes data again
  [ S EXCEPT !.log[c].full = f, !.log[c].out = IF f THEN LastN(@, BufMax) ELSE @ ]
LogFail(S, c) == [ S EXCEPT !.log[c].err = TRUE ]
LogCloseOk(S, c) == S.log[c].open /\ (S.log[c].err \/ S.log[c].want \/ S.log[c].again > 0)
LogClose(S, c) == [ S EXCEPT !.log[c].open = FALSE, !.log[c].out = IF S.log[c].err THEN "" ELSE @,
                       !.log[c].may = IF S.log[c].err THEN LastN(@ \o S.log[c].out, 8191) ELSE @,
                             !.log[c].want = @ \/ ~S.log[c].err, !.log[c].err = FALSE, !.log[c].full = FALSE ]
(* Logs are opened anew after each request, or once for several that come   *)
(* close together.                                                         *)
Hangup(S) == [ S EXCEPT !.log = [ c \in DOMAIN S.log |-> [ S.log[c] EXCEPT !.want = TRUE, !.again = @ + 1 ] ] ]
Mark(S) == FoldLeft(LAMBDA A, c : PutLogRaw(A, c, Msg("Console [" \o Name(A, c) \o "] log at " \o A.ts.tz), TRUE),
                    S, SetToSeq(DOMAIN S.log))

(* ----------------------------------------------------------------- time *)
Clock(S, now, ts, marks) ==
  LET T == [ S EXCEPT !.now = now, !.ts = ts ]
      C(d, kd) == LET e == IF d.rtm >= 0 /\ d.rtm <= now
                           THEN [ d EXCEPT !.rtm = -1, !.delay = CASE kd = "unix" -> 1 [] kd = "ipmi" -> 60 [] OTHER -> 0 ]
                           ELSE d
                  IN IF e.rpid # 0 /\ e.rdue <= now
                     THEN IF e.rdead THEN [ e EXCEPT !.rpid = 0, !.rdead = FALSE ] ELSE [ e EXCEPT !.rkill = TRUE ]
                     ELSE e
      U == [ T EXCEPT !.con = [ c \in DOMAIN T.con |-> C(T.con[c], Kind(S, c)) ] ]
      \* an IPMI session that did not come up in time
      late == { c \in DOMAIN U.con : Kind(U, c) = "ipmi" /\ U.con[c].st = "pend" /\ U.con[c].tm <= now }
      V == FoldLeft(LAMBDA A, c : Backoff([ A EXCEPT !.con[c].st = "down" ], c), U, SetToSeq(late))
  IN FoldLeft(LAMBDA A, i : Mark(A), V, [ i \in 1 .. marks |-> i ])

(* ------------------------------------ what must be done before waiting *)
CliIdle(S, k, blk) ==
  LET cl == S.cli[k] IN
  CASE cl.st = "gone" -> TRUE
    [] cl.dead \/ cl.todo # <<>> -> FALSE
    [] cl.st \in {"greet", "req", "badrx"} -> (cl.next = "none" /\ cl.rsp = "") \/ blk
    [] OTHER -> blk \/ ((cl.out = "" /\ ~cl.eof) \/ (cl.susp /\ ~cl.eof))
(* A pending IPMI session waits for the management processor. *)
ConIdle(S, c, blk) ==
  LET d == S.con[c] IN
  /\ ~d.kick /\ d.mustkill = 0 /\ d.brk = 0 /\ d.rq = <<>> /\ (~d.rkill \/ d.rdue >= S.now)
  /\ CASE d.st = "up" -> ~d.err /\ (blk \/ (~d.eof /\ (d.out = "" \/ d.stale))) /\ d.nfy = 0
       [] d.st = "pend" -> blk \/ Kind(S, c) = "ipmi"
       [] d.st = "fail" -> FALSE
       [] OTHER -> d.nfy = 0 /\ (d.tm >= S.now \/ (d.tm = -1 /\ Kind(S, c) = "serial"))
LogIdle(S, c, blk) ==
  LET g == S.log[c] IN ~g.err /\ ~g.want /\ (~g.open \/ g.out = "" \/ blk)
IdleBad(S, blk) ==                   \* the objects that have not done what they must
  { <<"k", k>> : k \in { x \in DOMAIN S.cli : ~CliIdle(S, x, <<"k", x>> \in blk) } }
  \cup { <<"c", c>> : c \in { x \in DOMAIN S.con : ~ConIdle(S, x, <<"c", x>> \in blk) } }
  \cup { <<"l", c>> : c \in { x \in DOMAIN S.log : ~LogIdle(S, x, <<"l", x>> \in blk) } }
(* Output to a suspended session stops at the latest when the daemon has    *)
(* gone back to waiting.                                                    *)
Waited(S) == [ S EXCEPT !.log = [ c \in DOMAIN S.log |-> [ S.log[c] EXCEPT !.again = 0 ] ], !.con = [ c \in DOMAIN S.con |-> [ S.con[c] EXCEPT !.nfo = 0 ] ], !.cli = [ k \in DOMAIN S.cli |->
                 IF S.cli[k].st = "run" /\ S.cli[k].susp THEN [ S.cli[k] EXCEPT !.held = TRUE ] ELSE S.cli[k] ] ]
=============================================================================
