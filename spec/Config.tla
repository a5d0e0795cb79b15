------------------------------ MODULE Config ------------------------------
(* The configuration file: what a text of directives means.                 *)
(* Parse(text, env) is the configuration in force: the consoles in order of *)
(* definition, the defaults and server settings at the end, and the lines   *)
(* of the directives in error.  env describes the file system and process   *)
(* the daemon finds: [ cwd, x |-> path -> "exe" | "file" | "dir" | "chr",   *)
(* fm |-> the expansions of the time specifiers ].                          *)
EXTENDS Strs, FiniteSetsExt

NUL == Byte(0)
BLANK == {" ", "\t", "\f", "\n", "\r", Byte(11)}
IsBlank(s) == \A i \in 1 .. Len(s) : Chr(s, i) \in BLANK
Has(s, c) == Find(s, c) > 0
RECURSIVE HasFrom(_, _, _)
HasFrom(s, t, i) == /\ i + Len(t) - 1 <= Len(s)
                    /\ \/ SubSeq(s, i, i + Len(t) - 1) = t
                       \/ HasFrom(s, t, i + 1)
HasStr(s, t) == HasFrom(s, t, 1)
RECURSIVE Subst(_, _, _, _)              \* t replaced by u in s, from i
Subst(s, t, u, i) ==
  IF i > Len(s) THEN ""
  ELSE IF i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t THEN u \o Subst(s, t, u, i + Len(t))
  ELSE Chr(s, i) \o Subst(s, t, u, i + 1)
RECURSIVE Split(_, _, _, _)              \* the non-empty pieces of s between separators
Split(s, seps, i, cur) ==
  IF i > Len(s) THEN IF cur = "" THEN <<>> ELSE <<cur>>
  ELSE IF Chr(s, i) \in seps THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Split(s, seps, i + 1, "")
  ELSE Split(s, seps, i + 1, cur \o Chr(s, i))
AllIn(s, set) == \A i \in 1 .. Len(s) : Chr(s, i) \in set
RECURSIVE Num(_, _)
Num(s, acc) == IF s = "" THEN acc ELSE Num(Drop(s, 1), 10 * acc + DigitVal(Chr(s, 1)))
IntVal(s) == IF Chr(s, 1) = "-" THEN -Num(Drop(s, 1), 0) ELSE IF Chr(s, 1) = "+" THEN Num(Drop(s, 1), 0) ELSE Num(s, 0)

(* ------------------------------------------------------------ tokens *)
CfgKeys == { "CONSOLE", "COREDUMP", "COREDUMPDIR", "DEV", "EXECPATH", "GLOBAL", "IPMIOPTS", "KEEPALIVE", "LOG", "LOGDIR",
             "LOGFILE", "LOGOPTS", "LOOPBACK", "NAME", "NOFILE", "OFF", "ON", "PIDFILE", "PORT", "RESETCMD", "SEROPTS",
             "SERVER", "SYSLOG", "TCPWRAPPERS", "TESTOPTS", "TIMESTAMP" }
Id1 == Alpha \cup {"_"}
IdN == Alnum \cup {"_"}
RECURSIVE While(_, _, _), Until(_, _, _)
While(s, i, set) == IF i <= Len(s) /\ Chr(s, i) \in set THEN While(s, i + 1, set) ELSE i
Until(s, i, set) == IF i <= Len(s) /\ Chr(s, i) \notin set THEN Until(s, i + 1, set) ELSE i
TK(t, s, ln) == [ t |-> t, s |-> s, ln |-> ln ]
RECURSIVE Toks(_, _, _, _)
Toks(s, i, ln, acc) ==
  IF i > Len(s) THEN Append(acc, TK("EOF", "", ln))
  ELSE LET c == Chr(s, i)
           nx == IF i < Len(s) THEN Chr(s, i + 1) ELSE "" IN
    CASE c = NUL -> Append(acc, TK("EOF", "", ln))
      [] c \in {" ", "\t", "\f", Byte(11)} -> Toks(s, i + 1, ln, acc)
      [] c = "#" -> Toks(s, Until(s, i, {"\r", "\n", NUL}), ln, acc)
      [] c = "\r" -> Toks(s, IF nx = "\n" THEN i + 2 ELSE i + 1, ln + 1, Append(acc, TK("EOL", "", ln)))
      [] c = "\n" -> Toks(s, i + 1, ln + 1, Append(acc, TK("EOL", "", ln)))
      [] c \in {"\"", "'"} ->
           LET j == Until(s, i + 1, {c, "\r", "\n", NUL})
           IN IF j <= Len(s) /\ Chr(s, j) = c
              THEN Toks(s, j + 1, ln, Append(acc, TK("STR", SubSeq(s, i + 1, j - 1), ln)))
              ELSE Toks(s, j, ln, Append(acc, TK("ERR", "", ln)))
      [] c = "\\" /\ nx = "\n" -> Toks(s, i + 2, ln + 1, acc)
      [] c = "\\" /\ nx = "\r" /\ i + 2 <= Len(s) /\ Chr(s, i + 2) = "\n" -> Toks(s, i + 3, ln + 1, acc)
      [] c \in Id1 ->
           LET j == While(s, i, IdN)
               w == SubSeq(s, i, j - 1)
               u == Upper(w)
           IN Toks(s, j, ln, Append(acc, TK(IF u \in CfgKeys THEN u ELSE "STR", w, ln)))
      [] c \in Digits \/ (c \in {"-", "+"} /\ nx \in Digits) ->
           LET j == While(s, i + 1, Digits) IN Toks(s, j, ln, Append(acc, TK("INT", SubSeq(s, i, j - 1), ln)))
      [] OTHER -> Toks(s, i + 1, ln, Append(acc, TK(c, c, ln)))

At(T, i) == IF i <= Len(T) THEN T[i] ELSE T[Len(T)]
IsEnd(T, i) == At(T, i).t \in {"EOL", "EOF"}
RECURSIVE EndOf(_, _)
EndOf(T, i) == IF IsEnd(T, i) THEN i ELSE EndOf(T, i + 1)
HasVal(T, i) == At(T, i + 1).t = "="
Val(T, i) == At(T, i + 2)
IsStr(T, i) == HasVal(T, i) /\ Val(T, i).t = "STR"
IsText(T, i) == IsStr(T, i) /\ ~IsBlank(Val(T, i).s)
(* where parsing stops when the value of the key at i is not acceptable *)
BadAt(T, i) == IF HasVal(T, i) THEN i + 2 ELSE i + 1

(* ------------------------------------------------------------ options *)
(* Each takes the options so far and returns [ ok, o ].                     *)
LogTok(o, t) == CASE t = "LOCK" -> [ o EXCEPT !.lock = TRUE ]
                  [] t = "NOLOCK" -> [ o EXCEPT !.lock = FALSE ]
                  [] t = "SANITIZE" -> [ o EXCEPT !.san = TRUE ]
                  [] t = "NOSANITIZE" -> [ o EXCEPT !.san = FALSE ]
                  [] t = "TIMESTAMP" -> [ o EXCEPT !.ts = TRUE ]
                  [] t = "NOTIMESTAMP" -> [ o EXCEPT !.ts = FALSE ]
                  [] OTHER -> o                       \* only a warning
RECURSIVE LogToks(_, _)
LogToks(o, ts) == IF ts = <<>> THEN o ELSE LogToks(LogTok(o, Upper(Head(ts))), Tail(ts))
LogOpts(o, s) == [ ok |-> TRUE, o |-> LogToks(o, Split(s, {" ", "\t", "\n", ".", ",", ";"}, 1, "")) ]

Rates == <<50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800>>
RECURSIVE RateFrom(_, _)
RateFrom(v, k) == IF k = 0 THEN 0 ELSE IF Rates[k] <= v THEN Rates[k] ELSE RateFrom(v, k - 1)
Rate(v) == RateFrom(v, Len(Rates))
(* An integer in s at i, blanks skipped: [ ok, v, j |-> what follows ].     *)
ScanInt(s, i) ==
  LET a == While(s, i, BLANK)
      b == IF a <= Len(s) /\ Chr(s, a) \in {"-", "+"} THEN a + 1 ELSE a
      j == While(s, b, Digits)
  IN [ ok |-> j > b, v |-> IF j > b THEN IntVal(SubSeq(s, a, j - 1)) ELSE 0, j |-> j ]
(* bps[,databits[parity[stopbits]]] *)
SerOpts(o, s) ==
  LET A == ScanInt(s, 1)
      B == ScanInt(s, A.j + 1)
      hasD == A.ok /\ A.j <= Len(s) /\ Chr(s, A.j) = "," /\ B.ok
      db == IF hasD THEN B.v ELSE o.db
      hasP == hasD /\ B.j <= Len(s)
      par == IF hasP THEN UpC(Chr(s, B.j)) ELSE o.par
      S == ScanInt(s, B.j + 1)
      sb == IF hasP /\ S.ok THEN S.v ELSE o.sb
      bps == IF A.ok THEN Rate(A.v) ELSE 0
  IN [ ok |-> bps > 0 /\ db \in 5 .. 8 /\ par \in {"N", "O", "E"} /\ sb \in 1 .. 2,
       o |-> [ bps |-> bps, db |-> db, par |-> par, sb |-> sb ] ]

(* X:VALUE options of test consoles *)
TestTok(t) == /\ Len(t) >= 2 /\ UpC(Chr(t, 1)) \in {"B", "M", "N", "P"} /\ Chr(t, 2) = ":"
              /\ AllIn(Drop(t, 2), Digits)
TestOpts(o, s) == LET ts == Split(s, {","}, 1, "")
                  IN [ ok |-> \A k \in 1 .. Len(ts) : TestTok(ts[k]), o |-> o ]

(* IPMI: u, p texts ("-": not given), k the bytes of the key in hexadecimal *)
(* ("-": not given), l level, c cipher, w the set of workaround bits        *)
HexS == "0123456789abcdef"
HexOf(n) == Chr(HexS, (n \div 16) + 1) \o Chr(HexS, (n % 16) + 1)
RECURSIVE HexStr(_)
HexStr(s) == IF s = "" THEN "" ELSE HexOf(Ord[Chr(s, 1)]) \o HexStr(Drop(s, 1))
HexV(c) == Find(HexS, IF Ord[c] \in 65 .. 70 THEN Byte(Ord[c] + 32) ELSE c) - 1
HexDigits == Digits \cup CharSet("abcdefABCDEF")
IsHex(s) == Len(s) >= 2 /\ Chr(s, 1) = "0" /\ Chr(s, 2) \in {"x", "X"} /\ AllIn(Drop(s, 2), HexDigits)
RECURSIVE UnHex(_)
UnHex(h) == IF h = "" THEN "" ELSE
            IF Len(h) = 1 THEN Byte(16 * HexV(h)) ELSE Byte(16 * HexV(Chr(h, 1)) + HexV(Chr(h, 2))) \o UnHex(Drop(h, 2))
KeyBytes(s) == IF IsHex(s) THEN UnHex(Drop(s, 2)) ELSE s
ToNul(s) == LET z == Find(s, NUL) IN IF z > 0 THEN Take(s, z - 1) ELSE s
IUser(o, v) == [ ok |-> Len(v) <= 16, o |-> [ o EXCEPT !.u = v ] ]
IPass(o, v) == [ ok |-> Len(KeyBytes(v)) <= 20, o |-> [ o EXCEPT !.p = ToNul(KeyBytes(v)) ] ]
IKey(o, v) == [ ok |-> Len(KeyBytes(v)) <= 20, o |-> [ o EXCEPT !.k = HexStr(KeyBytes(v)) ] ]
ILevel(o, v) ==
  LET u == Upper(v)
      n == CASE v = "" -> -1 [] u = "USER" -> 0 [] u \in {"OP", "OPERATOR"} -> 1 [] u \in {"ADMIN", "ADMINISTRATOR"} -> 2
             [] AllIn(v, Digits) -> Num(v, 0) [] OTHER -> 99
  IN [ ok |-> n <= 2, o |-> [ o EXCEPT !.l = n ] ]
ICipher(o, v) ==
  LET n == IF v = "" THEN -1 ELSE IF AllIn(v, Digits) THEN Num(v, 0) ELSE 99
  IN [ ok |-> n \in {-1, 0, 1, 2, 3, 6, 7, 8, 11, 12, 15, 16, 17}, o |-> [ o EXCEPT !.c = n ] ]
WBits == [ AUTHCAP |-> 0, INTEL20 |-> 1, SUPERMICRO20 |-> 2, SUN20 |-> 3, OPENSESSPRIV |-> 4, INTEGRITYCHECKVALUE |-> 5,
           NOCHECKSUMCHECK |-> 6, SERIALALERTSDEFERRED |-> 7, SOLPACKETSEQ |-> 8, SOLPAYLOADSIZE |-> 24, SOLPORT |-> 25,
           SOLSTATUS |-> 26, SOLCHANNELSUPPORT |-> 27 ]
WDefault == {99}
BitsOf(n) == { i \in 0 .. 29 : (n \div (2 ^ i)) % 2 = 1 }
IWork(o, v) ==
  LET u == Upper(v)
      f == CASE u \in {"", "DEFAULT"} -> WDefault [] u = "NONE" -> {} [] u \in DOMAIN WBits -> {WBits[u]}
             [] AllIn(v, Digits) -> BitsOf(Num(v, 0)) [] OTHER -> {100}
  IN [ ok |-> f # {100}, o |-> [ o EXCEPT !.w = IF f = {} \/ f = WDefault \/ o.w = WDefault THEN f ELSE o.w \cup f ] ]
IOpt(o, t) ==
  IF Len(t) < 2 \/ Chr(t, 2) # ":" THEN [ ok |-> FALSE, o |-> o ]
  ELSE LET k == UpC(Chr(t, 1))  v == Drop(t, 2) IN
    CASE k = "U" -> IUser(o, v) [] k = "P" -> IPass(o, v) [] k = "K" -> IKey(o, v) [] k = "L" -> ILevel(o, v)
      [] k = "C" -> ICipher(o, v) [] k = "W" -> IWork(o, v) [] OTHER -> [ ok |-> FALSE, o |-> o ]
RECURSIVE IFold(_, _, _)                 \* old: by position (the former format)
IFold(o, ts, pos) ==
  IF ts = <<>> THEN [ ok |-> TRUE, o |-> o ]
  ELSE LET t == Head(ts)
           v == IF t = "-" THEN "" ELSE t
           r == CASE pos = 0 -> IOpt(o, t) [] pos = 1 -> IUser(o, v) [] pos = 2 -> IPass(o, v) [] pos = 3 -> IKey(o, v)
                  [] OTHER -> IWork(o, v)
       IN IF r.ok THEN IFold(r.o, Tail(ts), IF pos = 0 THEN 0 ELSE pos + 1) ELSE r
IpmiOpts(o, s) == IFold(o, Split(s, {","}, 1, ""), IF s # "" /\ ~(Len(s) >= 2 /\ Chr(s, 2) = ":") THEN 1 ELSE 0)

(* ------------------------------------------------------------ consoles *)
(* The words of a device string: [ ok, w |-> seq of <<text, quote>> ].      *)
RECURSIVE Words(_, _, _)
Words(s, i0, acc) ==
  LET i == While(s, i0, BLANK) IN
  IF i > Len(s) THEN [ ok |-> TRUE, w |-> acc ]
  ELSE LET c == Chr(s, i) IN
    IF c \in {"\"", "'"} /\ i < Len(s) THEN
      LET Q == { q \in i + 1 .. Len(s) : Chr(s, q) = c /\ (q = Len(s) \/ Chr(s, q + 1) \in BLANK) }
      IN IF Q = {} THEN [ ok |-> FALSE, w |-> acc ]
         ELSE LET q == Min(Q) IN Words(s, q + 1, Append(acc, <<SubSeq(s, i + 1, q - 1), c>>))
    ELSE LET q == Until(s, i, BLANK) IN Words(s, q, Append(acc, <<SubSeq(s, i, q - 1), "">>))

Abs(env, p) == IF p # "" /\ Chr(p, 1) = "/" THEN p ELSE env.cwd \o "/" \o p
Is(env, p, k) == p \in DOMAIN env.x /\ env.x[p] = k
RECURSIVE Search(_, _, _)                \* the first directory holding the program
Search(env, ds, f) ==
  IF ds = <<>> THEN ""
  ELSE LET d == Head(ds)  p == d \o "/" \o f
       IN IF Is(env, Abs(env, d), "dir") /\ (Is(env, Abs(env, p), "exe") \/ Is(env, Abs(env, p), "dir")) THEN p
          ELSE Search(env, Tail(ds), f)
Program(env, execpath, a) ==
  LET p == IF Has(a, "/") THEN "" ELSE Search(env, Split(execpath, {":"}, 1, ""), a)
  IN IF p # "" THEN p ELSE Abs(env, a)

(* D: the configuration so far; a: the keys given (a function).             *)
(* Returns [ ok, con ].                                                     *)
Fails == [ ok |-> FALSE, con |-> <<>> ]
Device(D, env, a) ==
  LET ws == Words(a.DEV, 1, <<>>)
      args == [ k \in 1 .. Len(ws.w) |-> IF ws.w[k][2] = "'" THEN ws.w[k][1] ELSE Subst(ws.w[k][1], "%N", a.NAME, 1) ]
      d == args[1]
      f == Find(d, ":")
      one == Len(args) = 1
      names == { D.cons[k].name : k \in 1 .. Len(D.cons) }
      used(kd) == { D.cons[k].dev[1] : k \in { j \in 1 .. Len(D.cons) : D.cons[j].kind = kd } }
      mk(kd, dv, so, io) == [ ok |-> a.NAME \notin names /\ ~(kd \in {"unix", "serial", "ipmi"} /\ dv[1] \in used(kd)),
                              con |-> [ name |-> a.NAME, kind |-> kd, dev |-> dv, ser |-> so, ipmi |-> io, keep |-> D.sv.keep ] ]
      up(n) == Upper(Take(d, n))
      NS == <<>>
  IN IF ~ws.ok \/ args = <<>> \/ (\E k \in 1 .. Len(args) : Len(args[k]) > 1023) THEN Fails
     ELSE IF up(5) = "UNIX:" /\ Len(d) > 5 THEN
       LET p == Abs(env, Drop(d, 5)) IN IF one /\ Len(p) <= 107 THEN mk("unix", <<p>>, NS, NS) ELSE Fails
     ELSE IF f > 1 /\ f < Len(d) /\ AllIn(Drop(d, f), Digits) THEN
       LET n == StripZeros(Drop(d, f)) IN
       IF one /\ Len(n) <= 5 /\ Num(n, 0) \in 1 .. 65535 THEN mk("telnet", <<Take(d, f - 1) \o ":" \o n>>, NS, NS) ELSE Fails
     ELSE IF Is(env, Abs(env, d), "chr") THEN
       LET r == IF "SEROPTS" \in DOMAIN a THEN SerOpts(D.gl.so, a.SEROPTS) ELSE [ ok |-> TRUE, o |-> D.gl.so ]
       IN IF one /\ r.ok THEN mk("serial", <<Abs(env, d)>>, r.o, NS) ELSE Fails
     ELSE IF Is(env, Abs(env, Program(env, D.sv.execpath, d)), "exe") THEN
       mk("process", <<Program(env, D.sv.execpath, d)>> \o Tail(args), NS, NS)
     ELSE IF up(5) = "IPMI:" /\ Len(d) > 5 THEN
       LET r == IF "IPMIOPTS" \in DOMAIN a THEN IpmiOpts(D.gl.io, a.IPMIOPTS) ELSE [ ok |-> TRUE, o |-> D.gl.io ]
       IN IF one /\ r.ok THEN mk("ipmi", <<Drop(d, 5)>>, NS, r.o) ELSE Fails
     ELSE IF Upper(d) = "TEST:" THEN
       LET r == IF "TESTOPTS" \in DOMAIN a THEN TestOpts(<<>>, a.TESTOPTS) ELSE [ ok |-> TRUE, o |-> <<>> ]
       IN IF one /\ r.ok THEN mk("test", <<>>, NS, NS) ELSE Fails
     ELSE Fails
InDir(D, p) == IF Chr(p, 1) = "/" THEN p ELSE D.sv.logdir \o "/" \o p
(* The log file of a console: its unexpanded name ("" : none) and options.  *)
Console(D, env, a) ==
  LET r == Device(D, env, a)
      lname == IF "LOG" \in DOMAIN a THEN a.LOG ELSE IF D.gl.log # "" THEN InDir(D, D.gl.log) ELSE ""
      lo == IF "LOGOPTS" \in DOMAIN a THEN LogOpts(D.gl.lo, a.LOGOPTS).o ELSE D.gl.lo
      path == Expand(lname, 1, r.con, env.fm)
      taken == { D.cons[k].log : k \in { j \in 1 .. Len(D.cons) : D.cons[j].log # "" } }
  IN IF ~r.ok \/ (lname # "" /\ path \in taken) THEN Fails
     ELSE [ ok |-> TRUE, con |-> r.con @@ [ log |-> IF lname = "" THEN "" ELSE path, lo |-> lo ] ]

(* ------------------------------------------------------------ directives *)
(* Each returns [ bad, at |-> index of the last token read, ... ].          *)
RECURSIVE ConKeys(_, _, _, _)
ConKeys(D, T, i, a) ==
  LET t == At(T, i).t
      v == Val(T, i).s
      set(k, x) == ConKeys(D, T, i + 3, (k :> x) @@ a)
      no == [ bad |-> TRUE, at |-> BadAt(T, i), a |-> a ]
  IN CASE t \in {"EOL", "EOF"} -> [ bad |-> FALSE, at |-> i, a |-> a ]
       [] t \in {"NAME", "DEV", "LOGOPTS", "SEROPTS"} -> IF IsText(T, i) THEN set(t, v) ELSE no
       [] t \in {"IPMIOPTS", "TESTOPTS"} -> IF IsStr(T, i) THEN set(t, v) ELSE no
       [] t = "LOG" -> IF ~IsStr(T, i) \/ Has(v, "&") THEN no
                       ELSE set(t, IF IsBlank(v) THEN "" ELSE InDir(D, v))
       [] OTHER -> [ bad |-> TRUE, at |-> i, a |-> a ]
ConDir(D, env, T, i) ==
  LET p == ConKeys(D, T, i, <<>>)
      r == IF p.bad \/ "NAME" \notin DOMAIN p.a \/ "DEV" \notin DOMAIN p.a THEN Fails ELSE Console(D, env, p.a)
  IN IF r.ok THEN [ D |-> [ D EXCEPT !.cons = Append(@, r.con) ], bad |-> FALSE, at |-> p.at ]
     ELSE [ D |-> D, bad |-> TRUE, at |-> p.at ]

RECURSIVE GlobDir(_, _, _)
GlobDir(D, T, i) ==
  LET t == At(T, i).t
      v == Val(T, i).s
      no == [ D |-> D, bad |-> TRUE, at |-> BadAt(T, i) ]
      opt(r, E) == IF r.ok THEN GlobDir(E, T, i + 3) ELSE no
  IN CASE t \in {"EOL", "EOF"} -> [ D |-> D, bad |-> FALSE, at |-> i ]
       [] t = "LOG" -> IF ~IsStr(T, i) THEN no
                       ELSE IF IsBlank(v) THEN GlobDir([ D EXCEPT !.gl.log = "" ], T, i + 3)
                       ELSE IF Has(v, "&") \/ ~(HasStr(v, "%N") \/ HasStr(v, "%D")) THEN no
                       ELSE GlobDir([ D EXCEPT !.gl.log = v ], T, i + 3)
       [] t \in {"LOGOPTS", "SEROPTS", "IPMIOPTS", "TESTOPTS"} ->
            IF ~IsText(T, i) THEN no
            ELSE CASE t = "LOGOPTS" -> LET r == LogOpts(D.gl.lo, v) IN opt(r, [ D EXCEPT !.gl.lo = r.o ])
                   [] t = "SEROPTS" -> LET r == SerOpts(D.gl.so, v) IN opt(r, [ D EXCEPT !.gl.so = r.o ])
                   [] t = "IPMIOPTS" -> LET r == IpmiOpts(D.gl.io, v) IN opt(r, [ D EXCEPT !.gl.io = r.o ])
                   [] OTHER -> opt(TestOpts(<<>>, v), D)
       [] OTHER -> [ D |-> D, bad |-> TRUE, at |-> i ]

Facilities == { "AUTH", "AUTHPRIV", "CRON", "DAEMON", "KERN", "LPR", "MAIL", "NEWS", "USER", "UUCP" }
              \cup { "LOCAL" \o Chr("01234567", k) : k \in 1 .. 8 }
Priorities == { "ALERT", "CRIT", "CRITICAL", "DEBUG", "EMERG", "EMERGENCY", "ERR", "ERROR", "INFO", "NOTICE", "PANIC", "WARN", "WARNING" }
RECURSIVE TrimL(_)
TrimL(s) == IF s # "" /\ Chr(s, 1) \in BLANK THEN TrimL(Drop(s, 1)) ELSE s
LastComma(s) == LET js == { j \in 1 .. Len(s) : Chr(s, j) = "," } IN IF js = {} THEN 0 ELSE Max(js)
(* The port and the pid file are those of the command line or else of the   *)
(* first directive to give them; D.fixed: as they were before this one.     *)
RECURSIVE SrvDir(_, _, _, _)
SrvDir(D, env, T, i) ==
  LET t == At(T, i).t
      v == Val(T, i).s
      vt == IF HasVal(T, i) THEN Val(T, i).t ELSE "?"
      no == [ D |-> D, bad |-> TRUE, at |-> BadAt(T, i) ]
      go(E) == SrvDir(E, env, T, i + 3)
      num == IF vt = "INT" THEN IntVal(v) ELSE -1
  IN CASE t \in {"EOL", "EOF"} -> [ D |-> D, bad |-> FALSE, at |-> i ]
       [] t \in {"COREDUMP", "KEEPALIVE", "LOOPBACK", "TCPWRAPPERS"} ->
            IF vt \notin {"ON", "OFF"} THEN no
            ELSE LET b == vt = "ON" IN
                 CASE t = "COREDUMP" -> go([ D EXCEPT !.sv.core = b ])
                   [] t = "KEEPALIVE" -> go([ D EXCEPT !.sv.keep = b ])
                   [] t = "LOOPBACK" -> go([ D EXCEPT !.sv.loop = b ])
                   [] OTHER -> go([ D EXCEPT !.sv.wrap = b ])
       [] t = "COREDUMPDIR" ->
            IF vt # "STR" THEN no
            ELSE IF IsBlank(v) THEN go([ D EXCEPT !.sv.coredir = "" ])
            ELSE IF Is(env, Abs(env, v), "dir") THEN go([ D EXCEPT !.sv.coredir = Abs(env, v) ]) ELSE no
       [] t = "EXECPATH" ->
            IF vt # "STR" \/ Len(v) >= 4096 THEN no ELSE go([ D EXCEPT !.sv.execpath = IF IsBlank(v) THEN "" ELSE v ])
       [] t = "LOGDIR" ->
            IF vt # "STR" THEN no ELSE go([ D EXCEPT !.sv.logdir = IF IsBlank(v) THEN env.cwd ELSE Abs(env, v) ])
       [] t = "LOGFILE" ->
            IF ~IsText(T, i) THEN no
            ELSE LET p == InDir(D, v)  c == LastComma(p)
                 IN IF c = 0 THEN go([ D EXCEPT !.sv.logfile = p ])
                    ELSE IF Upper(TrimL(Drop(p, c))) \in Priorities
                    THEN go([ D EXCEPT !.sv.logfile = Take(p, c - 1), !.sv.level = Upper(TrimL(Drop(p, c))) ]) ELSE no
       [] t = "NOFILE" -> IF vt # "INT" THEN no ELSE go([ D EXCEPT !.sv.nofile = num ])
       [] t = "PIDFILE" -> IF ~IsText(T, i) THEN no ELSE go([ D EXCEPT !.sv.pidfile = IF D.fixed.pid # "" THEN @ ELSE Abs(env, v) ])
       [] t = "PORT" -> IF vt # "INT" \/ num \notin 0 .. 65535 THEN no
                        ELSE go([ D EXCEPT !.sv.port = IF D.fixed.port >= 0 THEN @ ELSE num ])
       [] t = "RESETCMD" -> IF ~IsText(T, i) \/ Has(v, "&") THEN no ELSE go([ D EXCEPT !.sv.reset = v ])
       [] t = "SYSLOG" -> IF ~IsText(T, i) \/ Upper(TrimL(v)) \notin Facilities THEN no
                          ELSE go([ D EXCEPT !.sv.syslog = Upper(TrimL(v)) ])
       [] t = "TIMESTAMP" ->
            IF vt # "INT" \/ num < 0 THEN no
            ELSE LET q == At(T, i + 3)
                     u == IF q.t \in {"EOL", "EOF"} THEN 1
                          ELSE IF q.t # "STR" THEN 0
                          ELSE CASE Upper(q.s) = "M" -> 1 [] Upper(q.s) = "H" -> 60 [] Upper(q.s) = "D" -> 1440 [] OTHER -> 0
                 IN IF u = 0 THEN [ D |-> D, bad |-> TRUE, at |-> i + 3 ]
                    ELSE IF num > 2147483647 \div u THEN [ D |-> D, bad |-> TRUE, at |-> i + 3 ]
                    ELSE LET E == [ D EXCEPT !.sv.stamp = num * u ]
                         IN IF IsEnd(T, i + 3) THEN [ D |-> E, bad |-> FALSE, at |-> i + 3 ] ELSE SrvDir(E, env, T, i + 4)
       [] OTHER -> [ D |-> D, bad |-> TRUE, at |-> i ]

Err(D, ln) == [ D EXCEPT !.errs = Append(@, ln) ]
RECURSIVE Directives(_, _, _, _)
Directives(D, env, T, i) ==
  LET t == At(T, i).t IN
  CASE t = "EOF" -> D
    [] t = "EOL" -> Directives(D, env, T, i + 1)
    [] t = "ERR" -> Directives(Err(D, At(T, i).ln), env, T, i + 1)
    [] t \in {"CONSOLE", "GLOBAL", "SERVER"} ->
         LET r == CASE t = "CONSOLE" -> ConDir(D, env, T, i + 1)
                    [] t = "GLOBAL" -> GlobDir(D, T, i + 1)
                    [] OTHER -> SrvDir([ D EXCEPT !.fixed = [ port |-> D.sv.port, pid |-> D.sv.pidfile ] ], env, T, i + 1)
             E == IF r.bad THEN Err(r.D, At(T, r.at).ln) ELSE r.D
         IN Directives(E, env, T, EndOf(T, r.at) + 1)
    [] OTHER -> Directives(Err(D, At(T, i).ln), env, T, EndOf(T, i) + 1)

Start(env, fixed) ==
  [ cons |-> <<>>, errs |-> <<>>, fixed |-> fixed,
    gl |-> [ log |-> "", lo |-> [ san |-> FALSE, ts |-> FALSE, lock |-> TRUE ], so |-> [ bps |-> 9600, db |-> 8, par |-> "N", sb |-> 1 ],
             io |-> [ u |-> "-", p |-> "-", k |-> "-", l |-> -1, c |-> -1, w |-> WDefault ] ],
    sv |-> [ core |-> FALSE, coredir |-> "", execpath |-> "", keep |-> TRUE, logdir |-> env.cwd, logfile |-> "", level |-> "INFO",
             loop |-> TRUE, nofile |-> 0, pidfile |-> fixed.pid, port |-> fixed.port, reset |-> "", syslog |-> "", wrap |-> FALSE, stamp |-> 0 ] ]
PortOf(sv) == IF sv.port < 0 THEN 7890 ELSE sv.port
Parse(text, env, fixed) == Directives(Start(env, fixed), env, Toks(text, 1, 1, <<>>), 1)
=============================================================================
