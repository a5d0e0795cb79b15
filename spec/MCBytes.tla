------------------------------ MODULE MCBytes -------------------------------
(* The byte-wise machines of ConMan - telnet, log lines, client input -      *)
(* against what they are for, said without machines, on every string up to  *)
(* MaxLen over the bytes that matter to each; and their results do not       *)
(* depend on how a string comes in pieces.                                   *)
EXTENDS ConMan

CONSTANTS What,          \* "telnet", "log" or "input"
          MaxLen, Part, Parts
VARIABLE s

Alphabet ==
  CASE What = "telnet" -> << "a", IAC, Byte(250), Byte(240), Byte(253), Byte(251), Byte(252), Byte(3), NUL >>
    [] What = "log" -> << "a", "\r", "\n", NUL, Byte(7), DEL, Byte(200), IAC, Byte(159) >>
    [] OTHER -> << "a", ESC, "D", "M", "J", "F", "Q", "Z", "X" >>
(* The work is split by the first byte. *)
Init == s \in { Alphabet[i] : i \in { j \in 1 .. Len(Alphabet) : j % Parts = Part } } \cup (IF Part = 0 THEN {""} ELSE {})
Next == s # "" /\ Len(s) < MaxLen /\ \E i \in 1 .. Len(Alphabet) : s' = s \o Alphabet[i]
Spec == Init /\ [][Next]_s

(* The same string as single bytes, and with its runs kept together. *)
Singles(x) == Chars(x)
RECURSIVE Runs(_, _, _, _)
Runs(x, cut, i, acc) ==              \* cut: bytes that stand alone
  IF i > Len(x) THEN acc
  ELSE LET c == Chr(x, i) IN
       IF acc = <<>> \/ c \in cut \/ acc[Len(acc)] \in cut THEN Runs(x, cut, i + 1, Append(acc, c))
       ELSE Runs(x, cut, i + 1, [ acc EXCEPT ![Len(acc)] = @ \o c ])

(* ------------------------------------------------------------ telnet *)
(* What is left when commands are taken out, and what is to be answered.    *)
RECURSIVE SkipSub(_)                 \* behind IAC SE
SkipSub(x) == IF x = "" THEN ""
              ELSE IF Chr(x, 1) # IAC THEN SkipSub(Drop(x, 1))
              ELSE IF Len(x) = 1 THEN "" ELSE IF Chr(x, 2) = Byte(240) THEN Drop(x, 2) ELSE SkipSub(Drop(x, 2))
RECURSIVE Plain(_), Asked(_)
Rest(x) == CASE Len(x) < 2 -> ""
             [] Chr(x, 2) = Byte(250) -> SkipSub(Drop(x, 2))
             [] Chr(x, 2) \in { Byte(n) : n \in 251 .. 254 } -> IF Len(x) < 3 THEN "" ELSE Drop(x, 3)
             [] OTHER -> Drop(x, 2)
Plain(x) == IF x = "" THEN ""
            ELSE IF Chr(x, 1) # IAC THEN Chr(x, 1) \o Plain(Drop(x, 1))
            ELSE (IF Len(x) > 1 /\ Chr(x, 2) = IAC THEN IAC ELSE "") \o Plain(Rest(x))
Asked(x) == IF x = "" THEN ""
            ELSE IF Chr(x, 1) # IAC THEN Asked(Drop(x, 1))
            ELSE (IF Len(x) < 3 THEN "" ELSE CASE Chr(x, 2) = Byte(253) -> DoReply(Ord[Chr(x, 3)])
                                              [] Chr(x, 2) = Byte(251) -> WillReply(Ord[Chr(x, 3)])
                                              [] OTHER -> "") \o Asked(Rest(x))
TelnetRight ==
  LET a == Telnet("data", Singles(s))   b == Telnet("data", Runs(s, {IAC}, 1, <<>>))
  IN /\ Join(a.data) = Plain(s)
     /\ a.reply = Asked(s)
     \* a run is passed on whole only in plain data, where it may follow a command
     /\ \A n \in 0 .. Len(s) : LET u == Telnet("data", Singles(Take(s, n)))
                                   v == Telnet(u.st, Runs(Drop(s, n), {IAC}, 1, <<>>))
                               IN Join(u.data) \o Join(v.data) = Join(a.data) /\ u.reply \o v.reply = a.reply /\ v.st = a.st
     /\ Join(b.data) = Join(a.data) /\ b.st = a.st /\ b.reply = a.reply
(* What goes out is read by the other side as what was meant. *)
TelnetSent == LET a == Telnet("data", Singles(Doubled(s))) IN Join(a.data) = s /\ a.st = "data" /\ a.reply = ""

(* ------------------------------------------------------------ log lines *)
LogOf(pieces, san, ts) == FoldLeft(LAMBDA a, x : LogPiece(a, x, san, IF ts THEN "<T>" ELSE ""), <<"INIT", "">>, pieces)
(* Lines as the console means them: ended by CR, LF, or CR LF (more returns *)
(* before the LF count for nothing), with padding NULs left out; an LF after  *)
(* an LF is an empty line.  Result: sequence of lines, the last one open.     *)
RECURSIVE LinesOf(_, _, _, _)
LinesOf(x, st, acc, san) ==          \* acc: lines; st: "line", "cr", "lf", "start"
  IF x = "" THEN acc
  ELSE LET c == Chr(x, 1)   r == Drop(x, 1)
           t == IF san THEN Sanitized(c) ELSE c IN
    CASE c = "\r" -> LinesOf(r, IF st \in {"line", "start"} THEN "cr" ELSE st, IF st = "start" THEN Append(acc, "") ELSE acc, san)
      [] c = "\n" -> LinesOf(r, "lf", IF st \in {"lf", "start"} THEN Append(acc, "") ELSE acc, san)
      [] c = NUL /\ st \in {"cr", "lf"} -> LinesOf(r, st, acc, san)
      [] OTHER -> LinesOf(r, "line", IF st = "line" THEN [ acc EXCEPT ![Len(acc)] = @ \o t ] ELSE Append(acc, t), san)
RECURSIVE Shown(_, _)
Shown(lines, stamp) ==
  IF lines = <<>> THEN "" ELSE stamp \o Head(lines) \o (IF Len(lines) > 1 THEN "\r\n" ELSE "") \o Shown(Tail(lines), stamp)
LogRight ==
  \A san \in BOOLEAN : \A ts \in BOOLEAN :
    LET a == LogOf(Singles(s), san, ts)
        b == LogOf(Runs(s, { Alphabet[i] : i \in 2 .. Len(Alphabet) }, 1, <<>>), san, ts)
        ls == LinesOf(s, "start", <<>>, san)
        e == Shown(ls, IF ts THEN "<T>" ELSE "")
    IN /\ a = b
       /\ a[2] = e \/ a[2] = e \o "\r\n"
       /\ (a[2] = e \o "\r\n" => a[1] = "LF")
       /\ san => \A i \in 1 .. Len(a[2]) : LET c == Chr(a[2], i) IN
            Printable1(c) \/ (c = "\r" /\ i < Len(a[2]) /\ Chr(a[2], i + 1) = "\n") \/ (c = "\n" /\ i > 1 /\ Chr(a[2], i - 1) = "\r")
(* The printable forms tell every byte apart from every other, but for those *)
(* that print like a two-byte form.                                          *)
FormsDiffer == \A i, j \in 0 .. 255 : i # j => Sanitized(Byte(i)) # Sanitized(Byte(j))

(* ------------------------------------------------------------ client input *)
Cfg == [ cons |-> [ c \in {"1"} |-> [ name |-> "x", kind |-> "serial", dev |-> "d", logged |-> FALSE, san |-> FALSE, ts |-> FALSE, opts |-> "" ] ],
         reset |-> FALSE, host |-> "h", rx |-> [ z \in {} |-> 0 ], zero |-> FALSE ]
TS == [ long |-> "L", short |-> "S", tz |-> "Z" ]
Start ==                             \* one session that reads and writes the console
  LET A == Try(InitState(Cfg, TS), "1", "ok", "")
      B == HsRead(Accept(A, "k"), "k", "HELLO USER='u'\n")
      C == HsRead(CliWrite(B, "k", B.cli["k"].rsp), "k", "CONNECT CONSOLE='x'\n")
      D == CliWrite(C, "k", C.cli["k"].rsp)
  IN CliWrite(D, "k", D.cli["k"].out)
Fed(S, pieces) == CliReadA(S, "k", pieces, <<>>, "").S
(* What reaches the console, what is left switched on. *)
RECURSIVE Meant(_, _)
Meant(x, a) ==                       \* a = <<text, may write, quiet, suspended>>
  IF x = "" THEN a
  ELSE LET put(t) == <<IF a[2] THEN a[1] \o t ELSE a[1], a[2], a[3], a[4]>> IN
    IF Chr(x, 1) # ESC THEN Meant(Drop(x, 1), put(Chr(x, 1)))
    ELSE IF Len(x) = 1 THEN a
    ELSE LET c == Chr(x, 2)   r == Drop(x, 2) IN
      CASE c = ESC -> Meant(r, put(ESC))
        [] c = "D" -> Meant(r, put(DEL))
        [] c = "M" -> Meant(r, <<a[1], FALSE, a[3], a[4]>>)
        [] c \in {"J", "F"} -> Meant(r, <<a[1], TRUE, a[3], a[4]>>)
        [] c = "Q" -> Meant(r, <<a[1], a[2], ~a[3], a[4]>>)
        [] c = "Z" -> Meant(r, <<a[1], a[2], a[3], ~a[4]>>)
        [] OTHER -> Meant(r, a)
S0 == Start
InputRight ==
  LET A == Fed(S0, Singles(s))
      m == Meant(s, <<"", TRUE, FALSE, FALSE>>)
  IN /\ A.con["1"].out = m[1] /\ (A.con["1"].wr # <<>>) = m[2] /\ A.cli["k"].q = m[3] /\ A.cli["k"].susp = m[4]
     /\ A.con["1"].rd = {"k"}
     /\ Fed(S0, Runs(s, {ESC}, 1, <<>>)) = A
     /\ \A n \in 1 .. Len(s) - 1 : Fed(Fed(S0, Runs(Take(s, n), {ESC}, 1, <<>>)), Runs(Drop(s, n), {ESC}, 1, <<>>)) = A

Right == CASE What = "telnet" -> TelnetRight /\ TelnetSent
           [] What = "log" -> LogRight /\ (s = "" => FormsDiffer)
           [] OTHER -> InputRight
=============================================================================
