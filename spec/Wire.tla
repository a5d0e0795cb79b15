-------------------------------- MODULE Wire --------------------------------
(* What is said over the wire is what is understood: for every text made of  *)
(* printable characters (all of them, in all short combinations, and the     *)
(* ones that matter in longer ones), requests and replies are read as they   *)
(* were meant, by the rules both programs are checked against.               *)
EXTENDS Client
CONSTANTS PairMax, LongMax, Part, Parts
VARIABLES s, t

PrintSet == { Byte(i) : i \in 32 .. 126 }
Odd == {"a", "'", "\"", "#", "\\", "=", " ", "0", ",", "%"}
RECURSIVE Words(_, _)
Words(A, n) == IF n = 0 THEN {""} ELSE { x \o c : x \in Words(A, n - 1), c \in A }
Keyw == {"OK", "ERROR", "CONSOLE", "OPTION=RESET", "RESET", "MESSAGE", "CODE=7", "USER", "TTY=", "HELLO", "QUERY", "EOF"}
Texts == (UNION { Words(PrintSet, n) : n \in 1 .. PairMax }) \cup (UNION { Words(Odd, n) : n \in 3 .. LongMax }) \cup Keyw

RECURSIVE Hash(_, _, _)
Hash(x, i, h) == IF i > Len(x) THEN h ELSE Hash(x, i + 1, (h * 31 + Ord[Chr(x, i)]) % 65521)
Init == s \in { x \in Texts : Hash(x, 1, 7) % Parts = Part } /\ t = ""
Next == t = "" /\ s' = s /\ t' \in {"a", "'", "it's", "\"", "x y", "CONSOLE", "#"}
Spec == Init /\ [][Next]_<<s, t>>

Names == IF t = "" THEN <<s>> ELSE <<s, t>>
Quoted(k, x) == " " \o k \o "='" \o Encode(x) \o "'"
ConsText == Join([ i \in 1 .. Len(Names) |-> Quoted("CONSOLE", Names[i]) ])

RequestRead == \A cmd \in {"QUERY", "CONNECT"} : \A opt \in {{}, {"REGEX", "BROADCAST"}} :
  Request(cmd \o (IF opt = {} THEN "" ELSE " OPTION=REGEX OPTION=BROADCAST") \o ConsText \o "\n")
    = [ cmd |-> cmd, pats |-> Names, opt |-> opt ]
GreetingRead == Greeting("HELLO" \o Quoted("USER", s) \o (IF t = "" THEN "" ELSE Quoted("TTY", t)) \o "\n") = <<s, t>>
ReplyRead == \A reset \in BOOLEAN :
  LET r == Reply(Lex("OK" \o (IF reset THEN " OPTION=RESET" ELSE "") \o ConsText \o "\n"), 1)
  IN r.ok /\ r.cons = Names /\ r.reset = reset
ErrorRead == LET r == Reply(Lex(ErrLine(7, s \o t)), 1) IN ~r.ok /\ r.code = 7 /\ r.text = s \o t
=============================================================================
