------------------------------ MODULE MCConMan ------------------------------
(* Sessions on consoles: every way in which a few clients connect with every *)
(* kind of request, type, use escapes, read slowly, hang up and break, while *)
(* consoles say something, go down and come back.  The daemon is ConMan; its *)
(* writing and closing happens as soon as it may (for slow clients: at any   *)
(* time).  What the properties promise is stated on histories kept beside    *)
(* the state: they are not part of ConMan and say nothing about how.         *)
EXTENDS ConMan

CONSTANTS Clients, Slow, \* how many; how many of them read slowly
          Ops,           \* how many things happen
          Pre,           \* the first of them are sessions starting
          Escapes
VARIABLES S, G, left
vars == <<S, G, left>>

Ids == { ToString(i) : i \in 1 .. Clients }
Slows == { ToString(i) : i \in 1 .. Slow }
CC == {"1", "2"}
NameOf == [ c \in CC |-> IF c = "1" THEN "a" ELSE "b" ]
Cfg == [ cons |-> [ c \in CC |-> [ name |-> NameOf[c], kind |-> "serial", dev |-> "d", logged |-> TRUE, san |-> FALSE, ts |-> FALSE ] ],
         reset |-> FALSE, host |-> "h", rx |-> [ z \in {} |-> 0 ], zero |-> FALSE ]
TS == [ long |-> "L", short |-> "S", tz |-> "Z" ]

(* What consoles say and clients type occurs in no notice. *)
DataByte(i) == Byte(i)               \* 1..8: the n-th thing said
IsData == { Byte(i) : i \in 1 .. 8 }
Data(x) == FoldLeft(LAMBDA a, c : IF c \in IsData THEN a \o c ELSE a, "", Chars(x))
RECURSIVE Count(_, _, _)
Count(x, w, i) == IF i + Len(w) - 1 > Len(x) THEN 0
                  ELSE IF SubSeq(x, i, i + Len(w) - 1) = w THEN 1 + Count(x, w, i + Len(w)) ELSE Count(x, w, i + 1)
(* Writers who came, less writers who went, by what x says of console c.    *)
Told(x, c) == LET nm == "Console [" \o NameOf[c] \o "] " IN
  Count(x, nm \o "joined by", 1) + Count(x, nm \o "joined for B/C by", 1) + Count(x, nm \o "stolen by", 1)
  + Count(x, nm \o "stolen for B/C by", 1) - Count(x, nm \o "departed by", 1)
(* What was added at the end of a, which may also have lost its beginning.  *)
Added(a, b) == IF Len(b) > Len(a) THEN Drop(b, Len(a)) ELSE ""

NewG == [ got |-> [ k \in Ids |-> "" ], due |-> [ k \in Ids |-> "" ],            \* delivered to k; said while k was attached
          typed |-> [ c \in CC |-> "" ], wrote |-> [ c \in CC |-> "" ],
          said |-> [ c \in CC |-> "" ], logged |-> [ c \in CC |-> "" ],
          cnt |-> [ c \in CC |-> 0 ],                                          \* writers by the log
          view |-> [ k \in Ids |-> [ c \in CC |-> -1 ] ],                      \* writers by what k was told; -1 not following
          how |-> [ k \in Ids |-> "" ],                                          \* how k last asked for access
          race |-> FALSE, wrong |-> FALSE, n |-> 0 ]

(* The daemon writes and closes.  X = [S, G]. *)
Flush(X) ==
  LET T == X.S
      cw == { c \in CC : T.con[c].st = "up" /\ T.con[c].out # "" }
      lw == { c \in CC : T.log[c].open /\ T.log[c].out # "" }
      kw == { k \in DOMAIN T.cli : k \notin Slows /\ T.cli[k].st = "run" /\ T.cli[k].out # "" /\ (~T.cli[k].susp \/ T.cli[k].eof) }
  IN [ S |-> [ T EXCEPT !.con = [ c \in CC |-> [ (IF c \in cw THEN ConWrite(T, c, T.con[c].out).con[c] ELSE @[c]) EXCEPT !.brk = 0 ] ],
                        !.log = [ c \in CC |-> IF c \in lw THEN LogWrite(T, c, T.log[c].out).log[c] ELSE @[c] ],
                        !.cli = [ k \in DOMAIN T.cli |-> IF k \in kw THEN CliWrite(T, k, T.cli[k].out).cli[k] ELSE @[k] ] ],
       G |-> [ X.G EXCEPT !.wrote = [ c \in CC |-> IF c \in cw THEN @[c] \o Data(T.con[c].out) ELSE @[c] ],
                          !.logged = [ c \in CC |-> IF c \in lw THEN @[c] \o Data(T.log[c].out) ELSE @[c] ],
                          !.got = [ k \in Ids |-> IF k \in kw THEN @[k] \o Data(T.cli[k].out) ELSE @[k] ] ] ]
Here(T, c) == T.con[c].rd \cup { T.con[c].wr[i] : i \in 1 .. Len(T.con[c].wr) }
(* One action T -> U: what it says, to whom, and who follows. *)
Note(T, U, H) ==
  LET add(k) == IF k \in DOMAIN T.cli THEN Added(T.cli[k].out, U.cli[k].out) ELSE U.cli[k].out
      follow(k, c) == LET new == k \in Here(U, c) /\ (H.view[k][c] = -1 \/ k \notin Here(T, c)) /\ ~U.cli[k].q
                          quiet == k \in DOMAIN T.cli /\ (T.cli[k].q \/ U.cli[k].q)
                      IN IF k \notin Here(U, c) \/ quiet THEN -1
                         ELSE IF new THEN Len(U.con[c].wr)
                         ELSE H.view[k][c] + (IF Count(add(k), "Begin log replay", 1) > 0 THEN 0 ELSE Told(add(k), c))
      racing(c) == \E i \in 2 .. Len(U.con[c].wr) : U.con[c].wr[i] \notin { T.con[c].wr[j] : j \in 1 .. Len(T.con[c].wr) }
                                                     /\ H.how[U.con[c].wr[i]] \notin {"join", "force"}
  IN [ H EXCEPT !.cnt = [ c \in CC |-> @[c] + Told(Added(T.log[c].out, U.log[c].out), c) ],
                !.view = [ k \in Ids |-> [ c \in CC |-> IF k \in DOMAIN U.cli THEN follow(k, c) ELSE -1 ] ],
                !.race = @ \/ \E c \in CC : racing(c) ]
Act(X, U) == Flush([ S |-> U, G |-> Note(X.S, U, X.G) ])
RECURSIVE Settle(_)
Settle(X) ==
  LET done == { k \in DOMAIN X.S.cli : X.S.cli[k].st # "gone" /\ X.S.cli[k].rsp = "" /\ CliCloseOk(X.S, k) }
      down == { c \in CC : ConCloseOk(X.S, c) }
  IN IF done # {} THEN LET k == CHOOSE k \in done : \A u \in done : Ord[u] <= Ord[k] IN Settle(Act(X, CliClose(X.S, k)))
     ELSE IF down # {} THEN LET c == CHOOSE c \in down : TRUE IN Settle(Act(X, ConClose(X.S, c)))
     ELSE X
Do(U, H) == LET X == Settle(Act([ S |-> S, G |-> H ], U)) IN S' = X.S /\ G' = X.G
Spend == left > 0 /\ left' = left - 1

UpBoth == LET T == InitState(Cfg, TS)
              U == LogOpen(LogOpen(Try(Try(T, "1", "ok", ""), "2", "ok", ""), "1", 0), "2", 0)
          IN Flush([ S |-> U, G |-> NewG ])
Requests == { "CONNECT CONSOLE='a'", "CONNECT OPTION=JOIN CONSOLE='a'", "CONNECT OPTION=FORCE CONSOLE='a'", "MONITOR CONSOLE='a'",
              "CONNECT OPTION=QUIET CONSOLE='b'", "CONNECT OPTION=BROADCAST CONSOLE='*'", "CONNECT OPTION=FORCE OPTION=BROADCAST CONSOLE='*'",
              "CONNECT OPTION=JOIN OPTION=BROADCAST CONSOLE='*'" }
How(r) == IF Count(r, "FORCE", 1) > 0 THEN "force" ELSE IF Count(r, "JOIN", 1) > 0 THEN "join" ELSE "ask"
Init == /\ LET X == UpBoth IN S = X.S /\ G = X.G
        /\ left = Ops
(* A client comes and asks; the answer takes its time. *)
Come == /\ Cardinality(DOMAIN S.cli) < Clients /\ Spend
        /\ \E r \in Requests :
             LET k == ToString(Cardinality(DOMAIN S.cli) + 1)
                 B == HsRead(Accept(S, k), k, "HELLO USER='u" \o k \o "'\n")
                 C == HsRead(CliWrite(B, k, B.cli[k].rsp), k, r \o "\n")
             IN Do(C, [ G EXCEPT !.how[k] = How(r),
                            !.wrong = @ \/ (C.cli[k].next = "link" /\ ~StillFree(C, k)) ])
Answered(k) ==                       \* the answer has gone out
  /\ S.cli[k].st \in {"greet", "req"} /\ S.cli[k].rsp # "" /\ Spend
  /\ Do(CliWrite(S, k, S.cli[k].rsp \o BusyText(S, S.cli[k].busy)), G)
Say(c) == /\ ConReadOk(S, c) /\ Spend /\ G.n < 8
          /\ LET d == DataByte(G.n + 1)
             IN Do(ConRead(S, c, <<d>>), [ G EXCEPT !.n = @ + 1, !.said[c] = @ \o d,
                                             !.due = [ k \in Ids |-> IF k \in S.con[c].rd THEN @[k] \o d ELSE @[k] ] ])
Type(k) == /\ CliReadOk(S, k) /\ ~S.cli[k].eof /\ Spend /\ G.n < 8
           /\ LET d == DataByte(G.n + 1)
                  w == { c \in CC : InSeq(k, S.con[c].wr) }
              IN Do(CliReadA(S, k, <<d>>, <<>>, "").S, [ G EXCEPT !.n = @ + 1, !.typed = [ c \in CC |-> IF c \in w THEN @[c] \o d ELSE @[c] ] ])
Esc(k) == /\ CliReadOk(S, k) /\ ~S.cli[k].eof /\ Spend
          /\ \E x \in Escapes :
               Do(CliReadA(S, k, <<ESC, x>>, <<>>, "").S,
                  \* what counts is how k got access: while it has it, asking again changes nothing
                  [ G EXCEPT !.how[k] = IF \E c \in CC : InSeq(k, S.con[c].wr) THEN @ ELSE CASE x = "F" -> "force" [] x = "J" -> "join" [] OTHER -> @,
                            \* a replay says the end of the log once more
                            !.due[k] = IF x = "L" /\ CurCon(S, k) # {} THEN @ \o Data(S.log[CHOOSE c \in CurCon(S, k) : TRUE].tail) ELSE @ ])
Take1(k) == /\ k \in Slows /\ S.cli[k].st = "run" /\ S.cli[k].out # "" /\ CliWriteOk(S, k, S.cli[k].out) /\ (~S.cli[k].susp \/ S.cli[k].eof) /\ Spend
            /\ Do(CliWrite(S, k, S.cli[k].out), [ G EXCEPT !.got[k] = @ \o Data(S.cli[k].out) ])
Leave(k) == CliEofOk(S, k) /\ ~S.cli[k].eof /\ Spend /\ Do(CliEof(S, k), G)
Break2(k) == S.cli[k].st \notin {"gone"} /\ ~S.cli[k].dead /\ Spend /\ Do(CliFail(S, k), G)
Down(c) == S.con[c].st = "up" /\ ~S.con[c].err /\ Spend /\ Do(ConFail(S, c), G)
Retry(c) == /\ TryOk(S, c) /\ (IF S.con[c].by # "" THEN left' = left ELSE Spend)
            /\ \E r \in {"ok", "no"} : Do(Try(S, c, r, ""), G)
(* The attempt a session makes when it starts comes before all else.        *)
Starting == { c \in CC : S.con[c].by # "" }
Next == IF Starting # {} THEN \E c \in Starting : Retry(c)
        ELSE \/ Come
             \/ \E k \in DOMAIN S.cli : Answered(k)
             \/ /\ Ops - left >= Pre
                /\ \/ \E k \in DOMAIN S.cli : Type(k) \/ Esc(k) \/ Take1(k) \/ Leave(k) \/ Break2(k)
                   \/ \E c \in CC : Say(c) \/ Down(c) \/ Retry(c)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ what is promised *)
Writers(c) == { S.con[c].wr[i] : i \in 1 .. Len(S.con[c].wr) }
(* S01: what was said while attached has been delivered or is on its way.   *)
Delivered == \A k \in DOMAIN S.cli : S.cli[k].st = "run" => G.got[k] \o Data(S.cli[k].out) = G.due[k]
             \* unless it has been told that its session is over
                                                            \/ (S.cli[k].eof /\ StartsWith(G.due[k], G.got[k] \o Data(S.cli[k].out)))
DeliveredAll == \A k \in Ids : StartsWith(G.due[k], G.got[k])
(* S02 *)
InputRight == \A c \in CC : G.wrote[c] \o Data(S.con[c].out) = G.typed[c]
(* S03: a second writer has asked to join, or is the race of two requests.  *)
Exclusive == G.race \/ \A c \in CC : \A i \in 2 .. Len(S.con[c].wr) : G.how[S.con[c].wr[i]] = "join"
Asked == ~G.wrong                    \* nobody is let in who should have been refused
NoRace == ~G.race
(* S04 *)
Attachments ==
  \A k \in DOMAIN S.cli :
    LET cl == S.cli[k]
        r == { c \in CC : k \in S.con[c].rd }
        w == { c \in CC : InSeq(k, S.con[c].wr) }
    IN /\ cl.st # "run" => r = {} /\ w = {}
       /\ w = { cl.wrs[i] : i \in 1 .. Len(cl.wrs) } /\ Cardinality(w) = Len(cl.wrs)
       /\ Cardinality(r) <= 1 /\ (cl.st = "run" /\ cl.bc => r = {}) /\ (r # {} => w \subseteq r)
       /\ cl.st = "run" /\ ~cl.eof => r \cup w # {} \/ cl.todo # <<>>
       /\ cl.st = "run" /\ (cl.dead \/ (cl.eof /\ cl.out = "")) => FALSE
NoTwice == \A c \in CC : Cardinality(Writers(c)) = Len(S.con[c].wr)
(* S05: the log, and every session that wants to know, knows the writers.   *)
LogKnows == \A c \in CC : G.cnt[c] = Len(S.con[c].wr)
AllKnow == \A k \in DOMAIN S.cli : \A c \in CC :
  G.view[k][c] >= 0 /\ ~S.cli[k].eof /\ S.cli[k].st = "run" => G.view[k][c] = Len(S.con[c].wr)
(* L01 *)
InLog == \A c \in CC : G.logged[c] = G.said[c]
(* Nobody waits for ever: what keeps the daemon from waiting can be done.   *)
CanGoOn == \A k \in DOMAIN S.cli : ~CliIdle(S, k, FALSE) =>
             \/ S.cli[k].rsp # "" \/ S.cli[k].busy # <<>>
             \/ S.cli[k].st = "run" /\ S.cli[k].out # "" /\ CliWriteOk(S, k, S.cli[k].out)
             \/ CliCloseOk(S, k)
             \/ S.cli[k].todo # <<>> /\ \E c \in CC : S.con[c].by = k /\ TryOk(S, c)
ConGoesOn == \A c \in CC : ~ConIdle(S, c, FALSE) =>
             TryOk(S, c) \/ ConCloseOk(S, c) \/ (S.con[c].out # "" /\ ConWriteOk(S, c, S.con[c].out))
=============================================================================
