----------------------------- MODULE MCControl ------------------------------
(* What conmand does, call by call, to see to it that one daemon at most     *)
(* runs with a configuration and that requests reach it: it opens the file,  *)
(* places a read lock, tests whether a write lock would be refused, binds    *)
(* the port, writes the process id file, serves, and in the end removes the  *)
(* process id file, gives up the lock and closes the port.  Any number of    *)
(* these can be under way at once; any can be killed; the file can be        *)
(* replaced.  Everything that can happen has to be allowed by Control.       *)
EXTENDS Control, TLC

CONSTANTS N, Edits, Crashes, Stales, Hups, BufMax, ReplayMax
VARIABLES A,        \* where each process is: pc, the edition it has open, whether it holds the lock, whom it means
          order,    \* the processes in the order in which they placed their locks
          port,     \* who holds the port, 0 nobody
          left,     \* <<edits, crashes, other process id files>> that may still come
          bad
vars == <<P, gen, pf, A, order, port, left, bad>>

Lockers(e, p) == { q \in Ids \ {p} : A[q].lk /\ A[q].ed = e }
(* This system names the one that has held its lock for longest. *)
Before(q, u) == \E i, j \in 1 .. Len(order) : i < j /\ order[i] = q /\ order[j] = u
Oldest(L) == CHOOSE q \in L : \A u \in L \ {q} : Before(q, u)
Free(q) == IF port = q THEN 0 ELSE port
Kinds == { <<"start", own, FALSE, fg>> : own \in BOOLEAN, fg \in BOOLEAN }
         \cup { <<k, FALSE, named, TRUE>> : k \in {"term", "query"} \cup (IF Hups THEN {"hup"} ELSE {}), named \in BOOLEAN }

MInit == Init /\ A = <<>> /\ order = <<>> /\ port = 0 /\ left = <<Edits, Crashes, Stales>> /\ bad = ""
(* g: what Control says about it *)
Must(g, what, x) == IF g THEN x /\ bad' = bad ELSE bad' = what /\ UNCHANGED <<P, gen, pf>>
At(p, pc) == A[p].pc = pc
To(p, pc) == A' = [ A EXCEPT ![p].pc = pc ]

Begin == /\ Len(P) < N
         /\ \E x \in Kinds :
              /\ Len(P) = 0 => x[1] = "start"
              /\ Spawn(Len(P) + 1, x[1], x[2], x[3], x[4], pf)
         /\ A' = Append(A, [ pc |-> "open", ed |-> 0, lk |-> FALSE, to |-> 0 ])
         /\ UNCHANGED <<port, left, bad>>
Open(p) == /\ At(p, "open")
           /\ A' = [ A EXCEPT ![p].ed = gen, ![p].pc = IF P[p].k = "start" THEN "lock" ELSE "find" ]
           /\ Step(p, pf) /\ UNCHANGED <<port, left, bad>>
(* a daemon *)
Lock(p) == At(p, "lock") /\ A' = [ A EXCEPT ![p].lk = TRUE, ![p].pc = "test" ] /\ order' = Append(order, p) /\ Step(p, pf) /\ UNCHANGED <<port, left, bad>>
Test(p) == At(p, "test") /\ To(p, IF Lockers(A[p].ed, p) # {} THEN "fail" ELSE "bind") /\ Step(p, pf) /\ UNCHANGED <<port, left, bad>>
Bind(p) == /\ At(p, "bind")
           /\ To(p, IF port # 0 THEN "fail" ELSE IF P[p].own THEN "rm" ELSE "told")
           /\ port' = IF port # 0 THEN port ELSE p
           /\ Step(p, pf) /\ UNCHANGED <<left, bad>>
Rm(p) == At(p, "rm") /\ To(p, "write") /\ Step(p, 0) /\ UNCHANGED <<port, left, bad>>
Write(p) == At(p, "write") /\ To(p, "told") /\ Step(p, p) /\ UNCHANGED <<port, left, bad>>
Told(p) == /\ At(p, "told")
           /\ To(p, "ready")
           /\ IF P[p].fg THEN Step(p, pf) /\ bad' = bad ELSE Must(CanRet(p, 0, 0, FALSE), "ret", Ret(p, 0, 0, FALSE, pf))
           /\ UNCHANGED <<port, left>>
Ready(p) == At(p, "ready") /\ To(p, "up") /\ Must(CanUp(p, pf), "up", GoUp(p, pf)) /\ UNCHANGED <<port, left>>
Unlink(p) == At(p, "up") /\ P[p].ph = "term" /\ To(p, "free") /\ Step(p, IF P[p].own THEN 0 ELSE pf) /\ UNCHANGED <<port, left, bad>>
Unlock(p) == At(p, "free") /\ A' = [ A EXCEPT ![p].lk = FALSE, ![p].pc = "close" ] /\ Step(p, pf) /\ UNCHANGED <<port, left, bad>>
Close(p) == At(p, "close") /\ To(p, "fin") /\ port' = Free(p) /\ Step(p, pf) /\ UNCHANGED <<left, bad>>
End(p) == /\ A[p].pc \in {"fail", "fin"}
          /\ A' = [ A EXCEPT ![p].lk = FALSE, ![p].pc = IF P[p].ret = -1 THEN (IF @ = "fail" THEN "ret1" ELSE "ret0") ELSE "gone" ]
          /\ Must(CanGo(p, pf), "go", Go(p, pf)) /\ UNCHANGED <<port, left>>
Result(p) == /\ A[p].pc \in {"ret0", "ret1"}
             /\ To(p, "gone")
             /\ LET rc == IF At(p, "ret1") THEN 1 ELSE 0
                    out == IF P[p].k = "query" /\ rc = 0 THEN A[p].to ELSE 0
                IN Must(CanRet(p, rc, out, rc # 0), "result", Ret(p, rc, out, rc # 0, pf))
             /\ UNCHANGED <<port, left>>
(* a request *)
Find(p) == /\ At(p, "find")
           /\ LET L == Lockers(A[p].ed, p)
              IN IF L # {} THEN A' = [ A EXCEPT ![p].to = Oldest(L), ![p].pc = "kill" ]
                 ELSE IF ~P[p].named \/ pf = 0 THEN To(p, "fail")
                 ELSE A' = [ A EXCEPT ![p].to = pf, ![p].pc = "kill" ]
           /\ Step(p, pf) /\ UNCHANGED <<port, left, bad>>
Kill(p) == /\ At(p, "kill")
           /\ LET q == A[p].to   s == Sigs(P[p].k)
                  r == IF q = -1 \/ P[q].ph = "gone" THEN ESRCH ELSE 0
              IN /\ Must(CanSig(p, q, s, r), "signal", Sig(p, q, s, r, pf))
                 /\ A' = [ A EXCEPT ![p].pc = IF r = 0 THEN "fin" ELSE "fail" ]
           /\ UNCHANGED <<port, left>>
(* One that is signalled before it is ready for signals is killed.           *)
Struck(p) == /\ P[p].k = "start" /\ P[p].crashed /\ P[p].ph = "run" /\ A[p].pc \in {"open", "lock", "test", "bind", "rm", "write", "told", "ready"}
             /\ A' = [ A EXCEPT ![p].pc = "fail", ![p].lk = FALSE ] /\ port' = Free(p) /\ UNCHANGED <<P, gen, pf, left, bad>>
Die(p) == /\ left[2] > 0 /\ P[p].k = "start" /\ A[p].pc \notin {"fail", "ret0", "ret1", "gone"} /\ ~P[p].crashed
          /\ left' = [ left EXCEPT ![2] = @ - 1 ]
          /\ A' = [ A EXCEPT ![p].pc = "fail", ![p].lk = FALSE ]
          /\ port' = Free(p)
          /\ Crash(p, pf) /\ UNCHANGED bad
Replace == left[1] > 0 /\ left' = [ left EXCEPT ![1] = @ - 1 ] /\ Edit(pf) /\ UNCHANGED <<A, port, bad>>
Other == left[3] > 0 /\ Live = {} /\ left' = [ left EXCEPT ![3] = @ - 1 ] /\ Stale(-1) /\ UNCHANGED <<A, port, bad>>

MNext == \/ \E p \in Ids : Lock(p)
         \/ (Begin \/ Replace \/ Other) /\ UNCHANGED order
         \/ \E p \in Ids : /\ UNCHANGED order
                         /\ \/ Open(p) \/ Test(p) \/ Bind(p) \/ Rm(p) \/ Write(p) \/ Told(p) \/ Ready(p) \/ Unlink(p) \/ Unlock(p)
                            \/ Close(p) \/ End(p) \/ Result(p) \/ Find(p) \/ Kill(p) \/ Struck(p) \/ Die(p)
Spec == MInit /\ [][MNext]_vars

(* ------------------------------------------------------------ what is checked *)
Allowed == bad = ""
OneLock == \A p, q \in Up : p # q => A[p].ed # A[q].ed
Right == FileRight /\ OneUp
(* When nothing more is under way, those in service are, and no others. *)
Quiet == (\A p \in Ids : A[p].pc \in {"gone", "up"} /\ P[p].ph # "term") =>
           CanEnd([ k \in 1 .. Cardinality(Live) |-> CHOOSE q \in Live : Cardinality({ u \in Live : u < q }) = k - 1 ], port # 0)
=============================================================================
