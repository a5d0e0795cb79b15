---------------------------- MODULE MCConfig -----------------------------
(* Every configuration of up to MaxLines directives from a pool.                 *)
EXTENDS Config
CONSTANTS MaxLines, Part, Parts, BufMax, ReplayMax

Pool == <<
  "console name=\"a\" dev=\"unix:/s/u0\" log=\"%N\"\n",
  "console name=\"a\" dev=\"h:2000\" log=\"l/x\"\n",
  "console name=\"b\" dev=\"UNIX:/s/u0\" log=\"/w/a\"\n",
  "CONSOLE dev='h:2000' name=b logopts=\"sanitize,nolock\"\n",
  "console name=\"c\" dev=\"/t0\" seropts=\"1200,7e2\" log=\"\"\n",
  "console name=\"d\" dev=\"/t0\" log=\"l/x\"\n",
  "console name=\"d\" dev=\"/t1\" seropts=\"foo\"\n",
  "console name=\"e\" dev=\"p 'x %N' \\\"%N\\\"\"\n",
  "console name=\"f\" dev=\"ipmi:m\" ipmiopts=\"u:x,k:0xff\" log=\"%N%D\"\n",
  "console name=\"g\" dev=\"ipmi:m\" # twice\n",
  "console name=\"h\"\n",
  "console name= dev=\"unix:/s/u1\"\n",
  "console name=\"i\" dev=\"unix:/s/u1\" log=\"%D\" \\\n logopts=\"timestamp\"\n",
  "global log=\"g.%N\"\n",
  "global log=\"none\"\n",
  "global logopts=\"sanitize\" seropts=\"300\" log=\"a%N&\"\n",
  "global seropts=\"19200,5o2\" ipmiopts=\"joe,pw\"\n",
  "server logdir=\"/w\"\n",
  "server execpath=\"/pb\" keepalive=off\n",
  "server execpath=\"/pa:/pb\" timestamp=5h port=1\n",
  "server port=99999 loopback=off\n",
  "server port=2 pidfile=\"p\" timestamp=1\n",
  "server timestamp=7x nofile=3\n",
  "frob \"x\n",
  "\n",
  "# console name=\"z\" dev=\"unix:/s/u1\"\r\n" >>
Env == [ cwd |-> "/d", sec |-> 0, fm |-> [ Y |-> "2020" ],
         x |-> ("/t0" :> "chr") @@ ("/t1" :> "chr") @@ ("/pa" :> "dir") @@ ("/pb" :> "dir") @@ ("/pa/p" :> "exe") @@ ("/pb/p" :> "exe") ]
Fixed == [ port |-> -1, pid |-> "" ]

VARIABLES ls, D                         \* the directives; what they mean
RECURSIVE TextOf(_)
TextOf(q) == IF q = <<>> THEN "" ELSE Pool[Head(q)] \o TextOf(Tail(q))
Of(q) == Parse(TextOf(q), Env, Fixed)
Init == ls = <<>> /\ D = Of(<<>>)
Next == \E n \in 1 .. Len(Pool) :
          /\ Len(ls) < MaxLines
          /\ (ls = <<>>) => n % Parts = Part
          /\ ls' = Append(ls, n)
          /\ D' = Of(ls')
Spec == Init /\ [][Next]_<<ls, D>>


(* No two consoles share a name, a local device, or a log file. *)
Unique == \A j, k \in 1 .. Len(D.cons) : j # k =>
            LET a == D.cons[j]  b == D.cons[k] IN
            /\ a.name # b.name
            /\ (a.kind = b.kind /\ a.kind \in {"unix", "serial", "ipmi"}) => a.dev # b.dev
            /\ (a.log # "" \/ b.log # "") => a.log # b.log
(* Errors are reported in order, each with the number of a line that exists, *)
(* and a file without any is read without.                                   *)
Errs == \A k \in 1 .. Len(D.errs) : D.errs[k] \in 1 .. 2 * Len(ls) /\ (k > 1 => D.errs[k - 1] <= D.errs[k])
Bad(D1, D2) == Len(D2.errs) > Len(D1.errs)
(* What follows does not change the consoles defined before; a console in    *)
(* error has no effect but the report.                                       *)
Later == [][ /\ SubSeq(D'.cons, 1, Len(D.cons)) = D.cons
             /\ SubSeq(D'.errs, 1, Len(D.errs)) = D.errs
             /\ Len(D'.errs) <= Len(D.errs) + 1
             /\ (ls'[Len(ls')] <= 13 /\ Bad(D, D')) => (D'.cons = D.cons /\ D'.gl = D.gl /\ D'.sv = D.sv)
             /\ (ls'[Len(ls')] <= 13 /\ ~Bad(D, D')) => (Len(D'.cons) = Len(D.cons) + 1 /\ D'.gl = D.gl /\ D'.sv = D.sv)
             /\ ls'[Len(ls')] > 13 => D'.cons = D.cons
             /\ ls'[Len(ls')] \in 14 .. 17 => D'.sv = D.sv
             /\ ls'[Len(ls')] >= 18 => D'.gl = D.gl
             /\ ls'[Len(ls')] >= 25 => (D'.cons = D.cons /\ D'.gl = D.gl /\ D'.sv = D.sv /\ D'.errs = D.errs) ]_<<ls, D>>
(* A console in error might as well not be there, whatever follows. *)
Without(k) == Of(SubSeq(ls, 1, k - 1) \o SubSeq(ls, k + 1, Len(ls)))
Refused(k) == Bad(Of(SubSeq(ls, 1, k - 1)), Of(SubSeq(ls, 1, k)))
Skipped == Len(ls) = MaxLines => \A k \in 1 .. Len(ls) - 1 : (ls[k] <= 13 /\ Refused(k)) =>
              LET W == Without(k) IN W.cons = D.cons /\ W.gl = D.gl /\ W.sv = D.sv
=============================================================================
