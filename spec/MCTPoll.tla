------------------------------ MODULE MCTPoll ------------------------------
(* How tpoll.c keeps the promises of TPoll: one thread in tpoll(), others    *)
(* that change what is waited for at every point where the lock is free, the *)
(* pipe that wakes the sleeper, and the array that grows under it.           *)
EXTENDS TPoll
CONSTANTS Ops,        \* changes by other threads
          Calls,      \* calls of tpoll()
          Ticks,      \* the clock's end
          Timers,     \* timers set
          BufMax, ReplayMax,   \* (not used)
          Fds         \* descriptors; those above 1 make the array grow
VARIABLES pc, now, tvnow, arr, rev, old, size, realloced, blocked, signaled, pipe, ptr, copy, wake, got, ready, nops, ncalls, nk, bad
impl == <<pc, now, tvnow, arr, rev, old, size, realloced, blocked, signaled, pipe, ptr, copy, wake, got, ready, nops, ncalls, nk, bad>>
T(n) == <<n, 0>>
Inf == -1
Due == IF tm = <<>> THEN Inf ELSE LET m == CHOOSE i \in 1..Len(tm) : \A j \in 1..Len(tm) : tm[i].at[1] <= tm[j].at[1] IN tm[m].at[1]
First == CHOOSE i \in 1..Len(tm) : /\ \A j \in 1..Len(tm) : tm[i].at[1] <= tm[j].at[1]
                                   /\ \A j \in 1..i - 1 : tm[j].at[1] > tm[i].at[1]

MInit == /\ Init /\ pc = "out" /\ now = 0 /\ tvnow = 0 /\ arr = {} /\ rev = {} /\ old = {} /\ size = 1 /\ realloced = FALSE
         /\ blocked = FALSE /\ signaled = FALSE /\ pipe = FALSE /\ ptr = 0 /\ copy = {} /\ wake = 0 /\ got = [fds |-> {}, pipe |-> FALSE]
         /\ ready = {} /\ nops = 0 /\ ncalls = 0 /\ nk = 1 /\ bad = <<>>

Must(g, x) == bad' = IF g THEN bad ELSE Append(bad, x)
Signal == IF blocked /\ ~signaled THEN pipe' = TRUE /\ signaled' = TRUE ELSE UNCHANGED <<pipe, signaled>>

(* ------------------------------------------- another thread, or the caller *)
(* in between: each operation holds the lock all along                       *)
Other ==
  /\ nops < Ops /\ nops' = nops + 1
  /\ UNCHANGED <<pc, now, tvnow, blocked, ptr, copy, wake, got, ready, ncalls, bad>>
  /\ \/ \E fd \in Fds \ arr :
          /\ Set(fd, {"i"})
          /\ arr' = arr \cup {fd}
          /\ rev' = rev \ {fd}                     \* what an earlier wait left there is not this one's
          /\ IF fd > size THEN size' = fd /\ realloced' = TRUE /\ old' = IF ptr = size THEN arr ELSE old
             ELSE UNCHANGED <<size, realloced, old>>
          /\ Signal /\ UNCHANGED nk
     \/ \E fd \in arr :
          /\ Clear(fd, {"i"})
          /\ arr' = arr \ {fd} /\ rev' = rev \ {fd}
          /\ Signal /\ UNCHANGED <<old, size, realloced, nk>>
     \/ /\ arr # {} /\ Zero(1)
        /\ arr' = {} /\ rev' = {} /\ Signal /\ UNCHANGED <<old, size, realloced, nk>>
     \/ /\ nk <= Timers
        /\ \E d \in 0..2 :
             /\ Timer(nk, nk, T(now + d))
             /\ nk' = nk + 1
             /\ IF tm = <<>> \/ now + d < Due THEN Signal ELSE UNCHANGED <<pipe, signaled>>
             /\ UNCHANGED <<arr, rev, old, size, realloced>>
     \/ \E i \in 1..Len(tm) :
          /\ Cancel(tm[i].id)
          /\ IF i = First THEN Signal ELSE UNCHANGED <<pipe, signaled>>
          /\ UNCHANGED <<arr, rev, old, size, realloced, nk>>

World == /\ \/ ready' \in SUBSET Fds /\ ready' # ready /\ Cardinality((ready' \ ready) \cup (ready \ ready')) = 1 /\ UNCHANGED now
            \/ now < Ticks /\ now' = now + 1 /\ UNCHANGED ready
         /\ UNCHANGED <<vars, pc, tvnow, arr, rev, old, size, realloced, blocked, signaled, pipe, ptr, copy, wake, got, nops, ncalls, nk, bad>>

(* ------------------------------------------------------- the one in tpoll() *)
Start == /\ pc = "out" /\ ncalls < Calls /\ ncalls' = ncalls + 1
         /\ \E ms \in {-1, 0, 1, 2} : Enter(ms, T(now), T(now + (IF ms > 0 THEN ms ELSE 0)))
         /\ pc' = "disp" /\ tvnow' = now
         /\ UNCHANGED <<now, arr, rev, old, size, realloced, blocked, signaled, pipe, ptr, copy, wake, got, ready, nops, nk, bad>>
Run == /\ pc = "disp" /\ tm # <<>> /\ Due <= tvnow
       /\ Must(FireOk(tm[First].k, T(now)), "fire")
       /\ Fire(tm[First].k)
       /\ UNCHANGED <<pc, now, tvnow, arr, rev, old, size, realloced, blocked, signaled, pipe, ptr, copy, wake, got, ready, nops, ncalls, nk>>
Until == LET d == Due IN
         CASE call.ms = 0 -> now
           [] call.ms < 0 /\ tm = <<>> -> IF arr # {} THEN Inf ELSE now
           [] call.ms < 0 -> d
           [] OTHER -> IF tm # <<>> /\ d <= call.till[1] THEN d ELSE call.till[1]
Ready == /\ pc = "disp" /\ ~(tm # <<>> /\ Due <= tvnow)
         /\ blocked' = TRUE /\ ptr' = size /\ wake' = Until /\ pc' = "gap"
         /\ UNCHANGED <<vars, now, tvnow, arr, rev, old, size, realloced, signaled, pipe, copy, got, ready, nops, ncalls, nk, bad>>
(* The kernel reads the array it was given: if that has been replaced, as it  *)
(* was then.                                                                 *)
Sleep == /\ pc = "gap" /\ pc' = "sleep"
         /\ copy' = IF ptr = size THEN arr ELSE old
         /\ UNCHANGED <<vars, now, tvnow, arr, rev, old, size, realloced, blocked, signaled, pipe, ptr, wake, got, ready, nops, ncalls, nk, bad>>
Asleep == pc = "sleep" /\ copy \cap ready = {} /\ ~pipe /\ (wake = Inf \/ now < wake)
Wake == /\ pc = "sleep" /\ ~Asleep /\ pc' = "back"
        /\ LET R == copy \cap ready IN
           /\ Kern(Cardinality(R), { <<fd, {"i"}>> : fd \in R })
           /\ got' = [fds |-> R, pipe |-> pipe]
           /\ rev' = IF ptr = size THEN (rev \ copy) \cup R ELSE rev      \* written where the kernel was told to
        /\ UNCHANGED <<now, tvnow, arr, old, size, realloced, blocked, signaled, pipe, ptr, copy, wake, ready, nops, ncalls, nk, bad>>
Drain == IF signaled THEN pipe' = FALSE /\ signaled' = FALSE ELSE UNCHANGED <<pipe, signaled>>
Back ==
  /\ pc = "back" /\ blocked' = FALSE /\ ptr' = 0
  /\ UNCHANGED <<now, arr, rev, old, size, copy, wake, got, ready, nops, ncalls, nk>>
  /\ IF realloced
     THEN realloced' = FALSE /\ Drain /\ pc' = "disp" /\ UNCHANGED <<vars, tvnow, bad>>
     ELSE /\ UNCHANGED realloced
          /\ IF got.pipe THEN Drain ELSE UNCHANGED <<pipe, signaled>>
          /\ LET n == Cardinality(got.fds) IN
             IF n > 0 \/ call.ms = 0 \/ (call.ms < 0 /\ arr = {} /\ tm = <<>>) \/ (call.ms > 0 /\ call.till[1] <= now)
             THEN Must(RetOk(n, T(now)), "ret") /\ Ret /\ pc' = "out" /\ UNCHANGED tvnow
             ELSE pc' = "disp" /\ tvnow' = now /\ UNCHANGED <<vars, bad>>

MNext == Other \/ World \/ Start \/ Run \/ Ready \/ Sleep \/ Wake \/ Back
MSpec == MInit /\ [][MNext]_<<vars, impl>>

(* ----------------------------------------------------------------- checked *)
Same == arr = DOMAIN ev
Kept == bad = <<>>
(* Whoever sleeps, sleeps for what is wanted now.                            *)
Rightly == Asleep => BlkOk(T(now), wake = Inf, T(wake), { <<fd, {"i"}>> : fd \in copy })
(* What a caller is told afterwards.                                         *)
Told == pc = "out" /\ ~realloced => \A fd \in Fds :
          LET got1 == IF fd \in arr /\ fd \in rev THEN {"i"} ELSE {} IN IsOk(fd, {"i"}, IF got1 = {} THEN 0 ELSE 1, got1)
Pipe == signaled = pipe
=============================================================================
