------------------------------- MODULE PdcPool -------------------------------
(***************************************************************************)
(* Thread pools: jobs are run once each, at most as many at once as there  *)
(* are threads, in the order they were added as far as that can be seen;   *)
(* who waits, waits for all jobs added before; a pool that is destroyed    *)
(* runs nothing more; pools do not affect each other.                      *)
(***************************************************************************)
EXTENDS PdcUtil
VARIABLES
  pool,    \* pool -> [n, up, paused, late]; late: starts since the pause
  job,     \* job -> [p, st, before]; before: jobs of the pool whose adding had ended when this one's began
  waiting, \* client -> [p, for] that waits
  asking   \* client -> jobs that have run since it began to ask how many threads work
pvars == <<pool, job, waiting, asking>>
PoolInit == pool = EmptyF /\ job = EmptyF /\ waiting = EmptyF /\ asking = EmptyF

Of(p, sts) == {j \in DOMAIN job : job[j].p = p /\ job[j].st \in sts}
Running(p) == Of(p, {"running"})
Undone(p) == Of(p, {"added", "running"})

Make(p, n) == /\ p \notin DOMAIN pool
              /\ pool' = Put(pool, p, [n |-> n, up |-> TRUE, paused |-> FALSE, late |-> 0])
              /\ UNCHANGED <<job, waiting, asking>>
AddBegin(p, j) == /\ p \in DOMAIN pool /\ j \notin DOMAIN job
                  /\ job' = Put(job, j, [p |-> p, st |-> "adding", before |-> Of(p, {"added"})])
                  /\ UNCHANGED <<pool, waiting, asking>>
(* it may have been started already; who waits for the job that added it waits for it too *)
AddEnd(p, j, parent) ==
                /\ j \in DOMAIN job
                /\ job' = [job EXCEPT ![j].st = IF @ = "adding" THEN "added" ELSE @]
                /\ waiting' = [c \in DOMAIN waiting |->
                                 [waiting[c] EXCEPT !.for = IF parent \in @ THEN @ \cup {j} ELSE @]]
                /\ UNCHANGED <<pool, asking>>
Start(p, j) ==
  /\ p \in DOMAIN pool /\ j \in DOMAIN job /\ job[j].p = p /\ job[j].st \in {"adding", "added"}
  /\ Cardinality(Running(p)) < pool[p].n
  (* those added before are started already, or their threads are about to *)
  /\ Cardinality({k \in job[j].before : job[k].st = "added"}) < pool[p].n
  (* a pool that is paused may start what its threads had already taken *)
  /\ (pool[p].paused => pool[p].late < pool[p].n)
  /\ pool' = [pool EXCEPT ![p].late = IF pool[p].paused THEN @ + 1 ELSE 0]
  /\ job' = [job EXCEPT ![j].st = "running"]
  /\ UNCHANGED <<waiting, asking>>
End(p, j) == /\ p \in DOMAIN pool /\ j \in DOMAIN job /\ job[j].p = p /\ job[j].st = "running"
             /\ job' = [job EXCEPT ![j].st = "done"]
             /\ asking' = [c \in DOMAIN asking |-> asking[c] \ {j}]
             /\ UNCHANGED <<pool, waiting>>
WaitBegin(c, p) == /\ p \in DOMAIN pool /\ pool[p].up /\ c \notin DOMAIN waiting
                   /\ waiting' = Put(waiting, c, [p |-> p, for |-> Undone(p)])
                   /\ UNCHANGED <<pool, job, asking>>
WaitEnd(c, p) == /\ c \in DOMAIN waiting /\ waiting[c].p = p
                 /\ \A j \in waiting[c].for : job[j].st = "done"
                 /\ waiting' = Drop(waiting, {c}) /\ UNCHANGED <<pool, job, asking>>
Pause(p) == p \in DOMAIN pool /\ pool' = [pool EXCEPT ![p].paused = TRUE, ![p].late = 0] /\ UNCHANGED <<job, waiting, asking>>
Resume(p) == p \in DOMAIN pool /\ pool' = [pool EXCEPT ![p].paused = FALSE] /\ UNCHANGED <<job, waiting, asking>>
DestroyBegin(p) == /\ p \in DOMAIN pool /\ pool[p].up /\ \A c \in DOMAIN waiting : waiting[c].p # p
                   /\ pool' = [pool EXCEPT ![p].up = FALSE, ![p].paused = FALSE] /\ UNCHANGED <<job, waiting, asking>>
(* what was started has ended; the rest is dropped *)
DestroyEnd(p) == /\ p \in DOMAIN pool /\ ~pool[p].up /\ Running(p) = {}
                 /\ pool' = Drop(pool, {p})
                 /\ job' = [j \in {k \in DOMAIN job : job[k].p # p} |-> job[j]]
                 /\ UNCHANGED <<waiting, asking>>
AskBegin(c, p) == /\ p \in DOMAIN pool /\ asking' = Put(asking, c, Running(p)) /\ UNCHANGED <<pool, job, waiting>>
AskEnd(c, p, n) == /\ p \in DOMAIN pool /\ c \in DOMAIN asking
                   /\ n >= Cardinality(asking[c]) /\ n <= pool[p].n
                   /\ asking' = Drop(asking, {c}) /\ UNCHANGED <<pool, job, waiting>>
=============================================================================
