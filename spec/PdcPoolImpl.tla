---------------------------- MODULE PdcPoolImpl ----------------------------
(***************************************************************************)
(* How a thread pool works: a queue, a binary semaphore that says whether  *)
(* there may be jobs, a count of the threads at work and the condition     *)
(* that it fell to zero.  One step is one critical section.  Two clients   *)
(* run scripts of adding jobs and waiting; the first destroys the pool     *)
(* when both are done with it.                                             *)
(***************************************************************************)
EXTENDS PdcUtil
CONSTANTS Threads, Script1, Script2
VARIABLES q, v, working, alive, keep, tpc, tjob, ran, cpc, at, mine, asleep, freed
vars == <<q, v, working, alive, keep, tpc, tjob, ran, cpc, at, mine, asleep, freed>>
Clients == {1, 2}
Script(c) == IF c = 1 THEN Script1 ELSE Script2
Jobs == {x \in SeqSet(Script1) \cup SeqSet(Script2) : x > 0}
S1 == <<1, 2, 0, 3, 0>>   \* a number is a job to add, 0 a wait
S2 == <<4, 0, 5>>
Init == /\ q = <<>> /\ v = 0 /\ working = 0 /\ alive = Cardinality(Threads) /\ keep = TRUE
        /\ tpc = [t \in Threads |-> "sem"] /\ tjob = [t \in Threads |-> 0] /\ ran = [j \in Jobs |-> "no"]
        /\ cpc = [c \in Clients |-> "op"] /\ at = [c \in Clients |-> 1] /\ mine = [c \in Clients |-> {}] /\ asleep = {} /\ freed = FALSE
go(t, l) == tpc' = [tpc EXCEPT ![t] = l]
C == <<cpc, at, mine>>
Sem(t) == tpc[t] = "sem" /\ v = 1 /\ v' = 0 /\ go(t, "check") /\ UNCHANGED <<q, working, alive, keep, tjob, ran, C, asleep, freed>>
Chk(t) == tpc[t] = "check" /\ go(t, IF keep THEN "inc" ELSE "leave") /\ UNCHANGED <<q, v, working, alive, keep, tjob, ran, C, asleep, freed>>
Inc(t) == tpc[t] = "inc" /\ working' = working + 1 /\ go(t, "pull") /\ UNCHANGED <<q, v, alive, keep, tjob, ran, C, asleep, freed>>
Pull(t) == /\ tpc[t] = "pull" /\ tjob' = [tjob EXCEPT ![t] = IF q = <<>> THEN 0 ELSE Head(q)]
           /\ q' = IF q = <<>> THEN q ELSE Tail(q)
           /\ v' = IF Len(q) > 1 THEN 1 ELSE v
           /\ go(t, IF q = <<>> THEN "dec" ELSE "start") /\ UNCHANGED <<working, alive, keep, ran, C, asleep, freed>>
Start(t) == tpc[t] = "start" /\ ran' = [ran EXCEPT ![tjob[t]] = IF @ = "no" THEN "runs" ELSE "twice"] /\ go(t, "end")
            /\ UNCHANGED <<q, v, working, alive, keep, tjob, C, asleep, freed>>
End(t) == tpc[t] = "end" /\ ran' = [ran EXCEPT ![tjob[t]] = IF @ = "runs" THEN "done" ELSE "twice"] /\ go(t, "dec")
            /\ UNCHANGED <<q, v, working, alive, keep, tjob, C, asleep, freed>>
Dec(t) == /\ tpc[t] = "dec" /\ working' = working - 1 /\ asleep' = (IF working = 1 THEN {} ELSE asleep) /\ go(t, "loop")
          /\ UNCHANGED <<q, v, alive, keep, tjob, ran, C, freed>>
Loop(t) == tpc[t] = "loop" /\ go(t, IF keep THEN "sem" ELSE "leave") /\ UNCHANGED <<q, v, working, alive, keep, tjob, ran, C, asleep, freed>>
Leave(t) == tpc[t] = "leave" /\ alive' = alive - 1 /\ go(t, "gone") /\ UNCHANGED <<q, v, working, keep, tjob, ran, C, asleep, freed>>
Cmd(c) == IF at[c] > Len(Script(c)) THEN -1 ELSE Script(c)[at[c]]
Add(c) == /\ cpc[c] = "op" /\ Cmd(c) > 0 /\ q' = Append(q, Cmd(c)) /\ v' = 1 /\ at' = [at EXCEPT ![c] = @ + 1]
          /\ mine' = [mine EXCEPT ![c] = @ \cup {Cmd(c)}] /\ UNCHANGED <<working, alive, keep, tpc, tjob, ran, cpc, asleep, freed>>
(* the lock is held from looking to falling asleep *)
Wait(c) == /\ cpc[c] = "op" /\ Cmd(c) = 0 /\ c \notin asleep
           /\ IF q = <<>> /\ working = 0 THEN at' = [at EXCEPT ![c] = @ + 1] /\ cpc' = [cpc EXCEPT ![c] = "waited"] /\ UNCHANGED asleep
              ELSE asleep' = asleep \cup {c} /\ UNCHANGED <<at, cpc>>
           /\ UNCHANGED <<q, v, working, alive, keep, tpc, tjob, ran, mine, freed>>
On(c) == cpc[c] = "waited" /\ cpc' = [cpc EXCEPT ![c] = "op"] /\ UNCHANGED <<q, v, working, alive, keep, tpc, tjob, ran, at, mine, asleep, freed>>
Destroy == /\ \A c \in Clients : cpc[c] = "op" /\ Cmd(c) = -1
           /\ keep /\ keep' = FALSE /\ UNCHANGED <<q, v, working, alive, tpc, tjob, ran, C, asleep, freed>>
Post == ~keep /\ alive > 0 /\ v' = 1 /\ UNCHANGED <<q, working, alive, keep, tpc, tjob, ran, C, asleep, freed>>
Free == ~keep /\ alive = 0 /\ freed' = TRUE /\ UNCHANGED <<q, v, working, alive, keep, tpc, tjob, ran, C, asleep>>
Thread(t) == Sem(t) \/ Chk(t) \/ Inc(t) \/ Pull(t) \/ Start(t) \/ End(t) \/ Dec(t) \/ Loop(t) \/ Leave(t)
Client(c) == Add(c) \/ Wait(c) \/ On(c)
Next == (\E t \in Threads : Thread(t)) \/ (\E c \in Clients : Client(c)) \/ Destroy \/ Post \/ Free
Fair == (\A t \in Threads : SF_vars(Thread(t))) /\ (\A c \in Clients : SF_vars(Client(c))) /\ WF_vars(Destroy) /\ SF_vars(Post) /\ WF_vars(Free)
Spec == Init /\ [][Next]_vars /\ Fair
Once == \A j \in Jobs : ran[j] # "twice"
(* who has waited sees its jobs done *)
Waited == \A c \in Clients : cpc[c] = "waited" => \A j \in mine[c] : ran[j] = "done"
NotAfter == freed => \A t \in Threads : tpc[t] = "gone"
Ends == <>freed
=============================================================================
