----------------------------- MODULE MCPdcPool -----------------------------
(* A small instance of PdcPool: everything that may happen. *)
EXTENDS PdcPool
CONSTANTS Pools, Jobs, Clients, Ns
Init == PoolInit
Next == \/ \E p \in Pools : (\E n \in Ns : Make(p, n)) \/ Pause(p) \/ Resume(p) \/ DestroyBegin(p) \/ DestroyEnd(p)
        \/ \E p \in Pools, j \in Jobs : (pool # EmptyF /\ AddBegin(p, j)) \/ Start(p, j) \/ End(p, j)
        \/ \E j \in Jobs : j \in DOMAIN job /\ \E k \in Running(job[j].p) \cup {0} : job[j].st # "added" /\ AddEnd(job[j].p, j, k)
        \/ \E c \in Clients, p \in Pools : WaitBegin(c, p) \/ WaitEnd(c, p)
Spec == Init /\ [][Next]_pvars
Bound == \A p \in DOMAIN pool : Cardinality(Running(p)) <= pool[p].n
(* a wait is for jobs that are there, and none that is dropped *)
Waits == \A c \in DOMAIN waiting : waiting[c].p \in DOMAIN pool /\ waiting[c].for \subseteq DOMAIN job
(* nothing stays in the way of a wait: its jobs can all start, in some order, when the pool is not paused *)
CanStart == \A p \in DOMAIN pool : (~pool[p].paused /\ Running(p) = {} /\ Of(p, {"added"}) # {}) => \E j \in Of(p, {"added"}) : ENABLED Start(p, j)
=============================================================================
