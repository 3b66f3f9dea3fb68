----------------------------- MODULE GenPdcPool -----------------------------
(* Histories for PdcPool: what each of several clients does. An operation waits until those before [after] are done.
   Client 0 makes and destroys pools, pauses them, adds the jobs that stay at a gate and opens the gates; it waits only
   when no job is at a gate and no pool is paused, so that every history can end. *)
EXTENDS PdcUtil, Json
CONSTANTS Clients, Most, Steps
VARIABLES up, closed, met, paused, nj, bar, hist, n
vars == <<up, closed, met, paused, nj, bar, hist, n>>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Do(c, cmd) == hist' = Append(hist, cmd @@ [c |-> c, after |-> bar]) /\ n' = n + 1
Calm == closed = EmptyF /\ paused = {}
Fence(cmd) == hist' = Append(hist, cmd @@ [c |-> 0, after |-> Len(hist)]) /\ bar' = Len(hist) + 1 /\ n' = n + 1
GInit == \E p \in Pick({1, 2, 3} \ DOMAIN up) : \E k \in Pick(1..Most) :
           /\ Cardinality(DOMAIN up) < 2 /\ Calm
           /\ up' = Put(up, p, k) /\ Fence([op |-> "init", p |-> p, n |-> k])
           /\ UNCHANGED <<closed, met, paused, nj>>
GDestroy == \E p \in Pick(DOMAIN up) : Calm /\ up' = Drop(up, {p}) /\ Fence([op |-> "destroy", p |-> p])
                                       /\ UNCHANGED <<closed, met, paused, nj>>
GAdd == \E c \in Pick(Clients), p \in Pick(DOMAIN up) : \E k \in {IF RandomElement(1..4) = 1 THEN nj + 2 ELSE 0} :
           /\ Do(c, [op |-> "add", p |-> p, j |-> nj + 1, points |-> RandomElement({0, 0, 2, 5, 30}), gate |-> FALSE, child |-> k])
           /\ nj' = nj + 2 /\ UNCHANGED <<up, closed, met, paused, bar>>
(* several at once *)
GBurst == \E p \in Pick(DOMAIN up) : \E k \in Pick(2..6) :
           /\ hist' = hist \o [i \in 1..k |-> [op |-> "add", c |-> RandomElement(Clients), after |-> bar, p |-> p, j |-> nj + i,
                                               points |-> RandomElement({0, 2, 9}), gate |-> FALSE, child |-> 0]]
           /\ n' = n + 1 /\ nj' = nj + k /\ UNCHANGED <<up, closed, met, paused, bar>>
GGate == \E p \in Pick(DOMAIN up) :
           /\ closed' = Put(closed, nj + 1, p)
           /\ Do(0, [op |-> "add", p |-> p, j |-> nj + 1, points |-> 4, gate |-> TRUE, child |-> 0])
           /\ nj' = nj + 2 /\ UNCHANGED <<up, met, paused, bar>>
AtGate(p) == {j \in DOMAIN closed : closed[j] = p}
(* as many jobs as there are threads run at the same time *)
GMeet == \E j \in Pick(DOMAIN closed \ met) :
           /\ Cardinality(AtGate(closed[j])) <= up[closed[j]] /\ paused = {} /\ met' = met \cup {j}
           /\ Do(0, [op |-> "meet", j |-> j]) /\ UNCHANGED <<up, closed, paused, nj, bar>>
GOpen == \E j \in Pick(DOMAIN closed) : closed' = Drop(closed, {j}) /\ Do(0, [op |-> "open", j |-> j])
                                        /\ UNCHANGED <<up, met, paused, nj, bar>>
GWait == \E c \in Pick(Clients), p \in Pick(DOMAIN up) :
           /\ c # 0 \/ Calm
           /\ Do(c, [op |-> "wait", p |-> p]) /\ UNCHANGED <<up, closed, met, paused, nj, bar>>
GPause == \E p \in Pick(DOMAIN up \ paused) : paused' = paused \cup {p} /\ Do(0, [op |-> "pause", p |-> p])
                                       /\ UNCHANGED <<up, closed, met, nj, bar>>
GResume == \E p \in Pick(paused) : paused' = paused \ {p} /\ Do(0, [op |-> "resume", p |-> p])
                                       /\ UNCHANGED <<up, closed, met, nj, bar>>
GAsk == \E c \in Pick(Clients), p \in Pick(DOMAIN up) : Do(c, [op |-> "working", p |-> p]) /\ UNCHANGED <<up, closed, met, paused, nj, bar>>
GRest == \E c \in Pick(Clients) : Do(c, [op |-> "rest", n |-> RandomElement({1, 5, 40})]) /\ UNCHANGED <<up, closed, met, paused, nj, bar>>
Init == up = EmptyF /\ closed = EmptyF /\ met = {} /\ paused = {} /\ nj = 0 /\ bar = 0 /\ hist = <<>> /\ n = 0
Act == IF up = EmptyF THEN GInit
       ELSE GInit \/ (n % 4 = 0 /\ GDestroy) \/ GAdd \/ GAdd \/ GBurst \/ GGate \/ GMeet \/ GMeet \/ GOpen \/ GWait \/ GWait \/ (n % 3 = 0 /\ GPause)
            \/ GResume \/ GAsk \/ GRest
(* what is needed for the end *)
Ending == LET opens == SetSeq(DOMAIN closed) res == SetSeq(paused) des == SetSeq(DOMAIN up)
              k == Len(opens) + Len(res)
          IN [i \in 1..(k + Len(des)) |->
                IF i <= Len(opens) THEN [op |-> "open", c |-> 0, after |-> 0, j |-> opens[i]]
                ELSE IF i <= k THEN [op |-> "resume", c |-> 0, after |-> 0, p |-> res[i - Len(opens)]]
                ELSE [op |-> "destroy", c |-> 0, after |-> Len(hist) + i - 1, p |-> des[i - k]]]
Emit == n = Steps /\ PrintT("HIST " \o ToJson(hist \o Ending)) /\ n' = n + 1 /\ UNCHANGED <<up, closed, met, paused, nj, bar, hist>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
