----------------------------- MODULE MCPdcIndex -----------------------------
(* All small indices, and the generator of histories. *)
EXTENDS PdcIndex, Json
CONSTANTS Texts, Objs, Limit, Steps, Record, Overlap
VARIABLES n, hist
vars == <<ivars, n, hist>>
Small == {<<1>>, <<2>>, <<1, 2>>, <<2, 2>>, <<2, 1, 2>>}
Tiny == {<<1>>, <<2>>, <<1, 2>>}
Pair == {<<1>>, <<2, 1>>}
Big == Small \cup {<<3>>, <<1, 2, 3>>, <<2, 3>>, <<3, 1, 2, 3>>, <<1, 1>>, <<3, 2, 1, 2>>, <<4, 4, 4>>, <<4>>}
Values == IF Record THEN Texts ELSE IF Overlap THEN {<<1>>} ELSE Tiny
Pick(S) == IF Record THEN {RandomElement(S)} ELSE S
Cuts(t) == {SubSeq(t, i, j) : i \in 1..Len(t), j \in 1..Len(t)} \ {<<>>}
Of(t) == {t} \cup {c \o <<Star>> : c \in Cuts(t)} \cup {<<Star>> \o c : c \in Cuts(t)} \cup {<<Star>> \o c \o <<Star>> : c \in Cuts(t)}
         \cup {<<Star>>, <<Star, Star>>}
Patterns(T) == UNION {Of(t) : t \in T}
Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist
GAdd == \E k \in Pick(Texts), v \in Pick(Values), o \in Pick(Objs) :
          (IF Record /\ facts # {} /\ RandomElement(1..3) = 1
           THEN \E f \in Pick(facts) : \E w \in Pick({f[1]} \cup {SubSeq(f[1], i, Len(f[1])) : i \in 1..Len(f[1])} \cup {<<4>> \o f[1]}) :
                Cardinality(facts) < Limit /\ Add(w, f[2], o) /\ Do([op |-> "add", c |-> RandomElement(0..2), k |-> w, v |-> f[2], o |-> o])
           ELSE Cardinality(facts) < Limit /\ Add(k, v, o) /\ Do([op |-> "add", c |-> IF Record THEN RandomElement(0..2) ELSE 0, k |-> k, v |-> v, o |-> o]))
GDel == IF facts # {} /\ (~Record \/ RandomElement(1..6) > 1)
        THEN \E f \in Pick(facts) : Del(f[1], f[2], f[3])
             /\ Do([op |-> "del", c |-> IF Record THEN RandomElement(0..2) ELSE 0, k |-> f[1], v |-> f[2], o |-> f[3]])
        ELSE Record /\ \E k \in Pick(Texts), v \in Pick(Values), o \in Pick(Objs) :
             Del(k, v, o) /\ Do([op |-> "del", c |-> RandomElement(0..2), k |-> k, v |-> v, o |-> o])
GAsk == /\ Record /\ UNCHANGED ivars
        /\ \E t \in Pick(IF facts # {} /\ RandomElement(1..5) > 1 THEN {<<f[1], f[2]>> : f \in facts} ELSE Texts \X Texts) :
           \E p \in Pick(Of(t[1])), q \in Pick(Of(t[2])) :
             Do([op |-> "ask", c |-> RandomElement(0..2), kp |-> p, vp |-> q])
(* overlapping calls: whatever a search began with, what it must and may find stay consistent, and the index in the end is *)
(* that of the calls one after the other *)
GBegin == ~Record /\ Overlap /\ \E c \in 1..2, w \in {"add", "del", "ask"} : \E k \in Pick(Texts), v \in Pick(Values), o \in Pick(Objs) :
            /\ Cardinality(facts \cup Pending("add")) < Limit \/ w # "add"
            /\ (w = "del" => <<k, v, o>> \in facts)
            /\ (w = "ask" => k = CHOOSE x \in Texts : TRUE) /\ (w = "ask" => v = CHOOSE x \in Values : TRUE) /\ (w = "ask" => o = CHOOSE x \in Objs : TRUE)
            /\ Begin(c, w, <<k, v, o>>, <<Star>>, <<Star>>) /\ Do([op |-> "begin"])
GEnd == ~Record /\ \E c \in DOMAIN open : End(c, SureIn(open[c].must, <<Star>>, <<Star>>)) /\ Do([op |-> "end"])
Init == IndexInit /\ n = 0 /\ hist = <<>>
Act == (GBegin \/ GEnd \/ GAdd \/ GDel \/ GAsk \/ GAsk \/ GAsk) /\ (Record => n < Steps)
Emit == Record /\ n = Steps /\ PrintT("HIST " \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<ivars, hist>>
Next == Act \/ Emit
Spec == Init /\ [][Next]_vars
View == <<facts, post, open>>
(* what a search must find it may find, whenever it ends *)
Within == \A c \in Busy("ask") : \A p \in open[c].must : p[1] \in open[c].may
All == \A kp \in Patterns(Texts), vp \in Patterns(Tiny) : Certain(kp, vp) /\ Complete(kp, vp) /\ Exact(kp, vp) /\ Bounded(kp, vp)
(* without sharing nothing is lost; it is not an invariant: see the known findings *)
Lossless == ~CutFront => Whole /\ \A kp \in Patterns(Texts), vp \in Patterns(Tiny) : Found(kp, vp) = Strict(kp, vp) /\ Loose(kp, vp) = Strict(kp, vp)
=============================================================================
