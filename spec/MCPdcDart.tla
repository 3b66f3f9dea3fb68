------------------------------ MODULE MCPdcDart ------------------------------
(* A small instance of PdcDart with any routing that fits together, and the  *)
(* generator of histories.                                                   *)
EXTENDS PdcDart, Json
CONSTANTS Ws,        \* keywords (numbers when generating: the executor has the words)
          Toks, Ns, Steps, Record
VARIABLES n, hist
vars == <<dvars, n, hist>>

W2 == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1>>}
Words120 == 1..120
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
GIns == \E w \in Pick(Ws) :
          IF Record THEN at' = [at EXCEPT ![1] = Put(@, w, {})] /\ UNCHANGED sp /\ Do([op |-> "ins", k |-> w])
          ELSE \E f \in [Suffixes(w) -> 0..(Ns - 1)] :
                 Ins(1, w, SetToSeq({<<f[k], k>> : k \in Suffixes(w)})) /\ Do(0)
GDel == \E w \in Pick(IF Record /\ DOMAIN at[1] # {} THEN DOMAIN at[1] ELSE Ws) :
          IF Record THEN at' = [at EXCEPT ![1] = Drop(@, {w})] /\ UNCHANGED sp /\ Do([op |-> "del", k |-> w])
          ELSE \E p \in {SetToSeq(IF w \in DOMAIN at[1] THEN at[1][w] ELSE {})} : Del(1, w, p) /\ Do(0)
GLoad == Record /\ UNCHANGED dvars /\ Do([op |-> "load", s |-> RandomElement(0..999), x |-> RandomElement(0..50)])
GAsk == Record /\ \E w \in Pick(IF DOMAIN at[1] # {} /\ RandomElement(1..10) < 9 THEN DOMAIN at[1] ELSE Ws), q \in Pick(EXACT..INFIX) :
          UNCHANGED dvars /\ Do([op |-> "ask", k |-> w, q |-> q, x |-> RandomElement(0..9), y |-> RandomElement(0..9)])
Init == /\ sp = Put(EmptyF, 1, [ns |-> Ns, rep |-> 1]) /\ at = Put(EmptyF, 1, EmptyF)
        /\ n = 0 /\ hist = <<>>
Act == GIns \/ GIns \/ GDel \/ GLoad \/ GAsk \/ GAsk \/ GAsk
Emit == Record /\ n = Steps /\ PrintT("HIST " \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<dvars, hist>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars

(* what the servers S find, each in its own index *)
Found(q, t, k) == IF q \in {EXACT, SUFFIX} THEN k = t ELSE IsPrefixOf(t, k)
Answer(q, t, S) == {w \in DOMAIN at[1] : \E e \in at[1][w] : e[1] \in S /\ Found(q, t, e[2])}
Loose(q, t, w) == IF q \in {EXACT, SUFFIX} THEN IsSuffixOf(t, w) ELSE IsInfixOf(t, w)
(* servers that Ask accepts give a complete answer, with nothing that is not there or does not have the token *)
Complete ==
  Record \/ \A q \in EXACT..INFIX, t \in Toks, S \in SUBSET (0..(Ns - 1)) :
    Enough(1, q, t, S) =>
      /\ \A w \in DOMAIN at[1] : Match(q, t, w) => w \in Answer(q, t, S)
      /\ \A w \in Answer(q, t, S) : Loose(q, t, w)
(* asking every server is always enough *)
Everyone == Record \/ \A q \in EXACT..INFIX, t \in Toks, w \in DOMAIN at[1] :
    Match(q, t, w) => \E e \in at[1][w] : e[2] \in Keys(q, t, w)
View == dvars
=============================================================================
