----------------------------- MODULE MCPdcBloom -----------------------------
(* A small instance of PdcBloom, and the generator of histories. *)
EXTENDS PdcBloom, Json
CONSTANTS Filts, Last, Steps, Record, Caps, Invs
VARIABLES n, hist
vars == <<fvars, n, hist>>
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist
Low == Pick(1..Last)
High(lo) == IF Record THEN {IF n % 3 = 0 THEN lo ELSE Min(Last, lo + RandomElement({0, 3, 10, 30, 60}))} ELSE lo..Last
GNew == \E f \in Pick(Filts) : \E kind \in Pick({"counting", "scaling"}), c \in Pick(Caps), i \in Pick(Invs) :
          /\ f \notin DOMAIN filt /\ New(f, kind, c, i) /\ Do([op |-> "new", f |-> f, kind |-> kind, cap |-> c, inv |-> i])
GFree == \E f \in Pick(DOMAIN filt) : Free(f) /\ Do([op |-> "free", f |-> f])
GAdd == \E f \in Pick(DOMAIN filt), lo \in Low : \E hi \in High(lo) : Add(f, lo, hi) /\ Do([op |-> "add", f |-> f, lo |-> lo, hi |-> hi])
(* above all others *)
GGrow == \E f \in Pick(DOMAIN filt) : \E hi \in Pick((filt[f].top + 1)..Min(Last, filt[f].top + 20)) :
          Add(f, filt[f].top + 1, hi) /\ Do([op |-> "add", f |-> f, lo |-> filt[f].top + 1, hi |-> hi])
GRemove == \E f \in Pick(DOMAIN filt) : \E lo \in Pick(Held(f)) : \E hi \in High(lo) :
          Remove(f, lo, hi) /\ Do([op |-> "remove", f |-> f, lo |-> lo, hi |-> hi])
GDrain == \E f \in Pick(DOMAIN filt) : \E lo \in Pick(Held(f)) : \E m \in Pick({m \in lo..Last : \A k \in lo..m : Many(f, k) > 0}) :
          Remove(f, lo, m) /\ Do([op |-> "remove", f |-> f, lo |-> lo, hi |-> m])
GAsk == Record /\ \E f \in Pick(DOMAIN filt) : UNCHANGED filt /\ \E k \in Pick(1..Last) : Do([op |-> "check", f |-> f, k |-> k])
GAll(op) == Record /\ \E f \in Pick(DOMAIN filt) : UNCHANGED filt /\ Do([op |-> op, f |-> f])
Init == BloomInit /\ n = 0 /\ hist = <<>>
Act == \/ GNew \/ GAdd \/ GRemove \/ GGrow \/ GDrain \/ (GFree /\ (Record => n % 5 = 0)) \/ GAll("all")
       \/ (Record /\ (GAdd \/ GGrow \/ GGrow \/ GDrain \/ GAsk \/ GAll("all") \/ GAll("probe")))
       \/ (Record /\ n' = n + 1 /\ UNCHANGED <<fvars, hist>>)
Emit == Record /\ n = Steps /\ PrintT("HIST " \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<fvars, hist>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars
View == filt
Bags == \A f \in DOMAIN filt : \A k \in DOMAIN filt[f].bag : filt[f].bag[k] \in 0..MaxMany /\ k <= filt[f].top
=============================================================================
