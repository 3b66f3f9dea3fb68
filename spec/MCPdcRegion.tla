----------------------------- MODULE MCPdcRegion -----------------------------
(* A small instance of PdcRegion, and the generator of histories. *)
EXTENDS PdcRegion, Json
CONSTANTS Bufs, Far, Dims, Steps, Record
VARIABLES n, hist, nd
vars == <<rvars, n, hist, nd>>
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Do(cmd) == n' = n + 1 /\ nd' = nd /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist
Off(d) == IF Record THEN {[i \in 1..d |-> RandomElement(0..Far)]} ELSE [1..d -> 0..Far]
Size(d) == IF Record THEN {[i \in 1..d |-> RandomElement(1..(IF d = 1 THEN 9 ELSE IF d = 2 THEN 5 ELSE 3))]} ELSE [1..d -> 1..2]
GNew == \E b \in Pick(Bufs), off \in Off(nd), size \in Size(nd) :
          /\ New(b, off, size, [i \in 1..ProdSeq(size) |-> (IF Record THEN 20 * n ELSE 100 * b) + i])
          /\ Do([op |-> "new", b |-> b, off |-> off, size |-> size])
(* a buffer for a part of another one *)
GPart == \E a \in Pick(DOMAIN buf) : \E b \in Pick(Bufs \ {a}) :
         \E d \in (IF Record THEN {[i \in 1..nd |-> RandomElement(0..(buf[a].size[i] - 1))]} ELSE {[i \in 1..nd |-> 0]}) :
         \E size \in (IF Record THEN {[i \in 1..nd |-> RandomElement(1..(buf[a].size[i] - d[i]))]} ELSE {[i \in 1..nd |-> 1]}) :
          /\ New(b, [i \in 1..nd |-> buf[a].off[i] + d[i]], size, [i \in 1..ProdSeq(size) |-> (IF Record THEN 20 * n ELSE 100 * b) + i])
          /\ Do([op |-> "new", b |-> b, off |-> [i \in 1..nd |-> buf[a].off[i] + d[i]], size |-> size])
GCopy(op) == \E a \in Pick(DOMAIN buf) : \E b \in Pick(DOMAIN buf) :
          LET v == IF {a, b} \subseteq DOMAIN buf THEN CopyTo(a, b)[b].val ELSE <<>> IN
          /\ CASE op = "copy" -> Copy(a, b, v) [] op = "gather" -> Gather(a, b, v) [] op = "scatter" -> Scatter(a, b, v)
          /\ Do([op |-> op, a |-> a, b |-> b])
GAsk == Record /\ \E a \in Pick(DOMAIN buf), b \in Pick(DOMAIN buf) : UNCHANGED rvars /\ Do([op |-> "ask", a |-> a, b |-> b])
(* regions no buffer could hold, in more dimensions *)
GAskAny == Record /\ \E d \in Pick(1..5) : \E o1 \in Off(d), o2 \in Off(d), s1 \in Size(1) :
          UNCHANGED rvars /\ Do([op |-> "askany", o1 |-> o1, o2 |-> o2, s1 |-> [i \in 1..d |-> RandomElement(1..5)], s2 |-> [i \in 1..d |-> RandomElement(1..5)]])
Init == RegionInit /\ n = 0 /\ hist = <<>> /\ nd \in Dims
Act == \/ GNew \/ GPart \/ GCopy("copy") \/ GCopy("gather") \/ GCopy("scatter") \/ (Record /\ (GCopy("copy") \/ GPart \/ GAsk \/ GAsk \/ GAskAny))
       \/ (Record /\ n' = n + 1 /\ UNCHANGED <<rvars, hist, nd>>)
Emit == Record /\ n = Steps /\ PrintT("HIST " \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<rvars, hist, nd>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars
View == <<buf, nd>>

(* intervals and sets of cells agree, for the regions of all buffers *)
SetsOfCells ==
  Record \/ \A a, b \in DOMAIN buf : LET x == buf[a] y == buf[b] IN
    /\ Overlaps(x.off, x.size, y.off, y.size) <=> CellsOf(x.off, x.size) \cap CellsOf(y.off, y.size) # {}
    /\ Overlaps(x.off, x.size, y.off, y.size)
         => CellsOf(OverOff(x.off, y.off), OverSize(x.off, x.size, y.off, y.size)) = CellsOf(x.off, x.size) \cap CellsOf(y.off, y.size)
    /\ Within(x.off, x.size, y.off, y.size) <=> CellsOf(x.off, x.size) \subseteq CellsOf(y.off, y.size)
(* gathering a part and putting it back changes nothing *)
RoundTrip ==
  Record \/ \A a, b \in DOMAIN buf : LET x == buf[a] y == buf[b] IN
    (a # b /\ Within(y.off, y.size, x.off, x.size)) => LET g == CopyTo(a, b) IN Patched(g[a], Map(g[b])) = x
=============================================================================
