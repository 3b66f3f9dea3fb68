------------------------------ MODULE MCPdcData ------------------------------
(* A small instance of PdcData, and (with Record) the generator of the       *)
(* behaviours that are replayed against the real clients and servers.        *)
EXTENDS PdcData, Json
CONSTANTS Clients, ONames, Shapes, MaxX, Steps, Record,
          Profile   \* what a generator is to exercise: "plain", "small", "async", "batch", "close", "restart", "life" or "crash"
VARIABLES n, hist, nx, nb, alone
vars == <<dvars, n, hist, nx, nb, alone>>

Shapes1 == {<<2>>}
Shapes2 == {<<2, 1>>}
ShapesG == {<<1>>, <<3>>, <<5>>, <<8>>, <<2, 3>>, <<3, 2>>, <<4, 4>>, <<1, 4>>, <<5, 1>>, <<2, 2, 2>>, <<3, 2, 3>>, <<1, 3, 2>>, <<4, 3, 2>>}
ShapesL == {<<24>>, <<12>>, <<40>>, <<6, 5>>, <<9, 3>>, <<3, 4, 3>>}

Rare(k) == Record => RandomElement(1..100) <= k
For(w, k, m) == Rare(IF Profile \in w THEN k ELSE m)
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist
Same == UNCHANGED <<nx, nb>>

(* any buffer the specification allows *)
SomeBuf(t) == [i \in 1..t.len |->
                 IF t.acc = "W" THEN Val(t.base + i - 1)
                 ELSE IF \E k \in DOMAIN t.places : t.places[k] = i - 1
                 THEN LET k == CHOOSE k \in DOMAIN t.places : t.places[k] = i - 1 IN Val((CHOOSE v \in t.see[k] : TRUE)[1])
                 ELSE Blank]
SomeBufs(X, S) == [x \in S |-> SomeBuf(X[x])]

(* which cells a write has had for itself since it began *)
Touched(S) == UNION {{<<xf[x].o, xf[x].cells[k]>> : k \in DOMAIN xf[x].cells} : x \in {y \in S : xf[y].acc = "W"}}
AloneStart(S) ==
  [x \in DOMAIN alone \cup {y \in S : xf[y].acc = "W"} |->
     IF x \in S THEN Touched({x}) \ Touched((S \cup ActiveW) \ {x}) ELSE alone[x] \ Touched(S)]

Hnd(c) == {h \in DOMAIN hnd : h[1] = c}
Mine(c) == {x \in DOMAIN xf : xf[x].c = c}
Idle(c) == {x \in Mine(c) : ~Active(x)}
Busy(c) == {x \in Mine(c) : Active(x)}

(* regions: all of them in a search, one at random in a generator *)
Offs(d) == IF Record THEN {[i \in DOMAIN d |-> RandomElement(0..(d[i] - 1))]} ELSE {f \in [DOMAIN d -> 0..3] : \A i \in DOMAIN d : f[i] < d[i]}
Sizes(d, off) == IF Record THEN {[i \in DOMAIN d |-> RandomElement(1..(IF Profile = "small" /\ d[i] - off[i] > 4 THEN 4 ELSE d[i] - off[i]))]}
                 ELSE {f \in [DOMAIN d -> 1..4] : \A i \in DOMAIN d : off[i] + f[i] <= d[i]}
LOffs(d, size) == IF Record THEN {[i \in DOMAIN d |-> RandomElement(0..(d[i] - size[i]))]} ELSE {[i \in DOMAIN d |-> d[i] - size[i]]}

NCreate == \E c \in Pick(Clients), o \in Pick(ONames \ DOMAIN ob), d \in Pick(IF Profile = "small" THEN ShapesL ELSE Shapes), b \in Pick(IF Rare(25) THEN BOOLEAN ELSE {FALSE}) :
             /\ ObCreate(c, o, d, b) /\ UNCHANGED alone /\ Same
             /\ Do([op |-> "ocreate", c |-> c, o |-> o, dims |-> d, posix |-> b])
NOpen == Rare(50) /\ \E c \in Pick(Clients) : \E o \in Pick({x \in DOMAIN ob : <<c, x>> \notin DOMAIN hnd}) :
             ObOpen(c, o) /\ UNCHANGED alone /\ Same /\ Do([op |-> "oopen", c |-> c, o |-> o])
NXfer(k) == \E c \in Pick({y \in Clients : Hnd(y) # {} /\ Cardinality(Mine(y)) < k}) : \E h \in Pick(Hnd(c)), acc \in Pick(IF Profile = "small" /\ Rare(70) THEN {"W"} ELSE {"R", "W"}), flat \in Pick(BOOLEAN) :
             LET d == ob[h[2]] IN
             \E off \in Offs(d) : \E size \in Sizes(d, off) : \E loff \in LOffs(d, size), pad \in Pick(0..(IF Record THEN 2 ELSE 0)) :
               LET m == ProdSeq(size)
                   f == flat \/ Len(d) = 1
                   len == IF f THEN pad + m + (IF Record THEN RandomElement(0..2) ELSE 0) ELSE ProdSeq(d)
               IN \E ln \in {len} :
                  /\ nx < MaxX
                  /\ Create(nx + 1, c, h[2], acc, IF f THEN <<pad>> ELSE loff, IF f THEN <<m>> ELSE size, off, size, nb, ln, FALSE)
                  /\ nx' = nx + 1 /\ nb' = IF acc = "W" THEN nb + ln ELSE nb
                  /\ UNCHANGED alone
                  /\ Do([op |-> "xfer", x |-> nx + 1, c |-> c, o |-> h[2], acc |-> acc,
                         loff |-> IF f THEN <<pad>> ELSE loff, lsize |-> IF f THEN <<m>> ELSE size,
                         off |-> off, size |-> size, base |-> nb, len |-> ln])
NStart == \E c \in Pick({y \in Clients : Idle(y) # {}}) : \E x \in Pick({y \in Idle(c) : xf[y].st = "new"} \cup (IF Rare(20) THEN Idle(c) ELSE {})) :
             /\ Start({x}, SomeBufs(StartXf({x}), {x})) /\ alone' = AloneStart({x}) /\ Same
             /\ Do([op |-> "start", c |-> c, xs |-> <<x>>])
NStartAll == For({"batch"}, 100, 30) /\ \E c \in Pick({y \in Clients : Idle(y) # {}}) :
             \E S \in Pick({T \in SUBSET Idle(c) : T # {}}) :
             /\ Start(S, SomeBufs(StartXf(S), S)) /\ alone' = AloneStart(S) /\ Same
             /\ Do([op |-> "startall", c |-> c, xs |-> S])
NStartAgain == Rare(5) /\ \E c \in Pick({y \in Clients : Busy(y) # {}}) : \E x \in Pick(Busy(c)) :
             StartAgain(x) /\ UNCHANGED alone /\ Same /\ Do([op |-> "start", c |-> c, xs |-> <<x>>])
NWait == For({"plain", "small", "restart", "life", "crash"}, 100, 40) /\ \E c \in Pick({y \in Clients : Busy(y) # {}}) : \E x \in Pick(Busy(c)) :
             Wait(x, TRUE, SomeBufs(xf, {x})) /\ UNCHANGED alone /\ Same /\ Do([op |-> "wait", c |-> c, x |-> x])
NWait0 == Rare(5) /\ \E c \in Pick({y \in Clients : Idle(y) # {}}) : \E x \in Pick(Idle(c)) :
             Wait(x, TRUE, EmptyF) /\ UNCHANGED alone /\ Same /\ Do([op |-> "wait", c |-> c, x |-> x])
NWaitAll == For({"batch"}, 100, 30) /\ \E c \in Pick({y \in Clients : Busy(y) # {}}) : \E S \in Pick({T \in SUBSET Busy(c) : T # {}}) :
             WaitAll(S, TRUE, SomeBufs(xf, S)) /\ UNCHANGED alone /\ Same /\ Do([op |-> "waitall", c |-> c, xs |-> S])
NWaitAll0 == Rare(5) /\ \E c \in Pick({y \in Clients : Idle(y) # {}}) : \E S \in Pick({T \in SUBSET Mine(c) : T \cap Idle(c) # {}}) :
             WaitAll(S, FALSE, EmptyF) /\ UNCHANGED alone /\ Same /\ Do([op |-> "waitall", c |-> c, xs |-> S])
NStatus == For({"async"}, 100, 25) /\ \E c \in Pick({y \in Clients : Mine(y) # {}}) : \E x \in Pick(Mine(c)), st \in (IF Record THEN {IF Active(RandomElement(Mine(c))) THEN 0 ELSE 2} ELSE {0, 1, 2}) :
             /\ \E s \in (IF Record THEN {IF Active(x) THEN 0 ELSE 2} ELSE {st}) :
                  Status(x, s, SomeBufs(xf, {x}))
             /\ UNCHANGED alone /\ Same /\ Do([op |-> "status", c |-> c, x |-> x])
NXClose == Rare(60) /\ \E c \in Pick(Clients) : \E x \in Pick({y \in Idle(c) : xf[y].st = "idle"}) :
             Close(x) /\ alone' = Drop(alone, {x}) /\ Same /\ Do([op |-> "xclose", c |-> c, x |-> x])
NObClose == For({"close"}, 60, 4) /\ \E h \in Pick(DOMAIN hnd) :
             /\ ObClose(h[1], h[2], SomeBufs(xf, {x \in DOMAIN xf : xf[x].c = h[1] /\ xf[x].o = h[2] /\ Active(x)}))
             /\ alone' = Keep(alone, {x \in DOMAIN xf : ~(xf[x].c = h[1] /\ xf[x].o = h[2])})
             /\ Same /\ Do([op |-> "oclose", c |-> h[1], o |-> h[2]])
NFlush == Record /\ Rare(10) /\ \E c \in Pick(Clients) : UNCHANGED <<dvars, alone>> /\ Same /\ Do([op |-> "flush", c |-> c])
NCkpt == For({"crash"}, 40, 3) /\ \E c \in Pick(Clients) : Checkpoint /\ UNCHANGED alone /\ Same /\ Do([op |-> "ckpt", c |-> c])
NRestart == (Record => n > (IF Profile = "life" THEN 60 ELSE 8)) /\ For({"restart"}, 40, IF Profile = "life" THEN 10 ELSE 5) /\ Restart /\ alone' = EmptyF /\ Same /\ Do([op |-> "restart"])
NCrash == (Record => n > 8 /\ Profile = "crash") /\ Rare(30) /\ Crash /\ alone' = EmptyF /\ Same /\ Do([op |-> "crash"])

(* a step that does nothing, when chance ruled out all others *)
NSkip == Record /\ n' = n + 1 /\ UNCHANGED <<dvars, hist, nx, nb, alone>>
Init == DataInit /\ n = 0 /\ hist = <<>> /\ nx = 0 /\ nb = 1 /\ alone = EmptyF
Depth == IF Profile \in {"async", "batch", "close"} THEN 6 ELSE 2
Act == \/ NCreate \/ NOpen \/ NXfer(Depth) \/ (Record /\ NXfer(Depth)) \/ NStart \/ (Record /\ NStart) \/ NStartAll \/ NStartAgain
       \/ NWait \/ (Record /\ NWait) \/ NWait0 \/ NWaitAll \/ NWaitAll0 \/ NStatus \/ NXClose \/ NObClose \/ NFlush \/ NCkpt \/ NRestart \/ NCrash \/ NSkip
Emit == /\ Record /\ n = Steps
        /\ PrintT("HIST " \o ToJson(hist))
        /\ n' = n + 1 /\ UNCHANGED <<dvars, hist, nx, nb, alone>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars
(* transfers are started at most twice, so that a search ends *)
Twice == \A x \in DOMAIN xf : xf[x].run <= 2
View == <<dvars, nx, alone>>

(* a complete write that had a cell for itself is what the cell holds *)
LastWriteWins ==
  [][\A x \in ActiveW : (x \in DOMAIN xf' => xf'[x].st = "idle") /\ xf[x].o \in DOMAIN cand' /\ (x \in DOMAIN xf')
        => \A k \in DOMAIN xf[x].cells : <<xf[x].o, xf[x].cells[k]>> \in alone[x]
              => cand'[xf[x].o][xf[x].cells[k]] = {Token(xf[x], k)}]_vars
(* what a cell holds comes from a write that was started for it, and does not change while no write is under way *)
OnlyWrites ==
  [][\A o \in DOMAIN ob \cap DOMAIN ob' : \A cell \in DOMAIN cand[o] :
        cand'[o][cell] # cand[o][cell] /\ DOMAIN xf' # {}
          => \E x \in DOMAIN xf : xf[x].acc = "W" /\ xf[x].o = o /\ \E k \in DOMAIN xf[x].cells : xf[x].cells[k] = cell]_vars
(* a checkpoint or an orderly restart loses nothing *)
Durable == [][(hnd' = EmptyF /\ hnd # EmptyF /\ saved'.ob = ob') => DOMAIN saved.ob \subseteq DOMAIN ob']_vars
=============================================================================
