------------------------------- MODULE MCPdcMap -------------------------------
(* A small instance of PdcMap, and (with Record) the generator of the        *)
(* behaviours that are replayed against the real clients and servers.        *)
EXTENDS PdcMap, Json
CONSTANTS Clients, ONames, Shapes, Steps, Record,
          Profile   \* "map": mostly mapped buffers; "lock": mostly clients that compete for few regions
VARIABLES n, hist, nb, regs
vars == <<mvars, n, hist, nb, regs>>

Shapes1 == {<<2>>}
ShapesG == {<<1>>, <<3>>, <<5>>, <<8>>, <<17>>, <<2, 3>>, <<3, 2>>, <<4, 4>>, <<1, 4>>, <<5, 1>>, <<2, 2, 2>>, <<3, 2, 3>>, <<1, 3, 2>>, <<4, 3, 2>>}

Rare(k) == Record => RandomElement(1..100) <= k
For(w, k, m) == Rare(IF Profile \in w THEN k ELSE m)
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist

(* the regions of an object that are used: few, so that clients meet *)
Boxes(d) == {<<off, size>> : off \in [DOMAIN d -> 0..1], size \in [DOMAIN d -> 1..2]}
RandBox(d) == LET off == [i \in DOMAIN d |-> RandomElement(0..(d[i] - 1))] IN <<off, [i \in DOMAIN d |-> RandomElement(1..(d[i] - off[i]))]>>
SomeRegs(d, k) == IF Record THEN {IF RandomElement(1..6) = 1 THEN <<[j \in DOMAIN d |-> 0], d>> ELSE RandBox(d) : i \in 1..k}
                  ELSE {x \in Boxes(d) : Fits(d, x)} \ {<<<<1>>, <<1>>>>}
R(o) == regs[o]
Able == {c \in Clients : Free(c)}
Hnd(c) == {h \in opn : h[1] = c}
Targets(c) == {<<h[2], r>> : h \in {g \in Hnd(c) : TRUE}, r \in UNION {R(g[2]) : g \in Hnd(c)}} \cap UNION {{<<o, r>> : r \in R(o)} : o \in DOMAIN regs}
Wanted(c, P(_, _, _)) == {t \in Targets(c) : P(c, t[1], t[2])}

Due == \E c \in DOMAIN wait : ~Held(wait[c][1], wait[c][2])
SomeBuf(c, o, r, acc) ==
  IF ~held[<<o, r>>].moves THEN <<>>
  ELSE IF acc = "W" THEN mem[<<c, o, r>>]
  ELSE LET b == Box(ob[o], r[1], r[2]) IN [k \in DOMAIN b |-> Max(cell[o][b[k]], 1)]

NCreate == \E c \in Pick(Able), o \in Pick(ONames \ DOMAIN ob), d \in Pick(Shapes) :
             /\ ObCreate(c, o, d) /\ UNCHANGED nb
             /\ \E rs \in {SomeRegs(d, IF Profile = "lock" THEN 2 ELSE 4)} : regs' = Put(regs, o, rs)
             /\ Do([op |-> "ocreate", c |-> c, o |-> o, dims |-> d])
NOpen == Rare(70) /\ \E c \in Pick(Able) : \E o \in Pick({x \in DOMAIN ob : <<c, x>> \notin opn}) :
             ObOpen(c, o) /\ UNCHANGED <<nb, regs>> /\ Do([op |-> "oopen", c |-> c, o |-> o])
NWrite == Rare(25) /\ \E c \in Pick(Able) : \E t \in Pick(Targets(c)) :
             /\ Write(c, t[1], t[2], nb) /\ nb' = nb + ProdSeq(t[2][2]) /\ UNCHANGED regs
             /\ Do([op |-> "write", c |-> c, o |-> t[1], off |-> t[2][1], size |-> t[2][2], base |-> nb])
NRead == Rare(25) /\ \E c \in Pick(Able) : \E t \in Pick(Targets(c)) :
             /\ UNCHANGED <<mvars, nb, regs>>
             /\ Do([op |-> "read", c |-> c, o |-> t[1], off |-> t[2][1], size |-> t[2][2]])
NMap == For({"map"}, 100, 40) /\ \E c \in Pick(Able) : \E t \in Pick({x \in Targets(c) : ~Mapped(c, x[1], x[2]) /\ ~Holds(c, x[1], x[2])}) :
             /\ Map(c, t[1], t[2], nb) /\ nb' = nb + ProdSeq(t[2][2]) /\ UNCHANGED regs
             /\ Do([op |-> "map", c |-> c, o |-> t[1], off |-> t[2][1], size |-> t[2][2], base |-> nb])
NFill == For({"map"}, 70, 30) /\ \E c \in Pick(Able) : \E t \in Pick({x \in Targets(c) : Mapped(c, x[1], x[2])}) :
             /\ Fill(c, t[1], t[2], nb) /\ nb' = nb + ProdSeq(t[2][2]) /\ UNCHANGED regs
             /\ Do([op |-> "fill", c |-> c, o |-> t[1], off |-> t[2][1], size |-> t[2][2], base |-> nb])
NLook == Record /\ Rare(20) /\ \E c \in Pick(Able) : \E t \in Pick({x \in Targets(c) : Mapped(c, x[1], x[2])}) :
             /\ UNCHANGED <<mvars, nb, regs>>
             /\ Do([op |-> "look", c |-> c, o |-> t[1], off |-> t[2][1], size |-> t[2][2]])
NUnmap == Rare(25) /\ \E c \in Pick(Able) : \E t \in Pick({x \in Targets(c) : Mapped(c, x[1], x[2])}) :
             /\ Unmap(c, t[1], t[2]) /\ UNCHANGED <<nb, regs>>
             /\ Do([op |-> "unmap", c |-> c, o |-> t[1], off |-> t[2][1], size |-> t[2][2]])
(* a client that waits must not wait for itself, and somebody has to be left to let go *)
NLock == \E c \in Pick(Able) : \E t \in Pick({x \in Targets(c) : ~Holds(c, x[1], x[2]) \/ Rare(10)}), acc \in Pick({"R", "W"}), b \in Pick(BOOLEAN) :
             LET o == t[1]
                 r == t[2]
                 w == Held(o, r) /\ b IN
             /\ w => ~Holds(c, o, r) /\ Free(held[<<o, r>>].c)
             (* waiting for someone who is free, a client adds no cycle *)
             /\ IF ~Held(o, r) THEN Lock(c, o, r) ELSE IF b THEN Asks(c, o, r) ELSE Refused(c, o, r)
             /\ UNCHANGED <<nb, regs>>
             /\ Do([op |-> "lock", c |-> c, o |-> o, off |-> r[1], size |-> r[2], acc |-> acc, block |-> b, waits |-> w])
NGets == \E c \in DOMAIN wait :
             Gets(c) /\ UNCHANGED <<nb, regs>> /\ Do([op |-> "gets", c |-> c])
NRelease == \E c \in Pick({x \in Able : \E k \in DOMAIN held : held[k].c = x}) : \E k \in Pick({y \in DOMAIN held : held[y].c = c}), acc \in Pick({"R", "W"}) :
             /\ Release(c, k[1], k[2], acc, SomeBuf(c, k[1], k[2], acc)) /\ UNCHANGED <<nb, regs>>
             /\ Do([op |-> "release", c |-> c, o |-> k[1], off |-> k[2][1], size |-> k[2][2], acc |-> acc])
NNoRelease == Rare(6) /\ \E c \in Pick(Able) : \E t \in Pick({x \in Targets(c) : ~Held(x[1], x[2])}) :
             /\ NoRelease(c, t[1], t[2]) /\ UNCHANGED <<nb, regs>>
             /\ Do([op |-> "release", c |-> c, o |-> t[1], off |-> t[2][1], size |-> t[2][2], acc |-> "W"])
NRestart == (Record => n > 20) /\ Rare(3) /\ Restart /\ UNCHANGED <<nb, regs>> /\ Do([op |-> "restart"])
NSkip == Record /\ n' = n + 1 /\ UNCHANGED <<mvars, hist, nb, regs>>

Init == MapInit /\ n = 0 /\ hist = <<>> /\ nb = 1 /\ regs = EmptyF
Act == IF Due THEN NGets
       ELSE \/ NCreate \/ NOpen \/ NWrite \/ NRead \/ NMap \/ NFill \/ NLook \/ NUnmap \/ NLock \/ (Record /\ NLock) \/ NRelease \/ NNoRelease \/ NRestart \/ NSkip
Emit == /\ Record /\ n = Steps
        /\ PrintT("HIST " \o ToJson(hist))
        /\ n' = n + 1 /\ UNCHANGED <<mvars, hist, nb, regs>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars
View == <<mvars, n>>
(* the search names every value it needs, and no more *)
Small == nb <= 5

(* elements change only when a transfer writes them, or when the holder of a lock lets go of a region it has mapped *)
OnlyHolder ==
  [][\A o \in DOMAIN ob : cell'[o] # cell[o] =>
       \/ held' = held
       \/ \E r \in regs[o] : /\ Held(o, r) /\ held[<<o, r>>].moves /\ <<o, r>> \notin DOMAIN held'
                             /\ \A x \in DOMAIN cell[o] : cell'[o][x] # cell[o][x] => x \in SeqSet(Box(ob[o], r[1], r[2]))]_vars
(* a lock passes from one client to another only by way of nobody *)
Handover == [][\A k \in DOMAIN held \cap DOMAIN held' : held'[k].c = held[k].c]_vars
(* nobody waits for a lock that nobody has, longer than it takes to hand it over *)
NobodyForgotten == [][Due => DOMAIN wait' # DOMAIN wait \/ n >= Steps]_vars
=============================================================================
