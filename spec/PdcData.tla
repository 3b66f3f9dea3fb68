------------------------------- MODULE PdcData -------------------------------
(***************************************************************************)
(* The data of objects: what reads of regions return, however the data was *)
(* cut up, cached, placed on servers and written to files, and the life of *)
(* the transfers that move it between user buffers and objects.            *)
(*                                                                         *)
(* A cell is an element of an object, by its place in row-major order.     *)
(* For every cell the state has the values a read may return now: one      *)
(* value, unless writes of it overlapped in time.  A value is the number   *)
(* of the buffer element it was written from; 0 stands for a cell that was *)
(* never written.  Every start of a write makes its values anew.           *)
(***************************************************************************)
EXTENDS PdcUtil

VARIABLES
  ob,      \* object -> its dims
  cand,    \* object -> cell -> the values a read may return
  hnd,     \* <<client, object>> -> do transfers through this handle block until they are complete?
  xf,      \* transfer -> what it is to move, and how far it is
  saved    \* what the servers stored at their last checkpoint, and the values written since
dvars == <<ob, cand, hnd, xf, saved>>

Unwritten == <<0, 0>>
NoSaved == [ob |-> EmptyF, cand |-> EmptyF]
DataInit == /\ ob = EmptyF /\ cand = EmptyF /\ hnd = EmptyF /\ xf = EmptyF /\ saved = NoSaved

Fits(dims, off, size) ==
  /\ Len(off) = Len(dims) /\ Len(size) = Len(dims)
  /\ \A i \in DOMAIN dims : off[i] >= 0 /\ size[i] >= 1 /\ off[i] + size[i] <= dims[i]

Cells(dims) == 0..(ProdSeq(dims) - 1)

(* where in the user's buffer the elements of the region are: a region of    *)
(* one dimension is a run of elements, one of several dimensions a sub-box   *)
(* of a buffer of the shape of the object                                    *)
Places(dims, off, size) == IF Len(off) = 1 THEN [k \in 1..size[1] |-> off[1] + k - 1] ELSE Box(dims, off, size)

--------------------------------------------------------------------------
(* Objects and handles *)
ObCreate(c, o, dims, posix) ==
  /\ o \notin DOMAIN ob
  /\ ob' = Put(ob, o, dims)
  /\ cand' = Put(cand, o, [x \in Cells(dims) |-> {Unwritten}])
  /\ hnd' = Put(hnd, <<c, o>>, posix)
  /\ UNCHANGED <<xf, saved>>

ObOpen(c, o) ==
  /\ o \in DOMAIN ob /\ <<c, o>> \notin DOMAIN hnd
  /\ hnd' = Put(hnd, <<c, o>>, FALSE)
  /\ UNCHANGED <<ob, cand, xf, saved>>

--------------------------------------------------------------------------
(* Transfers *)
Active(x) == xf[x].st = "active"
ActiveW == {x \in DOMAIN xf : Active(x) /\ xf[x].acc = "W"}
Token(t, k) == <<t.base + t.places[k], t.run>>
(* the values that transfers of S write to a cell, and those of writes under way *)
Writes(X, S, o, cell) == {Token(X[x], X[x].at[cell]) : x \in {y \in S : X[y].acc = "W" /\ X[y].o = o /\ cell \in DOMAIN X[y].at}}
Flying(o, cell) == Writes(xf, ActiveW, o, cell)
Inverse(s) == [v \in SeqSet(s) |-> CHOOSE k \in DOMAIN s : s[k] = v]

(* mv: are there other writes of what it moves at the same time, and may they move elements from one server to another? *)
Create(x, c, o, acc, loff, lsize, off, size, base, len, mv) ==
  /\ <<c, o>> \in DOMAIN hnd /\ x \notin DOMAIN xf
  /\ Fits(ob[o], off, size) /\ acc \in {"R", "W"}
  /\ Len(loff) # 1 => Fits(ob[o], loff, lsize)
  /\ ProdSeq(lsize) = ProdSeq(size)
  /\ LET p == TLCEval(Places(ob[o], loff, lsize))
         b == TLCEval(Box(ob[o], off, size)) IN
     /\ \A k \in DOMAIN p : p[k] < len
     /\ xf' = Put(xf, x, [c |-> c, o |-> o, acc |-> acc, cells |-> b, at |-> Inverse(b), places |-> p,
                          base |-> base, len |-> len, mv |-> mv, st |-> "new", run |-> 0, see |-> <<>>])
  /\ UNCHANGED <<ob, cand, hnd, saved>>

(* Several transfers start.  A write remembers which values it replaces:     *)
(* those of writes that were complete before.  A read may return what is     *)
(* there now or comes in until it is complete; an element that moves to      *)
(* another server while it is read may be found on neither.                  *)
Lost(t, w) == IF t.mv /\ w # {} THEN {Unwritten} ELSE {}
Again(S) == [x \in DOMAIN xf |-> IF x \in S THEN [xf[x] EXCEPT !.run = @ + 1] ELSE xf[x]]
StartCand(S) ==
  LET X == TLCEval(Again(S)) IN
  [o \in DOMAIN cand |-> IF \E x \in S : xf[x].o = o /\ xf[x].acc = "W"
                         THEN [cell \in DOMAIN cand[o] |-> cand[o][cell] \cup Writes(X, S, o, cell)]
                         ELSE cand[o]]
StartXf(S) ==
  LET nc == TLCEval(StartCand(S))
      X == TLCEval(Again(S)) IN
  [x \in DOMAIN xf |->
     LET t == X[x] IN
     IF x \in S
     THEN [t EXCEPT !.st = "active",
             !.see = [k \in DOMAIN t.cells |->
                        IF t.acc = "W" THEN cand[t.o][t.cells[k]] \ Flying(t.o, t.cells[k]) 
                        ELSE nc[t.o][t.cells[k]] \cup
                             Lost(t, Flying(t.o, t.cells[k]) \cup Writes(X, S, t.o, t.cells[k]))]]
     ELSE IF t.st = "active" /\ t.acc = "R"
     THEN [t EXCEPT !.see = [k \in DOMAIN t.cells |-> @[k] \cup Writes(X, S, t.o, t.cells[k]) \cup Lost(t, Writes(X, S, t.o, t.cells[k]))]]
     ELSE t]

(* Transfers are complete.  Only what is not replaced by a write stays. *)
Replaced(X, S, o, cell) ==
  UNION {X[x].see[X[x].at[cell]] : x \in {y \in S : X[y].acc = "W" /\ X[y].o = o /\ cell \in DOMAIN X[y].at}}
DoneCand(X, S, nc) ==
  [o \in DOMAIN nc |-> IF \E x \in S : X[x].o = o /\ X[x].acc = "W"
                       THEN [cell \in DOMAIN nc[o] |-> nc[o][cell] \ Replaced(X, S, o, cell)]
                       ELSE nc[o]]
DoneXf(X, S) == [x \in DOMAIN X |-> IF x \in S THEN [X[x] EXCEPT !.st = "idle", !.see = <<>>] ELSE X[x]]

(* A buffer after its transfer is complete: a write leaves it alone, a read  *)
(* changes just the elements of its region.                                  *)
Val(n) == (n % 119) + 1
Blank == 125
BufferOk(t, buf) == (
  /\ Len(buf) = t.len
  /\ IF t.acc = "W" THEN \A i \in 1..t.len : buf[i] = Val(t.base + i - 1)
     ELSE /\ \A k \in DOMAIN t.cells : \/ Unwritten \in t.see[k]
                                       \/ \E v \in t.see[k] : Val(v[1]) = buf[t.places[k] + 1]
          /\ LET hit == TLCEval(SeqSet(t.places)) IN \A i \in 1..t.len : (i - 1 \in hit) \/ buf[i] = Blank) = TRUE

(* values written since the last checkpoint may have reached a file or not *)
Since(nc) == [saved EXCEPT !.cand = [o \in DOMAIN @ |-> IF o \in DOMAIN nc /\ nc[o] # cand[o]
                                                       THEN [cell \in DOMAIN @[o] |-> @[o][cell] \cup nc[o][cell]] ELSE @[o]]]

(* a call that starts transfers; those through a blocking handle are complete when it returns *)
Start(S, bufs) ==
  LET block == {x \in S : hnd[<<xf[x].c, xf[x].o>>]}
      X == TLCEval(StartXf(S))
      nc == TLCEval(StartCand(S))
  IN /\ S \subseteq DOMAIN xf /\ \A x \in S : ~Active(x)
     /\ \A x \in block : BufferOk(X[x], bufs[x])
     /\ xf' = DoneXf(X, block) /\ cand' = DoneCand(X, block, nc)
     /\ saved' = Since(nc)
     /\ UNCHANGED <<ob, hnd>>
(* a call that starts transfers, before it returns *)
Begin(S) ==
  LET nc == TLCEval(StartCand(S)) IN
  /\ S \subseteq DOMAIN xf /\ \A x \in S : ~Active(x)
  /\ xf' = StartXf(S) /\ cand' = nc /\ saved' = Since(nc)
  /\ UNCHANGED <<ob, hnd>>
(* one that is under way cannot be started again *)
StartAgain(x) == x \in DOMAIN xf /\ Active(x) /\ UNCHANGED dvars

Done(S, bufs) ==
  /\ S \subseteq DOMAIN xf /\ \A x \in S : Active(x) /\ BufferOk(xf[x], bufs[x])
  /\ xf' = DoneXf(xf, S) /\ cand' = DoneCand(xf, S, cand)
  /\ UNCHANGED <<ob, hnd, saved>>

(* a wait for a transfer that is not under way returns at once; one for several fails *)
Wait(x, ok, bufs) == IF Active(x) THEN ok /\ Done({x}, bufs) ELSE ok /\ UNCHANGED dvars
WaitAll(S, ok, bufs) == IF \A x \in S : Active(x) THEN ok /\ Done(S, bufs) ELSE ~ok /\ UNCHANGED dvars
(* 0 complete, 1 pending, 2 not under way *)
Status(x, st, bufs) ==
  \/ st = 2 /\ ~Active(x) /\ UNCHANGED dvars
  \/ st = 1 /\ Active(x) /\ UNCHANGED dvars
  \/ st = 0 /\ Active(x) /\ Done({x}, bufs)

Close(x) == /\ x \in DOMAIN xf /\ ~Active(x)
            /\ xf' = Drop(xf, {x}) /\ UNCHANGED <<ob, cand, hnd, saved>>

(* closing an object completes what is under way through the handle *)
ObClose(c, o, bufs) ==
  LET mine == {x \in DOMAIN xf : xf[x].c = c /\ xf[x].o = o}
      S == {x \in mine : Active(x)}
  IN /\ <<c, o>> \in DOMAIN hnd
     /\ \A x \in S : BufferOk(xf[x], bufs[x])
     /\ cand' = DoneCand(xf, S, cand)
     /\ xf' = Drop(xf, mine)
     /\ hnd' = Drop(hnd, {<<c, o>>})
     /\ UNCHANGED <<ob, saved>>

Unseen(S) == DoneCand(xf, S, cand)
Checkpoint == /\ saved' = [ob |-> ob, cand |-> cand] /\ UNCHANGED <<ob, cand, hnd, xf>>
(* the clients end, which completes their transfers; the servers save everything and start again *)
Restart == LET nc == Unseen({x \in DOMAIN xf : Active(x)}) IN
           /\ cand' = nc /\ saved' = [ob |-> ob, cand |-> nc]
           /\ hnd' = EmptyF /\ xf' = EmptyF /\ UNCHANGED ob
(* the servers end without saving, and start again from the last checkpoint *)
Crash == /\ ob' = saved.ob /\ cand' = saved.cand /\ saved' = saved
         /\ hnd' = EmptyF /\ xf' = EmptyF

--------------------------------------------------------------------------
DataInv ==
  /\ DOMAIN cand = DOMAIN ob
  /\ \A o \in DOMAIN ob : DOMAIN cand[o] = Cells(ob[o]) /\ \A cell \in DOMAIN cand[o] : cand[o][cell] # {}
  /\ \A h \in DOMAIN hnd : h[2] \in DOMAIN ob
  /\ \A x \in DOMAIN xf : <<xf[x].c, xf[x].o>> \in DOMAIN hnd
  /\ \A x \in ActiveW : \A k \in DOMAIN xf[x].cells : Token(xf[x], k) \in cand[xf[x].o][xf[x].cells[k]]
=============================================================================
