-------------------------------- MODULE PdcMap --------------------------------
(***************************************************************************)
(* Regions that are locked, and regions that are mapped to user buffers.   *)
(*                                                                         *)
(* The lock of a region is held by at most one client.  One that asks for  *)
(* a held lock is refused, or waits; when the lock is released, exactly    *)
(* one of those that wait gets it.  Releasing the lock of a region that    *)
(* the holder has mapped moves the elements: into the object after         *)
(* writing, into the buffer for reading.  Nothing else moves any.          *)
(*                                                                         *)
(* Objects are as in PdcData; the transfers of this module are complete    *)
(* when the call returns.  0 is an element that was never written.         *)
(***************************************************************************)
EXTENDS PdcUtil

VARIABLES
  ob,      \* object -> its dims
  cell,    \* object -> place -> the number of the value there
  opn,     \* <<client, object>>: handles
  mem,     \* <<client, object, region>> -> the elements of the mapped buffer
  held,    \* <<object, region>> -> the client that holds the lock, and whether releasing it moves elements
  wait     \* client -> the <<object, region>> whose lock it waits for
mvars == <<ob, cell, opn, mem, held, wait>>

(* a region is a pair of offsets and sizes *)
Val(n) == (n % 119) + 1
Unwritten == 0
Fits(dims, r) ==
  /\ Len(r[1]) = Len(dims) /\ Len(r[2]) = Len(dims)
  /\ \A i \in DOMAIN dims : r[1][i] >= 0 /\ r[2][i] >= 1 /\ r[1][i] + r[2][i] <= dims[i]
Cells(dims) == 0..(ProdSeq(dims) - 1)
Run(base, n) == [k \in 1..n |-> Val(base + k - 1)]

MapInit == /\ ob = EmptyF /\ cell = EmptyF /\ opn = {} /\ mem = EmptyF /\ held = EmptyF /\ wait = EmptyF
Free(c) == c \notin DOMAIN wait

ObCreate(c, o, dims) ==
  /\ Free(c) /\ o \notin DOMAIN ob
  /\ ob' = Put(ob, o, dims) /\ cell' = Put(cell, o, [x \in Cells(dims) |-> Unwritten])
  /\ opn' = opn \cup {<<c, o>>} /\ UNCHANGED <<mem, held, wait>>
ObOpen(c, o) ==
  /\ Free(c) /\ o \in DOMAIN ob /\ <<c, o>> \notin opn
  /\ opn' = opn \cup {<<c, o>>} /\ UNCHANGED <<ob, cell, mem, held, wait>>

Store(o, r, vals) ==
  LET b == TLCEval(Box(ob[o], r[1], r[2]))
      at == TLCEval([x \in SeqSet(b) |-> CHOOSE k \in DOMAIN b : b[k] = x])
  IN [cell EXCEPT ![o] = [x \in DOMAIN @ |-> IF x \in DOMAIN at THEN vals[at[x]] ELSE @[x]]]
Reads(o, r, vals) == (
  LET b == TLCEval(Box(ob[o], r[1], r[2])) IN
  /\ Len(vals) = Len(b)
  /\ \A k \in DOMAIN b : cell[o][b[k]] \in {Unwritten, vals[k]}) = TRUE

(* a transfer, complete when the call returns *)
Write(c, o, r, base) ==
  /\ Free(c) /\ <<c, o>> \in opn /\ Fits(ob[o], r)
  /\ cell' = Store(o, r, Run(base, ProdSeq(r[2]))) /\ UNCHANGED <<ob, opn, mem, held, wait>>
Read(c, o, r, vals) ==
  /\ Free(c) /\ <<c, o>> \in opn /\ Fits(ob[o], r)
  /\ Reads(o, r, vals) /\ UNCHANGED mvars

--------------------------------------------------------------------------
(* A buffer is mapped to a region, and what the user puts in the buffer *)
Held(o, r) == <<o, r>> \in DOMAIN held
Holds(c, o, r) == Held(o, r) /\ held[<<o, r>>].c = c
Mapped(c, o, r) == <<c, o, r>> \in DOMAIN mem
Map(c, o, r, base) ==
  /\ Free(c) /\ <<c, o>> \in opn /\ Fits(ob[o], r)
  /\ ~Mapped(c, o, r) /\ ~Holds(c, o, r)
  /\ mem' = Put(mem, <<c, o, r>>, Run(base, ProdSeq(r[2])))
  /\ UNCHANGED <<ob, cell, opn, held, wait>>
Fill(c, o, r, base) ==
  /\ Free(c) /\ Mapped(c, o, r)
  /\ mem' = [mem EXCEPT ![<<c, o, r>>] = Run(base, Len(@))]
  /\ UNCHANGED <<ob, cell, opn, held, wait>>
(* the buffer is as the user or the last release for reading left it *)
Look(c, o, r, vals) ==
  /\ Free(c) /\ Mapped(c, o, r) /\ vals = mem[<<c, o, r>>] /\ UNCHANGED mvars
Unmap(c, o, r) ==
  /\ Free(c) /\ Mapped(c, o, r)
  /\ mem' = Drop(mem, {<<c, o, r>>})
  /\ held' = IF Holds(c, o, r) THEN [held EXCEPT ![<<o, r>>].moves = FALSE] ELSE held
  /\ UNCHANGED <<ob, cell, opn, wait>>

--------------------------------------------------------------------------
(* The lock of a region *)
Grant(c, o, r) == Put(held, <<o, r>>, [c |-> c, moves |-> Mapped(c, o, r)])
Lock(c, o, r) ==
  /\ Free(c) /\ <<c, o>> \in opn /\ Fits(ob[o], r) /\ ~Held(o, r)
  /\ held' = Grant(c, o, r) /\ UNCHANGED <<ob, cell, opn, mem, wait>>
(* one that does not want to wait *)
Refused(c, o, r) ==
  /\ Free(c) /\ <<c, o>> \in opn /\ Held(o, r) /\ UNCHANGED mvars
(* one that waits, and gets it later *)
Asks(c, o, r) ==
  /\ Free(c) /\ <<c, o>> \in opn /\ Fits(ob[o], r)
  /\ wait' = Put(wait, c, <<o, r>>) /\ UNCHANGED <<ob, cell, opn, mem, held>>
Gets(c) ==
  /\ c \in DOMAIN wait /\ ~Held(wait[c][1], wait[c][2])
  /\ held' = Grant(c, wait[c][1], wait[c][2])
  /\ wait' = Drop(wait, {c}) /\ UNCHANGED <<ob, cell, opn, mem>>

(* buf: the elements of the mapped buffer when the call has returned *)
Release(c, o, r, acc, buf) ==
  /\ Free(c) /\ Holds(c, o, r)
  /\ held' = Drop(held, {<<o, r>>})
  /\ IF held[<<o, r>>].moves
     THEN IF acc = "W"
          THEN /\ buf = mem[<<c, o, r>>]
               /\ cell' = Store(o, r, buf) /\ UNCHANGED mem
          ELSE /\ Reads(o, r, buf)
               /\ mem' = [mem EXCEPT ![<<c, o, r>>] = buf] /\ UNCHANGED cell
     ELSE UNCHANGED <<mem, cell>>
  /\ UNCHANGED <<ob, opn, wait>>
(* there is no lock to release *)
NoRelease(c, o, r) == Free(c) /\ <<c, o>> \in opn /\ ~Held(o, r) /\ UNCHANGED mvars

(* the servers end in good order and start again; locks and maps are gone *)
Restart ==
  /\ DOMAIN wait = {}
  /\ opn' = {} /\ mem' = EmptyF /\ held' = EmptyF
  /\ UNCHANGED <<ob, cell, wait>>

MapInv ==
  /\ DOMAIN cell = DOMAIN ob
  /\ \A h \in opn : h[2] \in DOMAIN ob
  /\ \A k \in DOMAIN held : held[k].moves => <<held[k].c, k[1], k[2]>> \in DOMAIN mem
  /\ \A c \in DOMAIN wait : <<c, wait[c][1]>> \in opn
=============================================================================
