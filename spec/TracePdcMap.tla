----------------------------- MODULE TracePdcMap -----------------------------
(* Is a recorded run of real clients against real servers a behaviour of    *)
(* PdcMap?  One event per returned client call, in the order of the calls;  *)
(* for a call that has to wait, one when it is made and one when it returns.*)
EXTENDS PdcMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Reset == /\ ob' = EmptyF /\ cell' = EmptyF /\ opn' = {} /\ mem' = EmptyF /\ held' = EmptyF /\ wait' = EmptyF
Rg(e) == <<e.off, e.size>>

Step(e) ==
  CASE e.op = "reset"   -> Reset
    [] e.op = "ocreate" -> e.ok /\ ObCreate(e.c, e.o, e.dims)
    [] e.op = "oopen"   -> e.ok /\ ObOpen(e.c, e.o)
    [] e.op = "write"   -> e.ok /\ Write(e.c, e.o, Rg(e), e.base)
    [] e.op = "read"    -> e.ok /\ Read(e.c, e.o, Rg(e), e.buf)
    [] e.op = "map"     -> e.ok /\ Map(e.c, e.o, Rg(e), e.base)
    [] e.op = "fill"    -> Fill(e.c, e.o, Rg(e), e.base)
    [] e.op = "look"    -> Look(e.c, e.o, Rg(e), e.buf)
    [] e.op = "unmap"   -> e.ok /\ Unmap(e.c, e.o, Rg(e))
    [] e.op = "lock"    -> IF e.ok THEN Lock(e.c, e.o, Rg(e)) ELSE ~e.block /\ Refused(e.c, e.o, Rg(e))
    [] e.op = "asks"    -> Asks(e.c, e.o, Rg(e))
    [] e.op = "gets"    -> e.ok /\ Gets(e.c)
    [] e.op = "release" -> IF e.ok THEN Release(e.c, e.o, Rg(e), e.acc, e.buf) ELSE NoRelease(e.c, e.o, Rg(e))
    [] e.op = "restart" -> Restart

TraceInit == MapInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
