---------------------------- MODULE TracePdcData ----------------------------
(* Is a recorded run of real clients against real servers a behaviour of    *)
(* PdcData?  One event per returned client call, in the order of the calls. *)
EXTENDS PdcData, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Reset == /\ ob' = EmptyF /\ cand' = EmptyF /\ hnd' = EmptyF /\ xf' = EmptyF /\ saved' = NoSaved
B(e) == TLCEval([x \in {e.bufs[i].x : i \in DOMAIN e.bufs} |-> e.bufs[CHOOSE i \in DOMAIN e.bufs : e.bufs[i].x = x].buf])

Step(e) ==
  CASE e.op = "reset"   -> Reset
    [] e.op = "ocreate" -> e.ok /\ ObCreate(e.c, e.o, e.dims, e.posix)
    [] e.op = "oopen"   -> e.ok /\ ObOpen(e.c, e.o)
    [] e.op = "oclose"  -> e.ok /\ ObClose(e.c, e.o, B(e))
    [] e.op = "xfer"    -> e.ok /\ Create(e.x, e.c, e.o, e.acc, e.loff, e.lsize, e.off, e.size, e.base, e.len, "mv" \in DOMAIN e)
    [] e.op = "start"   -> IF e.ok THEN Start(SeqSet(e.xs), B(e)) ELSE Len(e.xs) = 1 /\ StartAgain(e.xs[1])
    \* calls that overlap with those of other clients are two events
    [] e.op = "begin"   -> Begin(SeqSet(e.xs))
    [] e.op = "complete" -> Done(SeqSet(e.xs), B(e))
    [] e.op = "wait"    -> Wait(e.x, e.ok, B(e))
    [] e.op = "waitall" -> WaitAll(SeqSet(e.xs), e.ok, B(e))
    [] e.op = "status"  -> Status(e.x, e.st, B(e))
    [] e.op = "xclose"  -> e.ok /\ Close(e.x)
    [] e.op = "flush"   -> e.ok /\ UNCHANGED dvars
    [] e.op = "ckpt"    -> e.ok /\ Checkpoint
    [] e.op = "restart" -> Restart
    [] e.op = "crash"   -> Crash

TraceInit == DataInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
