---------------------------- MODULE TracePdcPool ----------------------------
EXTENDS PdcPool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "reset"  -> pool' = EmptyF /\ job' = EmptyF /\ waiting' = EmptyF /\ asking' = EmptyF
    [] e.op = "init"   -> e.ok /\ Make(e.p, e.n)
    [] e.op = "addb"   -> AddBegin(e.p, e.j)
    [] e.op = "adde"   -> e.ok /\ AddEnd(e.p, e.j, e.by)
    [] e.op = "start"  -> Start(e.p, e.j)
    [] e.op = "end"    -> End(e.p, e.j)
    [] e.op = "waitb"  -> WaitBegin(e.c, e.p)
    [] e.op = "waite"  -> WaitEnd(e.c, e.p)
    [] e.op = "pause"  -> Pause(e.p)
    [] e.op = "resume" -> Resume(e.p)
    [] e.op = "destb"  -> DestroyBegin(e.p)
    [] e.op = "deste"  -> DestroyEnd(e.p)
    [] e.op = "workb"  -> AskBegin(e.c, e.p)
    [] e.op = "worke"  -> AskEnd(e.c, e.p, e.n)
    (* no memory is left over when all pools are gone *)
    [] e.op = "left"   -> e.n = 0 /\ pool = EmptyF /\ UNCHANGED pvars
TraceInit == PoolInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
