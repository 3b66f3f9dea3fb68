---------------------------- MODULE TracePdcRegion ----------------------------
EXTENDS PdcRegion, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "reset"   -> buf' = EmptyF
    [] e.op = "new"     -> New(e.b, e.off, e.size, e.val)
    [] e.op = "copy"    -> Copy(e.a, e.b, e.after) /\ e.kept = buf[e.a].val
    [] e.op = "gather"  -> Gather(e.a, e.b, e.after) /\ e.kept = buf[e.a].val
    [] e.op = "scatter" -> Scatter(e.a, e.b, e.after) /\ e.kept = buf[e.a].val
    [] e.op = "overlap" -> IsOverlap(e.o1, e.s1, e.o2, e.s2, e.yes)
    [] e.op = "where"   -> IsWhere(e.o1, e.s1, e.o2, e.s2, e.yes, e.off, e.size)
    [] e.op = "within"  -> IsWithin(e.o1, e.s1, e.o2, e.s2, e.yes)
TraceInit == RegionInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
