---------------------------- MODULE TracePdcBloom ----------------------------
EXTENDS PdcBloom, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "reset"  -> filt' = EmptyF
    [] e.op = "new"    -> New(e.f, e.kind, e.cap, e.inv)
    [] e.op = "free"   -> Free(e.f)
    [] e.op = "add"    -> Add(e.f, e.lo, e.hi)
    [] e.op = "remove" -> Remove(e.f, e.lo, e.hi)
    [] e.op = "check"  -> Check(e.f, e.k, e.yes)
    [] e.op = "all"    -> CheckAll(e.f, SeqSet(e.yes), e.count)
    [] e.op = "probe"  -> Probe(e.f, e.n, e.wrong)
TraceInit == BloomInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
