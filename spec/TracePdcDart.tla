---------------------------- MODULE TracePdcDart ----------------------------
EXTENDS PdcDart, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Servers(e) == {e.pairs[i][1] : i \in DOMAIN e.pairs}
Step(e) ==
  CASE e.op = "reset" -> sp' = EmptyF /\ at' = EmptyF
    [] e.op = "space" -> Space(e.m, e.ns, e.rep)
    [] e.op = "load"  -> UNCHANGED dvars
    [] e.op = "route" -> /\ e.n = Len(e.pairs)
                         /\ IF e.q = INS THEN Ins(e.m, e.t, e.pairs)
                            ELSE IF e.q = DEL THEN Del(e.m, e.t, e.pairs)
                            ELSE Ask(e.m, e.q, e.t, Servers(e))
    [] e.op = "dht"   -> /\ e.n = Len(e.pairs)
                         /\ IF e.q = INS THEN DhtIns(e.m, e.t, e.pairs)
                            ELSE IF e.q = DEL THEN Del(e.m, e.t, e.pairs)
                            ELSE DhtAsk(e.m, e.q, e.t, Servers(e))
TraceInit == DartInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
