--------------------------- MODULE TracePdcIndex ---------------------------
EXTENDS PdcIndex, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "reset" -> facts' = {} /\ post' = {} /\ open' = EmptyF
    [] e.op = "add"   -> e.ok /\ Add(e.k, e.v, e.o)
    [] e.op = "del"   -> e.ok /\ Del(e.k, e.v, e.o)
    [] e.op = "begin" -> IF e.call = "ask" THEN Begin(e.c, e.call, <<>>, e.kp, e.vp) ELSE Begin(e.c, e.call, <<e.k, e.v, e.o>>, <<>>, <<>>)
    [] e.op = "end"   -> /\ e.ok
                         /\ e.n = Len(e.ids) /\ Cardinality(SeqSet(e.ids)) = e.n
                         /\ End(e.c, SeqSet(e.ids))
    [] e.op = "ask"   -> /\ UNCHANGED ivars
                         /\ e.n = Len(e.ids) /\ Cardinality(SeqSet(e.ids)) = e.n     \* each object once
                         /\ Answers(e.kp, e.vp, SeqSet(e.ids))
TraceInit == IndexInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
