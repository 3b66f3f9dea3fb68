---------------------------- MODULE TracePdcText ----------------------------
EXTENDS PdcText, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "reset"  -> list' = <<>>
    [] e.op = "add"    -> Append1(e.p)
    [] OTHER -> /\ UNCHANGED list
       /\ CASE e.op = "cut"   -> /\ e.part = Cut(e.s, e.from, e.to) /\ (e.tail = Cut(e.s, e.from, Max(e.from, Len(e.s))) \/ (e.from > Len(e.s) /\ e.tail = NIL)) = TRUE
                                 /\ e.head = Cut(e.s, 0, e.to) /\ e.back = Reverse(e.s)
            [] e.op = "find"  -> /\ e.at = IndexOf(e.s, e.t) /\ e.atc = IndexOf(e.s, <<e.c>>)
                                 /\ e.starts = IsPrefixOf(e.t, e.s) /\ e.ends = IsSuffixOf(e.t, e.s)
                                 /\ e.has = IsInfixOf(e.t, e.s) /\ e.is = (e.s = e.t)
            [] e.op = "match" -> e.kind = Kind(e.p) /\ e.yes = Matches(e.s, e.p)
            [] e.op = "split" -> e.parts = Split(e.s, e.d) /\ e.n = Len(e.parts) /\ e.rc = e.n
            [] e.op = "pair"  -> LET i == IndexOf(e.s, <<e.d>>) IN
                                 /\ e.key = (IF i < 0 THEN NIL ELSE SubSeq(e.s, 1, i))
                                 /\ e.value = (IF i < 0 THEN NIL ELSE SubSeq(e.s, i + 2, Len(e.s)))
            [] e.op = "tags"  -> LET k == TLCEval(Find(list, e.kp, NIL)) IN
                                 /\ e.text = list
                                 /\ e.found = Find(list, e.kp, e.vp) /\ e.keyfound = k
                                 /\ e.has = (k # NIL) /\ e.match = (e.found # NIL)
                                 /\ e.range = (k # NIL /\ Number(Value(k)) >= e.lo /\ Number(Value(k)) <= e.hi)
            [] e.op = "query" -> LET q == QueryFor(e.name, e.text, IF e.text THEN e.sval ELSE e.ival, e.kk, e.vk, e.n, e.lo, e.hi) IN
                                 /\ e.key = q.key /\ e.value = q.value /\ e.all = q.key \o <<Equal>> \o q.value
                                 /\ e.lens = <<Len(q.key), Len(q.value)>>
            [] e.op = "some"  -> e.tags = SomeTags(e.id, e.id % 20) /\ RandomOk(e.random, e.count, e.minlen, e.maxlen, e.size)
TraceInit == TextInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
