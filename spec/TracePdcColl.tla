---------------------------- MODULE TracePdcColl ----------------------------
EXTENDS PdcColl, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Yes(x) == x = 1
Step(e) ==
  CASE e.op = "reset" -> cs' = EmptyF
    [] e.op = "hnew"  -> New(e.m, e.kind, Yes(e.own), EmptyF)
    [] e.op = "hput"  -> HPut(e.m, e.k, e.v, Yes(e.ok), e.fv, e.fk)
    [] e.op = "hget"  -> HGet(e.m, e.k, e.v)
    [] e.op = "hdel"  -> HDel(e.m, e.k, Yes(e.ok), e.fv, e.fk)
    [] e.op = "hnum"  -> Num(e.m, e.n)
    [] e.op = "hiter" -> HIter(e.m, e.seq) /\ Yes(e.end)
    [] e.op = "hfree" -> HFree(e.m, e.fv, e.fk)
    [] e.op = "hempty" -> HEmpty(e.m, e.fv, e.fk)
    [] e.op = "hsweep" -> HSweep(e.m, e.w, e.r, e.stop, e.seq, e.fv, e.fk)
    [] e.op = "snew"  -> New(e.m, e.kind, Yes(e.own), EmptyF)
    [] e.op = "sadd"  -> SAdd(e.m, e.k, Yes(e.ok), e.fk)
    [] e.op = "sdel"  -> SDel(e.m, e.k, Yes(e.ok), e.fk)
    [] e.op = "sq"    -> SHas(e.m, e.k, Yes(e.ok))
    [] e.op = "snum"  -> Num(e.m, e.n)
    [] e.op = "sarr"  -> SList(e.m, e.seq)
    [] e.op = "siter" -> SList(e.m, e.seq) /\ Yes(e.end)
    [] e.op = "suni"  -> Yes(e.ok) /\ SUnion(e.m, e.a, e.b)
    [] e.op = "sint"  -> Yes(e.ok) /\ SInter(e.m, e.a, e.b)
    [] e.op = "sfree" -> SFree(e.m, e.fk)
    [] e.op = "anew"  -> New(e.m, "a", FALSE, EmptyF)
    [] e.op = "aput"  -> APut(e.m, e.k, e.v, e.old, TRUE)
    [] e.op = "aputn" -> APut(e.m, e.k, e.v, e.old, FALSE)
    [] e.op = "aget"  -> AGet(e.m, e.k, e.v)
    [] e.op = "adel"  -> ADel(e.m, e.k, e.old)
    [] e.op = "anum"  -> Num(e.m, e.n)
    [] e.op = "aiter" -> AIter(e.m, e.stop, e.seq, e.rc)
    [] e.op = "apre"  -> APrefix(e.m, e.p, e.stop, e.seq, e.rc)
    [] e.op = "amin"  -> AMin(e.m, e.k, e.v)
    [] e.op = "amax"  -> AMax(e.m, e.k, e.v)
    [] e.op = "afree" -> Gone(e.m)
    [] e.op \in {"dnew", "knew", "vnew"} -> New(e.m, e.op, FALSE, <<>>)
    [] e.op = "dpf"   -> PushFront(e.m, e.v)
    [] e.op \in {"dpb", "kpush", "vadd"} -> PushBack(e.m, e.v)
    [] e.op = "dgf"   -> PopFront(e.m, e.v)
    [] e.op \in {"dgb", "kpop"} -> PopBack(e.m, e.v)
    [] e.op \in {"dnum", "knum", "vnum"} -> Size(e.m, e.n)
    [] e.op = "vget"  -> At(e.m, e.i, e.v)
    [] e.op = "viter" -> Listed(e.m, e.seq) /\ Yes(e.end)
    [] e.op \in {"dfree", "kfree", "vfree"} -> Gone(e.m)
    [] e.op = "cmp"   -> Compare(e.kind, e.a, e.b, e.c, Yes(e.e), Yes(e.h))
TraceInit == CollInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
