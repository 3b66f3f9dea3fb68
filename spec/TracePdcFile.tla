---------------------------- MODULE TracePdcFile ----------------------------
EXTENDS PdcFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  CASE e.op = "reset"  -> file' = EmptyF /\ open' = EmptyF
    [] e.op = "wtext"  -> WriteText(e.f, e.lines, e.ok)
    [] e.op = "rtext"  -> ReadText(e.f, e.lines, e.ok)
    [] e.op = "wbin"   -> WriteBinary(e.f, e.b, e.ok)
    [] e.op = "rbin"   -> ReadBinary(e.f, e.n, e.b, e.ok)
    [] e.op = "update" -> Update(e.f, e.b, e.at, e.ok)
    [] e.op = "full"   -> WriteFull(e.b, e.ok)
    [] e.op = "open"   -> Open(e.h, e.f, e.mode)
    [] e.op = "close"  -> Close(e.h, e.ok)
    [] e.op = "write"  -> Write(e.h, e.b, e.ok)
    [] e.op = "read"   -> Read(e.h, e.b, e.ok)
    [] e.op = "line"   -> ReadLine(e.h, e.size, e.line, e.ok)
TraceInit == FileInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
