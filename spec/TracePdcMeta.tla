---------------------------- MODULE TracePdcMeta ----------------------------
(* Is a recorded run of real clients against real servers a behaviour of    *)
(* PdcMeta?  One event per returned client call, in the order of the calls. *)
EXTENDS PdcMeta, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, saved,
  grp,    \* where the calls begin that several clients made at the same time, 0 outside of such
  done    \* those of them that have taken effect

Reset == /\ conts' = EmptyF /\ objs' = EmptyF /\ kv' = EmptyF
         /\ used' = {} /\ hd' = EmptyF /\ pr' = EmptyF

Ckpt(e) ==
  CASE e.op \in {"reset"} -> saved' = NoSnapshot /\ Reset
    [] e.op = "restart"  -> saved' = Snapshot /\ Restart
    [] e.op = "ckpt"     -> saved' = Snapshot /\ UNCHANGED mvars
    [] e.op = "ckptfail" -> saved' = saved /\ UNCHANGED mvars
    [] e.op = "ckptmaybe" -> saved' \in {saved, Snapshot} /\ UNCHANGED mvars
    [] e.op = "crash"    -> saved' = saved /\ CrashTo(saved)
    [] e.op = "crashin"  -> \E s \in {saved, Snapshot} : saved' = s /\ CrashTo(s)
Special == {"reset", "restart", "ckpt", "ckptfail", "ckptmaybe", "crash", "crashin"}

Step(e) ==
  CASE e.op = "end"     -> ClientEnd(e.c)
    [] e.op = "prop"    -> e.ok /\ PropNew(e.h)
    [] e.op = "pset"    -> e.ok /\ PropSet(e.h, e.upd)
    [] e.op = "pdup"    -> e.ok /\ PropDup(e.h, e.from)
    [] e.op = "pclose"  -> e.ok /\ PropClose(e.h)
    [] e.op = "pget"    -> PropGet(e.h, e.dims, e.type, e.part, e.cons)
    [] e.op = "ccreate" -> ContCreate(e.h, e.name, e.id)
    [] e.op = "copen"   -> ContOpen(e.h, e.name, e.id)
    [] e.op = "close"   -> e.ok /\ Close(e.h)
    [] e.op = "cdel"    -> ContDel(e.h, e.ok)
    [] e.op = "citer"   -> ContIter(e.c, e.seq)
    [] e.op = "ocreate" -> ObjCreate(e.h, e.hc, e.name, e.p, e.id)
    [] e.op = "oopen"   -> ObjOpen(e.h, e.name, e.id, e.dims, e.type, e.part)
    [] e.op = "oinfo"   -> ObjInfo(e.h, e.name, e.id, e.dims, e.type, e.part, e.cons)
    [] e.op = "odims"   -> ObjDims(e.h, e.dims)
    [] e.op = "odel"    -> ObjDel(e.h, e.ok)
    [] e.op = "delname" -> \E g \in DOMAIN objs \cup {"0"} : ObjDelName(e.name, e.p, g)
    [] e.op = "setdims" -> ObjSetDims(e.h, e.dims, e.ok)
    [] e.op = "oexists" -> ObjExists(e.name, e.ts, e.id, e.rec)
    [] e.op = "oiter"   -> ObjIter(e.c, e.hc, e.seq)
    [] e.op = "tput"    -> e.ok /\ TagPut(e.h, e.key, e.type, e.val)
    [] e.op = "tget"    -> TagGet(e.h, e.key, e.res)
    [] e.op = "tdel"    -> e.ok /\ TagDel(e.h, e.key)
    [] e.op = "kvq"     -> TagQuery(e.key, e.type, e.val, SeqSet(e.ids))
    [] e.op = "addtag"  -> TextTagAdd(e.h, e.text, e.ok)
    [] e.op = "qtag"    -> TextTagQuery(e.text, SeqSet(e.ids))
    [] e.op = "listall" -> ListAll(e.seq)
    [] e.op = "partq"   -> PartQuery(e.q, e.seq)

(* Calls that overlap take effect in any order in which one that returned   *)
(* before another was made comes before it.                                 *)
Group == IF grp = 0 THEN {} ELSE (grp + 1)..(grp + Trace[grp].n)
Next1(i) == \A j \in Group \ done : Trace[j].ret > Trace[i].inv
Overlap ==
  \E i \in Group \ done :
    /\ Next1(i)
    /\ Step(Trace[i])
    /\ IF done \cup {i} = Group THEN grp' = 0 /\ done' = {} ELSE grp' = grp /\ done' = done \cup {i}

TraceInit == MetaInit /\ l = 1 /\ saved = NoSnapshot /\ grp = 0 /\ done = {}
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF grp # 0 THEN Overlap /\ saved' = saved
     ELSE IF Trace[l].op = "par"
       THEN grp' = (IF Trace[l].n = 0 THEN 0 ELSE l) /\ done' = {} /\ saved' = saved /\ UNCHANGED mvars
       ELSE /\ UNCHANGED <<grp, done>>
            /\ IF Trace[l].op \in Special THEN Ckpt(Trace[l]) ELSE Step(Trace[l]) /\ saved' = saved
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l, saved, grp, done>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
