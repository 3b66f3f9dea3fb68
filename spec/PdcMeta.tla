------------------------------- MODULE PdcMeta -------------------------------
(***************************************************************************)
(* The name space of PDC: containers, objects, their tags, the property    *)
(* lists objects are created from, the handles clients hold, and what is   *)
(* left of all that after every server was checkpointed, stopped and       *)
(* started again.  One action per client operation; an action takes the    *)
(* arguments of the call and the result the client saw, and is enabled     *)
(* exactly when that result is allowed.                                    *)
(*                                                                         *)
(* How many servers there are, and which of them holds what, is not part   *)
(* of the state: no result may depend on it.                               *)
(***************************************************************************)
EXTENDS PdcUtil

VARIABLES
  conts,   \* name -> id of the live container with that name
  objs,    \* id -> record of the live object
  kv,      \* id of a live container or object -> (tag name -> <<type, value>>)
  used,    \* every id ever handed out, live or not
  hd,      \* handle (client and slot) -> what it stands for
  pr       \* handle of a property list -> its fields
mvars == <<conts, objs, kv, used, hd, pr>>

MetaInit ==
  /\ conts = EmptyF /\ objs = EmptyF /\ kv = EmptyF
  /\ used = {} /\ hd = EmptyF /\ pr = EmptyF

Live == {conts[n] : n \in DOMAIN conts} \cup DOMAIN objs

DefaultProp == [dims |-> <<>>, type |-> -1, ts |-> 0, user |-> 0, app |-> "Noname",
                tags |-> <<32>>, part |-> 1, cons |-> 4]

--------------------------------------------------------------------------
(* Property lists *)
PropNew(p) ==
  /\ pr' = Put(pr, p, DefaultProp)
  /\ UNCHANGED <<conts, objs, kv, used, hd>>

PropSet(p, upd) ==
  /\ p \in DOMAIN pr
  /\ pr' = [pr EXCEPT ![p] = Over(@, upd)]
  /\ UNCHANGED <<conts, objs, kv, used, hd>>

PropDup(q, p) ==
  /\ p \in DOMAIN pr
  /\ pr' = Put(pr, q, pr[p])
  /\ UNCHANGED <<conts, objs, kv, used, hd>>

PropClose(p) ==
  /\ p \in DOMAIN pr
  /\ pr' = Drop(pr, {p})
  /\ UNCHANGED <<conts, objs, kv, used, hd>>

PropGet(p, dims, type, part, cons) ==
  /\ p \in DOMAIN pr
  /\ pr[p].dims = dims /\ pr[p].type = type /\ pr[p].part = part /\ pr[p].cons = cons
  /\ UNCHANGED mvars

--------------------------------------------------------------------------
(* Containers *)
ContHandle(id, name) == [kind |-> "c", id |-> id, name |-> name]

(* creating a container that exists opens it *)
ContCreate(h, name, id) ==
  /\ IF name \in DOMAIN conts
       THEN /\ id = conts[name]
            /\ UNCHANGED <<conts, kv, used>>
       ELSE /\ id \notin used /\ id # "0"
            /\ conts' = Put(conts, name, id)
            /\ kv' = Put(kv, id, EmptyF)
            /\ used' = used \cup {id}
  /\ hd' = Put(hd, h, ContHandle(id, name))
  /\ UNCHANGED <<objs, pr>>

(* id is "0" when the open failed *)
ContOpen(h, name, id) ==
  /\ IF name \in DOMAIN conts
       THEN /\ id = conts[name]
            /\ hd' = Put(hd, h, ContHandle(id, name))
       ELSE /\ id = "0"
            /\ hd' = Drop(hd, {h})
  /\ UNCHANGED <<conts, objs, kv, used, pr>>

(* an object handle remembers the container handle it was created through, *)
(* until that one is closed                                                *)
NoHandle == <<>>
Close(h) ==
  /\ h \in DOMAIN hd
  /\ hd' = [x \in DOMAIN hd \ {h} |->
              IF hd[x].kind = "o" /\ hd[x].via = h THEN [hd[x] EXCEPT !.via = NoHandle] ELSE hd[x]]
  /\ UNCHANGED <<conts, objs, kv, used, pr>>

(* deleting a container leaves its objects *)
ContDel(h, ok) ==
  /\ h \in DOMAIN hd /\ hd[h].kind = "c"
  /\ LET id == hd[h].id
         ns == {n \in DOMAIN conts : conts[n] = id}
     IN /\ ok = (ns # {})
        /\ conts' = Drop(conts, ns)
        /\ kv' = Drop(kv, {id})
  /\ UNCHANGED <<objs, used, hd, pr>>

(* the containers a client has handles of, once per handle *)
ContIter(c, seq) ==
  LET hs == {h \in DOMAIN hd : h[1] = c /\ hd[h].kind = "c"} IN
  /\ Len(seq) = Cardinality(hs)
  /\ \A i \in DOMAIN seq :
        CountIn(seq, seq[i]) = Cardinality({h \in hs : <<hd[h].name, hd[h].id>> = seq[i]})
  /\ UNCHANGED mvars

--------------------------------------------------------------------------
(* Objects *)
Same(a, b) ==   \* two objects that may not both exist
  /\ a.name = b.name /\ a.ts = b.ts
  /\ (a.user = 0 \/ b.user = 0 \/ a.user = b.user)
  /\ (a.app = "" \/ b.app = "" \/ a.app = b.app)

ObjRec(name, cont, p) ==
  [name |-> name, cont |-> cont, ts |-> p.ts, user |-> p.user, app |-> p.app,
   dims |-> p.dims, type |-> p.type, part |-> p.part, tags |-> p.tags]

ObjHandle(id, r, cons, via) ==
  [kind |-> "o", id |-> id, name |-> r.name, via |-> via, ts |-> r.ts,
   dims |-> r.dims, type |-> r.type, part |-> r.part, cons |-> cons, redim |-> FALSE]

ObjCreate(h, hc, name, p, id) ==
  /\ hc \in DOMAIN hd /\ hd[hc].kind = "c" /\ p \in DOMAIN pr
  /\ LET r == ObjRec(name, hd[hc].id, pr[p])
         dup == \E o \in DOMAIN objs : Same(objs[o], r)
     IN IF dup
          THEN /\ id = "0"
               /\ hd' = Drop(hd, {h})
               /\ UNCHANGED <<objs, kv, used>>
          ELSE /\ id \notin used /\ id # "0"
               /\ objs' = Put(objs, id, r)
               /\ kv' = Put(kv, id, EmptyF)
               /\ used' = used \cup {id}
               /\ hd' = Put(hd, h, ObjHandle(id, r, pr[p].cons, hc))
  /\ UNCHANGED <<conts, pr>>

Named(name, ts) == {o \in DOMAIN objs : objs[o].name = name /\ objs[o].ts = ts}

(* opening by name finds an object of time step 0; several users or        *)
(* applications may have one of that name                                  *)
ObjOpen(h, name, id, dims, type, part) ==
  /\ IF Named(name, 0) = {}
       THEN id = "0" /\ hd' = Drop(hd, {h})
       ELSE /\ id \in Named(name, 0)
            /\ dims = objs[id].dims /\ type = objs[id].type /\ part = objs[id].part
            /\ hd' = Put(hd, h, ObjHandle(id, objs[id], 0, NoHandle))
  /\ UNCHANGED <<conts, objs, kv, used, pr>>

(* what a handle says about its object does not change after it was opened *)
ObjInfo(h, name, id, dims, type, part, cons) ==
  /\ h \in DOMAIN hd /\ hd[h].kind = "o"
  /\ name = hd[h].name /\ id = hd[h].id /\ type = hd[h].type /\ part = hd[h].part
  /\ cons = hd[h].cons
  /\ hd[h].redim \/ dims = hd[h].dims
  /\ UNCHANGED mvars

ObjDims(h, dims) ==
  /\ h \in DOMAIN hd /\ hd[h].kind = "o" /\ dims = hd[h].dims
  /\ UNCHANGED mvars

ObjDel(h, ok) ==
  /\ h \in DOMAIN hd /\ hd[h].kind = "o"
  /\ ok = (hd[h].id \in DOMAIN objs)
  /\ objs' = Drop(objs, {hd[h].id})
  /\ kv' = Drop(kv, {hd[h].id})
  /\ UNCHANGED <<conts, used, hd, pr>>

(* deletion by name, with the time step of a property list *)
ObjDelName(name, p, gone) ==
  /\ p \in DOMAIN pr
  /\ LET c == {o \in DOMAIN objs : /\ objs[o].name = name /\ objs[o].ts = pr[p].ts} IN
     /\ IF c = {} THEN gone = "0" ELSE gone \in c
     /\ objs' = Drop(objs, {gone})
     /\ kv' = Drop(kv, {gone})
  /\ UNCHANGED <<conts, used, hd, pr>>

ObjSetDims(h, dims, ok) ==
  /\ h \in DOMAIN hd /\ hd[h].kind = "o" /\ Len(dims) = Len(hd[h].dims)
  /\ LET c == Named(hd[h].name, hd[h].ts) IN
     /\ ok = (c # {})
     /\ IF c = {} THEN UNCHANGED objs
        ELSE \E o \in c : objs' = [objs EXCEPT ![o].dims = [i \in DOMAIN @ |-> IF i <= Len(dims) THEN dims[i] ELSE @[i]]]
  /\ hd' = [hd EXCEPT ![h].dims = dims, ![h].redim = TRUE]
  /\ UNCHANGED <<conts, kv, used, pr>>

(* the record the metadata server holds of a name and time step *)
ObjExists(name, ts, id, r) ==
  /\ IF Named(name, ts) = {}
       THEN id = "0"
       ELSE id \in Named(name, ts) /\ objs[id] = r
  /\ UNCHANGED mvars

(* iteration finds the handles of objects created through the container handle *)
ObjIter(c, hc, seq) ==
  /\ hc \in DOMAIN hd /\ hd[hc].kind = "c"
  /\ LET hs == {h \in DOMAIN hd : hd[h].kind = "o" /\ hd[h].via = hc} IN
     /\ Len(seq) = Cardinality(hs)
     /\ \A i \in DOMAIN seq :
          CountIn(seq, seq[i]) = Cardinality({h \in hs : <<hd[h].name, hd[h].id>> = seq[i]})
  /\ UNCHANGED mvars

--------------------------------------------------------------------------
(* Tags: key-value pairs of containers and objects *)
TagPut(h, key, type, val) ==
  /\ h \in DOMAIN hd
  /\ LET id == hd[h].id IN
     kv' = IF id \in DOMAIN kv THEN [kv EXCEPT ![id] = Put(@, key, <<type, val>>)] ELSE kv
  /\ UNCHANGED <<conts, objs, used, hd, pr>>

NoTag == <<"none">>
TagGet(h, key, res) ==
  /\ h \in DOMAIN hd
  /\ LET id == hd[h].id IN
     res = IF id \in DOMAIN kv /\ key \in DOMAIN kv[id] THEN kv[id][key] ELSE NoTag
  /\ UNCHANGED mvars

TagDel(h, key) ==
  /\ h \in DOMAIN hd
  /\ LET id == hd[h].id IN
     kv' = IF id \in DOMAIN kv THEN [kv EXCEPT ![id] = Drop(@, {key})] ELSE kv
  /\ UNCHANGED <<conts, objs, used, hd, pr>>

(* the objects (never containers) with a tag whose name matches the pattern *)
(* and whose type and value are those asked for                             *)
PdcString == 4
CStr(s) == LET z == {i \in DOMAIN s : s[i] = 0} IN   \* up to the terminating zero
           IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
TagHit(id, npat, type, vpat) ==
  \E key \in DOMAIN kv[id] :
     /\ Matches(key, npat)
     /\ kv[id][key][1] = type
     /\ IF type = PdcString THEN Matches(CStr(kv[id][key][2]), CStr(vpat)) ELSE kv[id][key][2] = vpat

TagQuery(npat, type, vpat, ids) ==
  /\ ids = {id \in DOMAIN objs : TagHit(id, npat, type, vpat)}
  /\ UNCHANGED mvars

(* the free-text tags of an object *)
TextTagAdd(h, text, ok) ==
  /\ h \in DOMAIN hd /\ hd[h].kind = "o"
  /\ LET id == hd[h].id IN
     /\ ok = (id \in DOMAIN objs)
     /\ objs' = IF id \in DOMAIN objs THEN [objs EXCEPT ![id].tags = @ \o <<44>> \o text] ELSE objs
  /\ UNCHANGED <<conts, kv, used, hd, pr>>

TextTagQuery(text, ids) ==
  /\ ids = {id \in DOMAIN objs : IsInfixOf(text, objs[id].tags)}
  /\ UNCHANGED mvars

--------------------------------------------------------------------------
(* Metadata queries *)
ListAll(seq) ==
  /\ Len(seq) = Cardinality(DOMAIN objs)
  /\ {seq[i] : i \in DOMAIN seq} = {<<id, objs[id].name, objs[id].ts>> : id \in DOMAIN objs}
  /\ UNCHANGED mvars

(* any of the constraints may be absent: user and dimension count 0,       *)
(* application and name "", no range of time steps, no text                *)
PartQuery(q, seq) ==
  LET Hit(o) ==
        /\ q.user <= 0 \/ q.user = o.user
        /\ q.app = "" \/ q.app = o.app
        /\ q.name = "" \/ q.name = o.name
        /\ (q.t0 <= 0 \/ q.t1 <= 0) \/ (o.ts >= q.t0 /\ o.ts <= q.t1)
        /\ q.ndim <= 0 \/ q.ndim = Len(o.dims)
        /\ q.text = <<>> \/ IsInfixOf(q.text, o.tags)
  IN /\ Len(seq) = Cardinality({id \in DOMAIN objs : Hit(objs[id])})
     /\ {seq[i] : i \in DOMAIN seq} =
          {<<id, objs[id].name, objs[id].ts>> : id \in {x \in DOMAIN objs : Hit(objs[x])}}
     /\ UNCHANGED mvars

--------------------------------------------------------------------------
(* every server is checkpointed and stopped, every client goes; the servers *)
(* start again from the checkpoints                                         *)
Restart ==
  /\ hd' = EmptyF /\ pr' = EmptyF
  /\ UNCHANGED <<conts, objs, kv, used>>

(* What a checkpoint keeps.  When the servers end without saving, it is what *)
(* is there after they were started again: ids handed out since may be used  *)
(* again, for nobody can know them any more.                                 *)
Snapshot == [conts |-> conts, objs |-> objs, kv |-> kv, used |-> used]
NoSnapshot == [conts |-> EmptyF, objs |-> EmptyF, kv |-> EmptyF, used |-> {}]
CrashTo(s) ==
  /\ conts' = s.conts /\ objs' = s.objs /\ kv' = s.kv /\ used' = s.used
  /\ hd' = EmptyF /\ pr' = EmptyF

(* a client closes the library, and may start again *)
ClientEnd(c) ==
  /\ hd' = Drop(hd, {h \in DOMAIN hd : h[1] = c})
  /\ pr' = Drop(pr, {h \in DOMAIN pr : h[1] = c})
  /\ UNCHANGED <<conts, objs, kv, used>>

--------------------------------------------------------------------------
(* What always holds *)
UniqueIds ==
  /\ \A m, n \in DOMAIN conts : m # n => conts[m] # conts[n]
  /\ \A n \in DOMAIN conts : conts[n] \notin DOMAIN objs
NoDuplicates == \A a, b \in DOMAIN objs : a # b => ~Same(objs[a], objs[b])
LiveUsed     == Live \subseteq used
TagsOfLive   == DOMAIN kv = Live
HandlesUsed  == \A h \in DOMAIN hd : hd[h].id \in used
MetaInv == UniqueIds /\ NoDuplicates /\ LiveUsed /\ TagsOfLive /\ HandlesUsed

(* ids are never forgotten, hence never handed out twice *)
NeverReused == [][used \subseteq used' /\ (Live' \ Live) \cap used = {}]_mvars
(* an object's identity never changes while it lives *)
Immutable == [][\A o \in DOMAIN objs \cap DOMAIN objs' :
                  /\ objs'[o].name = objs[o].name /\ objs'[o].ts = objs[o].ts
                  /\ objs'[o].cont = objs[o].cont /\ objs'[o].type = objs[o].type]_mvars
=============================================================================
