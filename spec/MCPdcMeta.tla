------------------------------ MODULE MCPdcMeta ------------------------------
(* A small instance of PdcMeta, and (with Record) the generator of the       *)
(* behaviours that are replayed against the real clients and servers.        *)
EXTENDS PdcMeta, Json
CONSTANTS Clients, CNames, ONames, TagKeys, TagVals, MaxIds, Steps,
          Users, Apps, TSs, Slots, Record,
          Profile   \* what a generator is to exercise: "name", "attr", "handle", "tags", "kvq",
                    \* "query", "restart" or "crash"
VARIABLES n, hist, saved
vars == <<mvars, n, hist, saved>>

Tags1 == {<<107>>}
Tags2 == {<<1>>, <<2>>}
Tags3 == {<<1>>, <<2>>, <<3>>}
IdName(k) == "i" \o ToString(k)
AllIds == {IdName(k) : k \in 1..MaxIds}
Fresh == IdName(Cardinality(used) + 1)
CanMint == Cardinality(used) < MaxIds

CH == {<<c, "c" \o ToString(s)>> : c \in Clients, s \in 1..Slots}
OH == {<<c, "o" \o ToString(s)>> : c \in Clients, s \in 1..Slots}
PH == {<<c, "p">> : c \in Clients}

Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist

IdsFor(name) == IF name \in DOMAIN conts THEN {conts[name]}
                ELSE IF CanMint THEN {Fresh} ELSE {}

(* a generator leaves some calls out most of the time; which ones depends on *)
(* what it is to exercise                                                    *)
Rare(k) == Record => RandomElement(1..100) <= k
For(w, k, m) == Rare(IF Profile \in w THEN k ELSE m)

(* a generator takes one random choice, an exhaustive search all of them *)
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Open(S)  == S \cap DOMAIN hd       \* handles in use, handles to spare
Spare(S) == S \ DOMAIN hd
Props    == PH \cap DOMAIN pr
LiveC    == {h \in Open(CH) : Has(conts, hd[h].name) /\ conts[hd[h].name] = hd[h].id}

NProp   == \E p \in Pick(PH \ DOMAIN pr) : PropNew(p) /\ Do([op |-> "prop", h |-> p])
NPropSet == For({"attr"}, 100, 50) /\ \E p \in Pick(Props), u \in Pick(Users), a \in Pick(Apps), t \in Pick(TSs) :
              /\ PropSet(p, [user |-> u, app |-> a, ts |-> t])
              /\ Do([op |-> "pset", h |-> p, user |-> u, app |-> a, ts |-> t])
NPropClose == Rare(10) /\ \E p \in Pick(Props) : PropClose(p) /\ Do([op |-> "pclose", h |-> p])
NContCreate == For({"handle", "name"}, 100, 60) /\ \E h \in Pick(Spare(CH)), x \in Pick(CNames) : \E id \in IdsFor(x) :
              ContCreate(h, x, id) /\ Do([op |-> "ccreate", h |-> h, name |-> x])
NContOpen == For({"handle"}, 90, 30) /\ \E h \in Pick(Spare(CH)), x \in Pick(CNames) : \E id \in AllIds \cup {"0"} :
              ContOpen(h, x, id) /\ Do([op |-> "copen", h |-> h, name |-> x])
NClose == For({"handle"}, 90, 30) /\ \E h \in Pick(Open(CH \cup OH)) : Close(h) /\ Do([op |-> "close", h |-> h])
NContDel == For({"name"}, 30, 8) /\ \E h \in Pick(LiveC), ok \in BOOLEAN : ContDel(h, ok) /\ Do([op |-> "cdel", h |-> h])
NObjCreate == \E hc \in Pick(Open(CH)) : \E h \in Pick({x \in Spare(OH) : x[1] = hc[1]}),
                 x \in Pick(ONames), p \in Pick({q \in Props : q[1] = hc[1]}) :
              /\ CanMint
              /\ \E id \in {"0", Fresh} : ObjCreate(h, hc, x, p, id)
              /\ Do([op |-> "ocreate", h |-> h, hc |-> hc, name |-> x, p |-> p])
NObjOpen == Rare(IF DOMAIN objs = {} THEN 3 ELSE 60) /\ \E h \in Pick(Spare(OH)), x \in Pick(ONames) : \E id \in Pick(IF Named(x, 0) = {} THEN {"0"} ELSE Named(x, 0)) :
              /\ IF id = "0" THEN ObjOpen(h, x, id, <<>>, -1, 1)
                 ELSE ObjOpen(h, x, id, objs[id].dims, objs[id].type, objs[id].part)
              /\ Do([op |-> "oopen", h |-> h, name |-> x])
NObjDel == For({"name"}, 60, 25) /\ \E h \in Pick(Open(OH)), ok \in BOOLEAN : ObjDel(h, ok) /\ Do([op |-> "odel", h |-> h])
NObjDelName == For({"name"}, 40, 10) /\ \E x \in Pick(ONames), p \in Pick(Props) :
              /\ Cardinality(Named(x, pr[p].ts)) < 2   \* which one would go is not determined
              /\ \E g \in DOMAIN objs \cup {"0"} : ObjDelName(x, p, g)
              /\ Do([op |-> "delname", name |-> x, p |-> p, c |-> p[1]])
(* mostly objects where it is queries that are of interest *)
Tagged == IF Record /\ Profile = "kvq" /\ Open(OH) # {} THEN Open(OH) ELSE Open(CH \cup OH)
NTagPut == For({"tags", "kvq"}, 100, 60) /\ \E h \in Pick(Tagged), k \in Pick(TagKeys), v \in Pick(TagVals) :
              TagPut(h, k, 0, v) /\ Do([op |-> "tput", h |-> h, key |-> k, val |-> v])
NTagDel == For({"tags", "kvq"}, 60, 15) /\ \E h \in Pick(Open(CH \cup OH)), k \in Pick(TagKeys) :
              TagDel(h, k) /\ Do([op |-> "tdel", h |-> h, key |-> k])
NTextTag == For({"query"}, 60, 20) /\ \E h \in Pick(Open(OH)), k \in Pick(TagKeys), ok \in BOOLEAN :
              /\ hd[h].id \in DOMAIN objs => Len(objs[hd[h].id].tags) < 4
              /\ TextTagAdd(h, k, ok) /\ Do([op |-> "addtag", h |-> h, text |-> k])
NTagGet == Record /\ For({"tags"}, 100, 30) /\ \E h \in Pick(Open(CH \cup OH)), k \in Pick(TagKeys) :
              UNCHANGED mvars /\ Do([op |-> "tget", h |-> h, key |-> k])
Looks == IF Profile \in {"tags", "kvq"} THEN {"kvq"} ELSE {"listall", "oexists", "kvq", "qtag", "citer", "partq"}
NLook == Record /\ For({"query", "kvq"}, 100, 50) /\ \E c \in Pick(Clients), x \in Pick(ONames), t \in Pick(TSs), k \in Pick(TagKeys),
                      v \in Pick(TagVals), w \in Pick(Looks) :
              UNCHANGED mvars /\ Do([op |-> w, c |-> c, name |-> x, ts |-> t, key |-> k, val |-> v])
NSee == Record /\ For({"attr"}, 100, 50) /\ \E h \in Pick(Open(OH)), w \in Pick({"oinfo", "odims"}) :
              UNCHANGED mvars /\ Do([op |-> w, h |-> h])
NIter == Record /\ For({"handle"}, 100, 30) /\ \E h \in Pick(Open(CH)) : UNCHANGED mvars /\ Do([op |-> "oiter", hc |-> h, c |-> h[1]])
NRestart == (Record => n > 8) /\ For({"restart"}, 40, 4) /\ Restart /\ Do([op |-> "restart"])

(* a checkpoint between calls, one that fails, a crash, and one while a checkpoint is made *)
Crashing == Profile = "crash"
NCkpt == Crashing /\ Rare(40) /\ saved' = Snapshot /\ UNCHANGED mvars /\ Do([op |-> "ckpt"])
NCkptFails == Crashing /\ Rare(30) /\ saved' \in {saved, Snapshot} /\ UNCHANGED mvars /\ Do([op |-> "ckptfail"])
NCrash == (Record => n > 4) /\ Crashing /\ Rare(25) /\ CrashTo(saved) /\ UNCHANGED saved /\ Do([op |-> "crash"])
NCrashIn == (Record => n > 4) /\ Crashing /\ Rare(25) /\ \E s \in {saved, Snapshot} : CrashTo(s) /\ saved' = s /\ Do([op |-> "crashin"])

Init == MetaInit /\ n = 0 /\ hist = <<>> /\ saved = NoSnapshot
Calls == \/ NObjCreate \/ (Record /\ NObjCreate) \/ (Record /\ NObjCreate) \/ NProp \/ NPropSet \/ NPropClose \/ NContCreate \/ NContOpen \/ NClose \/ NContDel
       \/ NObjOpen \/ NObjDel \/ NObjDelName \/ NTagPut \/ NTagDel \/ NTextTag
       \/ NTagGet \/ NLook \/ NSee \/ NIter
Act == (Calls /\ UNCHANGED saved) \/ (NRestart /\ saved' = Snapshot) \/ NCkpt \/ NCkptFails \/ NCrash \/ NCrashIn
Emit == /\ Record /\ n = Steps
        /\ PrintT("HIST " \o ToJson(hist))
        /\ n' = n + 1 /\ UNCHANGED <<mvars, hist, saved>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars
View == IF Crashing THEN <<mvars, saved>> ELSE mvars

(* what is saved stands on its own *)
SavedSound == /\ DOMAIN saved.kv = DOMAIN saved.objs \cup {saved.conts[c] : c \in DOMAIN saved.conts}
              /\ DOMAIN saved.kv \subseteq saved.used
=============================================================================
