------------------------------- MODULE PdcDart -------------------------------
(***************************************************************************)
(* The distributed index of PDC's metadata (DART, suffix tree mode), as    *)
(* far as routing goes: a keyword is indexed by all of its suffixes, each  *)
(* of them on replicated servers that the client picks; a query is sent to *)
(* some servers only, and they must be enough.  Routing itself is left     *)
(* open: any choice of servers will do as long as inserts, deletes and     *)
(* queries fit together.                                                   *)
(***************************************************************************)
EXTENDS PdcUtil
VARIABLES sp,     \* space -> [ns, rep]: how many servers, how many replicas
          at      \* space -> (keyword -> set of <<server, key>> it is indexed under)
dvars == <<sp, at>>
DartInit == sp = EmptyF /\ at = EmptyF

INS == 1  EXACT == 2  PREFIX == 3  SUFFIX == 4  INFIX == 5  DEL == 6

Suffixes(w) == {SubSeq(w, i, Len(w)) : i \in 1..Len(w)}

(* does the keyword satisfy the query? *)
Match(q, t, w) ==
  CASE q = EXACT  -> w = t
    [] q = PREFIX -> IsPrefixOf(t, w)
    [] q = SUFFIX -> IsSuffixOf(t, w)
    [] q = INFIX  -> IsInfixOf(t, w)
(* under which keys would a server find it? *)
Keys(q, t, w) ==
  CASE q = EXACT  -> {w}
    [] q = PREFIX -> {w}
    [] q = SUFFIX -> {t}
    [] q = INFIX  -> {k \in Suffixes(w) : IsPrefixOf(t, k)}

(* the servers that a query goes to are enough to find every keyword that satisfies it *)
Enough(m, q, t, servers) ==
  \A w \in DOMAIN at[m] : Match(q, t, w) => \E e \in at[m][w] : e[1] \in servers /\ e[2] \in Keys(q, t, w)
EnoughDht(m, q, t, servers) ==
  \A w \in DOMAIN at[m] : Match(q, t, w) => \E e \in at[m][w] : e[1] \in servers

Space(m, ns, rep) == sp' = Put(sp, m, [ns |-> ns, rep |-> rep]) /\ at' = Put(at, m, EmptyF)
InRange(m, pairs) == \A i \in DOMAIN pairs : pairs[i][1] \in 0..(sp[m].ns - 1)

Ins(m, w, pairs) ==
  /\ InRange(m, pairs)
  /\ \A i \in DOMAIN pairs : pairs[i][2] \in Suffixes(w)
  /\ \A k \in Suffixes(w) : Cardinality({i \in DOMAIN pairs : pairs[i][2] = k}) = sp[m].rep
  /\ at' = [at EXCEPT ![m] = Put(@, w, (IF w \in DOMAIN @ THEN @[w] ELSE {}) \cup SeqSet(pairs))]
  /\ UNCHANGED sp
Del(m, w, pairs) ==
  /\ InRange(m, pairs)
  /\ w \in DOMAIN at[m] => at[m][w] \subseteq SeqSet(pairs)
  /\ at' = [at EXCEPT ![m] = Drop(@, {w})]
  /\ UNCHANGED sp
Ask(m, q, t, servers) ==
  /\ \A s \in servers : s \in 0..(sp[m].ns - 1)
  /\ Enough(m, q, t, servers) = TRUE
  /\ UNCHANGED dvars

(* the plain distributed hash table kept for comparison: a keyword has one server *)
DhtIns(m, w, pairs) ==
  /\ InRange(m, pairs) /\ Len(pairs) = 1
  /\ at' = [at EXCEPT ![m] = Put(@, w, {<<pairs[1][1], w>>})] /\ UNCHANGED sp
DhtAsk(m, q, t, servers) ==
  /\ \A s \in servers : s \in 0..(sp[m].ns - 1)
  /\ EnoughDht(m, q, t, servers) = TRUE
  /\ UNCHANGED dvars
=============================================================================
