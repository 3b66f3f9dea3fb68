------------------------------ MODULE MCPdcColl ------------------------------
(* A small instance of PdcColl, and the generator of histories of calls.     *)
EXTENDS PdcColl, Json
CONSTANTS What,      \* "hash", "set", "art" or "seq"
          Hs,        \* handles
          Ks,        \* keys (abstract: numbers)
          Vs,        \* values; a generator hands out new ones instead
          Steps, Record
VARIABLES n, hist, put, out
\* put, out: how often each value went into an owning hash table, and was freed by one
vars == <<cvars, n, hist, put, out>>

Keys300 == 1..300
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Rare(k) == Record => RandomElement(1..100) <= k
Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist
Val == IF Record THEN {n} ELSE Vs
Hm == DOMAIN cs
Keys(h) == DOMAIN D(h)
Inc(f, s) == [v \in Vs |-> f[v] + CountIn(s, v)]
Ghost(p, o) == IF Record THEN UNCHANGED <<put, out>> ELSE put' = Inc(put, p) /\ out' = Inc(out, o)
NoGhost == UNCHANGED <<put, out>>
\* a key that is there more often than not
Key(h) == Pick(IF Record /\ Keys(h) # {} /\ RandomElement(1..100) <= 50 THEN Keys(h) ELSE Ks)

GNew == \E h \in Pick(Hs \ Hm), o \in Pick(BOOLEAN) :
          /\ New(h, What, o, IF What = "seq" THEN <<>> ELSE EmptyF)
          /\ Do([op |-> "new", m |-> h, own |-> o]) /\ NoGhost

(* hash tables *)
Put1 == What = "hash" /\ \E h \in Pick(Hm) : \E k \in Key(h), v \in Val :
          /\ HPut(h, k, v, TRUE, Freed(h, k), FreedK(h, k))
          /\ Do([op |-> "put", m |-> h, k |-> k])
          /\ Ghost(IF cs[h].own THEN <<v>> ELSE <<>>, Freed(h, k))
Del1 == What = "hash" /\ \E h \in Pick(Hm) : \E k \in Key(h), ok \in BOOLEAN :
          /\ HDel(h, k, ok, Freed(h, k), FreedK(h, k))
          /\ Do([op |-> "del", m |-> h, k |-> k])
          /\ Ghost(<<>>, Freed(h, k))
RECURSIVE Vals(_, _)
Vals(d, S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE x \in S : TRUE IN <<d[c][2]>> \o Vals(d, S \ {c})
Free1 == What = "hash" /\ \E h \in Pick(Hm) : Rare(5) /\
          LET fv == IF cs[h].own THEN Vals(D(h), DOMAIN D(h)) ELSE <<>> IN
          /\ HFree(h, fv, IF cs[h].own THEN Cardinality(DOMAIN D(h)) ELSE 0)
          /\ Do([op |-> "free", m |-> h]) /\ Ghost(<<>>, fv)
Empty1 == What = "hash" /\ \E h \in Pick(Hm) : Rare(15) /\
          LET fv == IF cs[h].own THEN Vals(D(h), DOMAIN D(h)) ELSE <<>> IN
          /\ IF Record THEN Upd(h, EmptyF) ELSE HEmpty(h, fv, Len(fv))
          /\ Do([op |-> "empty", m |-> h]) /\ Ghost(<<>>, fv)
Sweep1 == What = "hash" /\ \E h \in Pick(Hm) :
          LET T == {c \in DOMAIN D(h) : D(h)[c][2] % 2 = 1}
              fv == IF cs[h].own THEN Vals(D(h), T) ELSE <<>> IN
          /\ IF Record THEN UNCHANGED cvars ELSE HSweep(h, 2, 1, 0, Vals(D(h), DOMAIN D(h)), fv, Len(fv))
          /\ Do([op |-> "sweep", m |-> h]) /\ Ghost(<<>>, fv)

(* sets *)
Add2 == What = "set" /\ \E h \in Pick(Hm) : \E k \in Key(h), ok \in BOOLEAN :
          SAdd(h, k, ok, 0) /\ Do([op |-> "put", m |-> h, k |-> k]) /\ NoGhost
Del2 == What = "set" /\ \E h \in Pick(Hm) : \E k \in Key(h), ok \in BOOLEAN, f \in 0..1 :
          SDel(h, k, ok, f) /\ Do([op |-> "del", m |-> h, k |-> k]) /\ NoGhost
Two2 == What = "set" /\ \E a \in Pick(Hm), b \in Pick(Hm), r \in Pick(Hs \ Hm), u \in Pick(BOOLEAN) :
          /\ IF u THEN SUnion(r, a, b) ELSE SInter(r, a, b)
          /\ Do([op |-> IF u THEN "uni" ELSE "int", m |-> r, a |-> a, b |-> b]) /\ NoGhost
Free2 == What = "set" /\ Rare(30) /\ \E h \in Pick(Hm) :
          \E f \in 0..Cardinality(DOMAIN D(h)) : SFree(h, f) /\ Do([op |-> "free", m |-> h]) /\ NoGhost

(* radix tree: keys are numbers here, their bytes are chosen by the executor *)
Put3 == What = "art" /\ \E h \in Pick(Hm) : \E k \in Key(h), v \in Val, r \in Pick(BOOLEAN) :
          /\ APut(h, k, v, IF k \in DOMAIN D(h) THEN D(h)[k] ELSE -1, r)
          /\ Do([op |-> IF r THEN "put" ELSE "putn", m |-> h, k |-> k]) /\ NoGhost
Del3 == What = "art" /\ \E h \in Pick(Hm) : \E k \in Key(h) :
          /\ ADel(h, k, IF k \in DOMAIN D(h) THEN D(h)[k] ELSE -1)
          /\ Do([op |-> "del", m |-> h, k |-> k]) /\ NoGhost

(* many keys at once, so that tables and nodes grow and shrink *)
Fill == Record /\ What # "seq" /\ \E h \in Pick(Hm), a \in Pick(Ks), s \in Pick({1, 2, 3}), w \in Pick({10, 40, 150}) :
          LET S == {k \in Ks : k >= a /\ k < a + w /\ (k - a) % s = 0} IN
          /\ Upd(h, [k \in DOMAIN D(h) \cup S |-> IF k \in DOMAIN D(h) THEN D(h)[k] ELSE <<k, 0>>])
          /\ Do([op |-> "fill", m |-> h, a |-> a, w |-> w, s |-> s]) /\ NoGhost
Drain == Record /\ What # "seq" /\ \E h \in Pick(Hm), a \in Pick(Ks), s \in Pick({1, 1, 2}), w \in Pick({10, 40, 150}) :
          LET S == {k \in Ks : k >= a /\ k < a + w /\ (k - a) % s = 0} IN
          /\ Upd(h, Drop(D(h), S))
          /\ Do([op |-> "drain", m |-> h, a |-> a, w |-> w, s |-> s]) /\ NoGhost
Look == Record /\ What # "seq" /\ \E h \in Pick(Hm) : \E k \in Key(h), w \in Pick({"get", "get", "num", "list", "prefix", "prefix", "ends"}) :
          UNCHANGED cvars /\ Do([op |-> w, m |-> h, k |-> k, x |-> RandomElement(0..9)]) /\ NoGhost

(* sequences; runs of pushes and pops, so that they grow and shrink *)
Push4 == What = "seq" /\ \E h \in Pick(Hm), v \in Val, b \in Pick(BOOLEAN) :
          /\ IF b THEN PushBack(h, v) ELSE PushFront(h, v)
          /\ Do([op |-> IF b THEN "pb" ELSE "pf", m |-> h]) /\ NoGhost
Pop4 == What = "seq" /\ \E h \in Pick(Hm), b \in Pick(BOOLEAN) :
          /\ IF b THEN \E v \in SeqSet(D(h)) \cup {-1} : PopBack(h, v)
                  ELSE \E v \in SeqSet(D(h)) \cup {-1} : PopFront(h, v)
          /\ Do([op |-> IF b THEN "gb" ELSE "gf", m |-> h]) /\ NoGhost
Run4 == Record /\ What = "seq" /\ \E h \in Pick(Hm), w \in Pick({"pb", "pf", "gb", "gf"}), c \in Pick({3, 8, 15, 16, 17, 40}) :
          /\ Upd(h, IF w \in {"pb", "pf"} THEN D(h) \o [i \in 1..c |-> 0] ELSE SubSeq(D(h), c + 1, Len(D(h))))
          /\ Do([op |-> "run", m |-> h, w |-> w, c |-> c]) /\ NoGhost
Look4 == Record /\ What = "seq" /\ \E h \in Pick(Hm), w \in Pick({"num", "get", "list"}) :
          UNCHANGED cvars /\ Do([op |-> w, m |-> h, x |-> RandomElement(0..9)]) /\ NoGhost

Init == CollInit /\ n = 0 /\ hist = <<>> /\ put = [v \in Vs |-> 0] /\ out = [v \in Vs |-> 0]
Act == GNew \/ Put1 \/ Put1 \/ Del1 \/ Free1 \/ Empty1 \/ Sweep1 \/ Add2 \/ Add2 \/ Del2 \/ Two2 \/ Free2 \/ Put3 \/ Put3 \/ Del3
       \/ Fill \/ Drain \/ Look \/ Look \/ Push4 \/ Pop4 \/ Run4 \/ Look4
Emit == /\ Record /\ n = Steps
        /\ PrintT("HIST " \o ToJson(hist))
        /\ n' = n + 1 /\ UNCHANGED <<cvars, hist, put, out>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars

(* every value that went into an owning table is in it, or was freed, once *)
Kept(v) == SumSet([h \in Hm |-> IF cs[h].own THEN Cardinality({c \in DOMAIN D(h) : D(h)[c][2] = v}) ELSE 0], Hm)
FreedOnce == What = "hash" /\ ~Record => \A v \in Vs : put[v] = out[v] + Kept(v)
(* a union has what either has, an intersection what both have, and sets do not have a key twice *)
SetLaws == What = "set" => \A a, b \in Hm :
             /\ DOMAIN [c \in DOMAIN D(a) \cup DOMAIN D(b) |-> 0] = DOMAIN D(a) \cup DOMAIN D(b)
             /\ \A c \in DOMAIN D(a) : Canon("set", D(a)[c]) = c
(* a byte string is before, equal to or after another *)
B3 == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>}
Total == /\ \A a, b \in B3 : (a = b /\ ~Before(a, b) /\ ~Before(b, a)) \/ (a # b /\ (Before(a, b) # Before(b, a)))
         /\ \A a, b, c \in B3 : Before(a, b) /\ Before(b, c) => Before(a, c)
         /\ \A a, b, p \in B3 : IsPrefixOf(p, a) /\ IsPrefixOf(p, b) => \A x \in B3 : Before(a, x) /\ Before(x, b) => IsPrefixOf(p, x)
ASSUME Total
View == <<cs, put, out>>
=============================================================================
