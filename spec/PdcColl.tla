------------------------------ MODULE PdcColl ------------------------------
(***************************************************************************)
(* The collections that clients and servers of PDC are built from: hash    *)
(* tables, sets, the adaptive radix tree, deque, stack and vector.  One    *)
(* action per call, with its arguments and results.  Keys are sequences of *)
(* bytes, or strings where they are numbers; values are numbers.           *)
(***************************************************************************)
EXTENDS PdcUtil

VARIABLES cs      \* handle -> [kind, own, d]
cvars == <<cs>>
CollInit == cs = EmptyF

(* Two keys are the same key when their canonical forms are equal: tables  *)
(* of kind "n" do not distinguish upper from lower case                    *)
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Canon(kind, k) == IF kind = "n" THEN [i \in DOMAIN k |-> Lower(k[i])] ELSE k

Alive(h) == h \in DOMAIN cs
D(h) == cs[h].d
K(h, k) == Canon(cs[h].kind, k)
Upd(h, d) == cs' = [cs EXCEPT ![h].d = d]
Same == UNCHANGED cs

New(h, kind, own, d) == cs' = Put(cs, h, [kind |-> kind, own |-> own, d |-> d])
Gone(h) == Alive(h) /\ cs' = Drop(cs, {h})

--------------------------------------------------------------------------
(* Hash tables: canonical key -> <<key, value>>.  A table that owns its    *)
(* keys and values frees each of them exactly when it lets go of it: fv    *)
(* are the values freed during the call, fk how many keys were.  Keys that *)
(* are plain pointers (kind "p") are not freed.                            *)
Freed(h, c) == IF cs[h].own /\ c \in DOMAIN D(h) THEN <<D(h)[c][2]>> ELSE <<>>
FreedK(h, c) == IF cs[h].own /\ cs[h].kind # "p" /\ c \in DOMAIN D(h) THEN 1 ELSE 0
HPut(h, k, v, ok, fv, fk) ==
  /\ Alive(h) /\ ok
  /\ LET c == K(h, k) IN
     /\ fv = Freed(h, c) /\ fk = FreedK(h, c)
     /\ Upd(h, Put(D(h), c, <<k, v>>))
HGet(h, k, v) ==
  /\ Alive(h) /\ Same
  /\ v = IF K(h, k) \in DOMAIN D(h) THEN D(h)[K(h, k)][2] ELSE -1
HDel(h, k, ok, fv, fk) ==
  /\ Alive(h)
  /\ LET c == K(h, k) IN
     /\ ok = (c \in DOMAIN D(h))
     /\ fv = Freed(h, c) /\ fk = FreedK(h, c)
     /\ Upd(h, Drop(D(h), {c}))
Num(h, n) == Alive(h) /\ Same /\ n = Cardinality(DOMAIN D(h))
Visit(S, seq) == Len(seq) = Cardinality(S) /\ {seq[i] : i \in DOMAIN seq} = S
HIter(h, seq) ==
  /\ Alive(h) /\ Same
  /\ Visit({D(h)[c] : c \in DOMAIN D(h)}, seq)
(* the entries S leave the table *)
HLeave(h, S, fv, fk) ==
  /\ Upd(h, Drop(D(h), S))
  /\ IF ~cs[h].own THEN fv = <<>> /\ fk = 0
     ELSE /\ fk = IF cs[h].kind = "p" THEN 0 ELSE Cardinality(S)
          /\ Len(fv) = Cardinality(S)
          /\ \A i \in DOMAIN fv : CountIn(fv, fv[i]) = Cardinality({c \in S : D(h)[c][2] = fv[i]})
HEmpty(h, fv, fk) == Alive(h) /\ HLeave(h, DOMAIN D(h), fv, fk)
(* A traversal that removes, as it goes, the entries whose value leaves r   *)
(* when divided by w, and ends after `stop' entries (0: goes on to the end) *)
HSweep(h, w, r, stop, seq, fv, fk) ==
  /\ Alive(h)
  /\ LET S == {c \in DOMAIN D(h) : \E i \in DOMAIN seq : seq[i] = D(h)[c][2]} IN
     /\ Len(seq) = Cardinality(S)
     /\ Len(seq) = IF stop = 0 \/ stop > Cardinality(DOMAIN D(h)) THEN Cardinality(DOMAIN D(h)) ELSE stop
     /\ HLeave(h, {c \in S : D(h)[c][2] % w = r}, fv, fk)
HFree(h, fv, fk) ==
  /\ Gone(h)
  /\ IF ~cs[h].own THEN fv = <<>> /\ fk = 0
     ELSE /\ fk = IF cs[h].kind = "p" THEN 0 ELSE Cardinality(DOMAIN D(h))
          /\ Len(fv) = Cardinality(DOMAIN D(h))
          /\ \A i \in DOMAIN fv : CountIn(fv, fv[i]) = Cardinality({c \in DOMAIN D(h) : D(h)[c][2] = fv[i]})

--------------------------------------------------------------------------
(* Sets: canonical key -> key, the key first inserted stays *)
SFree1(h, c) == IF cs[h].own /\ c \in DOMAIN D(h) THEN 1 ELSE 0
SAdd(h, k, ok, fk) ==
  /\ Alive(h) /\ fk = 0
  /\ LET c == K(h, k) IN
     /\ ok = (c \notin DOMAIN D(h))
     /\ Upd(h, IF ok THEN Put(D(h), c, k) ELSE D(h))
SDel(h, k, ok, fk) ==
  /\ Alive(h)
  /\ LET c == K(h, k) IN
     /\ ok = (c \in DOMAIN D(h)) /\ fk = SFree1(h, c)
     /\ Upd(h, Drop(D(h), {c}))
SHas(h, k, ok) == Alive(h) /\ Same /\ ok = (K(h, k) \in DOMAIN D(h))
SList(h, seq) == Alive(h) /\ Same /\ Visit({D(h)[c] : c \in DOMAIN D(h)}, seq)
SUnion(r, a, b) ==
  /\ Alive(a) /\ Alive(b) /\ cs[a].kind = cs[b].kind
  /\ New(r, cs[a].kind, FALSE, [c \in DOMAIN D(a) \cup DOMAIN D(b) |-> IF c \in DOMAIN D(a) THEN D(a)[c] ELSE D(b)[c]])
SInter(r, a, b) ==
  /\ Alive(a) /\ Alive(b) /\ cs[a].kind = cs[b].kind
  /\ New(r, cs[a].kind, FALSE, [c \in DOMAIN D(a) \cap DOMAIN D(b) |-> D(a)[c]])
SFree(h, fk) == Gone(h) /\ fk = IF cs[h].own THEN Cardinality(DOMAIN D(h)) ELSE 0

--------------------------------------------------------------------------
(* The radix tree: an ordered map from byte strings, which are terminated  *)
(* by a zero and have none inside                                          *)
RECURSIVE Lex(_, _, _)
Lex(a, b, i) ==      \* a before b, given that they agree up to i - 1
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE Lex(a, b, i + 1)
Before(a, b) == Lex(a, b, 1)

APut(h, k, v, old, replace) ==
  /\ Alive(h)
  /\ old = IF k \in DOMAIN D(h) THEN D(h)[k] ELSE -1
  /\ Upd(h, IF replace \/ k \notin DOMAIN D(h) THEN Put(D(h), k, v) ELSE D(h))
AGet(h, k, v) == Alive(h) /\ Same /\ v = IF k \in DOMAIN D(h) THEN D(h)[k] ELSE -1
ADel(h, k, old) ==
  /\ Alive(h)
  /\ old = IF k \in DOMAIN D(h) THEN D(h)[k] ELSE -1
  /\ Upd(h, Drop(D(h), {k}))
(* in order, and up to the stop-th, where the callback ends the iteration *)
InOrder(d, seq, stop, rc) ==
  LET n == Cardinality(DOMAIN d)
      m == IF stop > 0 /\ stop < n THEN stop ELSE n
      got == {seq[i][1] : i \in DOMAIN seq}
  IN /\ Len(seq) = m
     /\ rc = IF stop > 0 /\ stop <= n THEN 77 ELSE 0
     /\ got \subseteq DOMAIN d
     /\ \A i \in DOMAIN seq : d[seq[i][1]] = seq[i][2]
     /\ \A i \in 1..(m - 1) : Before(seq[i][1], seq[i + 1][1])
     /\ m > 0 => \A k \in DOMAIN d \ got : Before(seq[m][1], k)
AIter(h, stop, seq, rc) == Alive(h) /\ Same /\ InOrder(D(h), seq, stop, rc)
APrefix(h, p, stop, seq, rc) ==
  /\ Alive(h) /\ Same
  /\ InOrder(Keep(D(h), {k \in DOMAIN D(h) : IsPrefixOf(p, k)}), seq, stop, rc)
AMin(h, k, v) ==
  /\ Alive(h) /\ Same
  /\ IF D(h) = EmptyF THEN v = -1
     ELSE /\ k \in DOMAIN D(h) /\ v = D(h)[k]
          /\ \A x \in DOMAIN D(h) \ {k} : Before(k, x)
AMax(h, k, v) ==
  /\ Alive(h) /\ Same
  /\ IF D(h) = EmptyF THEN v = -1
     ELSE /\ k \in DOMAIN D(h) /\ v = D(h)[k]
          /\ \A x \in DOMAIN D(h) \ {k} : Before(x, k)

--------------------------------------------------------------------------
(* Deque, stack and vector: sequences *)
PushBack(h, v)  == Alive(h) /\ Upd(h, Append(D(h), v))
PushFront(h, v) == Alive(h) /\ Upd(h, <<v>> \o D(h))
PopBack(h, v) ==
  /\ Alive(h)
  /\ IF D(h) = <<>> THEN v = -1 /\ Same
     ELSE v = D(h)[Len(D(h))] /\ Upd(h, SubSeq(D(h), 1, Len(D(h)) - 1))
PopFront(h, v) ==
  /\ Alive(h)
  /\ IF D(h) = <<>> THEN v = -1 /\ Same
     ELSE v = Head(D(h)) /\ Upd(h, Tail(D(h)))
At(h, i, v) == Alive(h) /\ Same /\ v = IF i < Len(D(h)) THEN D(h)[i + 1] ELSE -1
Size(h, n) == Alive(h) /\ Same /\ n = Len(D(h))
Listed(h, seq) == Alive(h) /\ Same /\ seq = D(h)

--------------------------------------------------------------------------
(* Comparison, equality and hash of two keys of a kind: a and b are        *)
(* encoded so that their order is the lexicographic one                    *)
Compare(kind, a, b, c, e, h) ==
  LET x == Canon(kind, a)
      y == Canon(kind, b)
  IN /\ c = IF x = y THEN 0 ELSE IF Before(x, y) THEN -1 ELSE 1
     /\ e = (x = y)
     /\ x = y => h
     /\ Same
=============================================================================
