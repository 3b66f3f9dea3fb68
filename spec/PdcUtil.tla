------------------------------ MODULE PdcUtil ------------------------------
(* Small operators shared by the specifications of PDC. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyF == [x \in {} |-> 0]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks)  == [x \in (DOMAIN f) \ ks |-> f[x]]
Keep(f, ks)  == [x \in (DOMAIN f) \cap ks |-> f[x]]
Has(f, k)    == k \in DOMAIN f
SeqSet(s)    == {s[i] : i \in DOMAIN s}
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

(* [f] over the keys of the record upd overridden by it *)
Over(f, upd) == [x \in DOMAIN f |-> IF x \in DOMAIN upd THEN upd[x] ELSE f[x]]

(* strings are sequences of character codes wherever the code looks inside them *)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
IsInfixOf(p, s)  == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
Star == 42
(* exact, prefix* , *suffix and *infix* patterns *)
Matches(s, p) ==
    IF p = <<>> THEN s = <<>>
    ELSE LET b == p[1] = Star
             e == p[Len(p)] = Star
         IN IF b /\ e /\ Len(p) > 1 THEN IsInfixOf(SubSeq(p, 2, Len(p) - 1), s)
            ELSE IF e THEN IsPrefixOf(SubSeq(p, 1, Len(p) - 1), s)
            ELSE IF b THEN IsSuffixOf(SubSeq(p, 2, Len(p)), s)
            ELSE s = p
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
(* the elements of a sub-box, in row-major order, as places in a box of the given shape *)
RECURSIVE Box(_, _, _)
Box(dims, off, size) ==
  IF dims = <<>> THEN <<0>>
  ELSE LET rest == Box(Tail(dims), Tail(off), Tail(size))
           stride == ProdSeq(Tail(dims))
           n == Len(rest)
       IN [k \in 1..(size[1] * n) |-> (off[1] + (k - 1) \div n) * stride + rest[((k - 1) % n) + 1]]

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
=============================================================================
