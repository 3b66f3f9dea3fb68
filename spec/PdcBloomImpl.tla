---------------------------- MODULE PdcBloomImpl ----------------------------
(***************************************************************************)
(* How the filters are made: per hash function a row of counters that can  *)
(* count up to Top, and a scaling filter as a row of counting ones of      *)
(* which the id of a key selects one.  For all hash functions, within its  *)
(* scope this implements PdcBloom: no key that is held is denied, an empty *)
(* filter holds nothing.                                                   *)
(***************************************************************************)
EXTENDS PdcUtil
CONSTANTS Keys, Rows, Cells, Top, Cap, Most, Scaling
VARIABLES hash, cnt, first, used, maxid, bag, n
vars == <<hash, cnt, first, used, maxid, bag, n>>
Zero == [r \in Rows |-> [c \in Cells |-> 0]]
Init == /\ hash \in [Keys -> [Rows -> Cells]] /\ cnt = <<Zero>> /\ first = <<0>> /\ used = <<0>> /\ maxid = 0
        /\ bag = [k \in Keys |-> 0] /\ n = 0
(* the newest filter whose first id is not above the id *)
Sel(id) == CHOOSE i \in DOMAIN first : first[i] <= id /\ \A j \in DOMAIN first : j > i => first[j] > id
Up(z, k) == [r \in Rows |-> [c \in Cells |-> IF hash[k][r] = c /\ z[r][c] < Top THEN z[r][c] + 1 ELSE z[r][c]]]
Down(z, k) == [r \in Rows |-> [c \in Cells |-> IF hash[k][r] = c /\ z[r][c] > 0 THEN z[r][c] - 1 ELSE z[r][c]]]
Total == SumOf(bag, Keys)
Add(k) ==
  /\ Total < Most /\ bag' = [bag EXCEPT ![k] = @ + 1] /\ n' = n + 1 /\ UNCHANGED hash
  /\ LET i == Sel(k) grow == Scaling /\ k > maxid /\ used[i] >= Cap - 1 IN
     IF grow
     THEN cnt' = Append(cnt, Up(Zero, k)) /\ first' = Append(first, maxid + 1) /\ used' = Append(used, 1)
     ELSE cnt' = [cnt EXCEPT ![i] = Up(@, k)] /\ used' = [used EXCEPT ![i] = @ + 1] /\ UNCHANGED first
  /\ maxid' = IF Scaling THEN Max(maxid, k) ELSE 0
Remove(k) ==
  /\ bag[k] > 0 /\ bag' = [bag EXCEPT ![k] = @ - 1] /\ n' = n + 1 /\ UNCHANGED <<hash, first, maxid>>
  /\ LET i == Sel(k) IN cnt' = [cnt EXCEPT ![i] = Down(@, k)] /\ used' = [used EXCEPT ![i] = @ - 1]
Next == \E k \in Keys : Add(k) \/ Remove(k)
Spec == Init /\ [][Next]_vars
Says(k) == \E i \in DOMAIN cnt : \A r \in Rows : cnt[i][r][hash[k][r]] > 0
NeverDenied == \A k \in Keys : bag[k] > 0 => Says(k)
EmptyIsEmpty == Total = 0 => \A k \in Keys : ~Says(k)
Counted == SumOf(used, DOMAIN used) = Total
View == <<hash, cnt, first, used, maxid, bag>>
=============================================================================
