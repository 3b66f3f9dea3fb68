------------------------------ MODULE PdcBloom ------------------------------
(***************************************************************************)
(* Filters of the server's metadata table.  A filter stands for a bag of   *)
(* keys.  It may say that it holds a key it does not hold, now and then,   *)
(* but never that it does not hold one it does; an empty filter holds      *)
(* nothing.  A scaling filter grows by filters as keys with higher ids     *)
(* come in; a key is removed with the id it was added with.                *)
(***************************************************************************)
EXTENDS PdcUtil
VARIABLES filt   \* filter -> [kind, cap, inv, bag, top, fair]
fvars == <<filt>>
MaxMany == 3     \* a counter has four bits: a key is added only a few times
BloomInit == filt = EmptyF

Many(f, k) == IF k \in DOMAIN filt[f].bag THEN filt[f].bag[k] ELSE 0
Total(f) == SumOf(filt[f].bag, DOMAIN filt[f].bag)
Held(f) == {k \in DOMAIN filt[f].bag : filt[f].bag[k] > 0}
Less(f, ks) == [k \in DOMAIN filt[f].bag |-> filt[f].bag[k] - (IF k \in ks THEN 1 ELSE 0)]
More(f, ks) == [k \in DOMAIN filt[f].bag \cup ks |-> Many(f, k) + (IF k \in ks THEN 1 ELSE 0)]

New(f, kind, cap, inv) == filt' = Put(filt, f, [kind |-> kind, cap |-> cap, inv |-> inv, bag |-> EmptyF, top |-> 0, fair |-> TRUE])
Free(f) == f \in DOMAIN filt /\ filt' = Drop(filt, {f})

(* keys lo to hi come in, one after the other; a key's id is its number *)
Room(f, lo, hi) == filt[f].kind = "counting" => Total(f) + hi - lo + 1 <= filt[f].cap
Add(f, lo, hi) ==
  /\ f \in DOMAIN filt /\ lo >= 1 /\ Room(f, lo, hi) /\ \A k \in lo..hi : Many(f, k) < MaxMany
  /\ filt' = [filt EXCEPT ![f] = [@ EXCEPT !.bag = More(f, lo..hi), !.top = Max(@, hi),
                (* a scaling filter keeps to its error rate only if it can grow *)
                !.fair = @ /\ (filt[f].kind = "counting" \/ lo > filt[f].top)]]
Remove(f, lo, hi) ==
  /\ f \in DOMAIN filt /\ \A k \in lo..hi : Many(f, k) > 0
  /\ filt' = [filt EXCEPT ![f].bag = Less(f, lo..hi)]

Check(f, k, yes) ==
  /\ f \in DOMAIN filt /\ (Many(f, k) > 0 => yes) /\ (Total(f) = 0 => ~yes)
  /\ UNCHANGED filt
(* which of 1..upto are held, and how many *)
CheckAll(f, yes, count) ==
  /\ f \in DOMAIN filt /\ Held(f) \subseteq yes /\ (Total(f) = 0 => yes = {})
  /\ count = Total(f)
  /\ UNCHANGED filt
(* of n keys that were never added, some are said to be held: at most three times what the error rate promises, and
   what comes from two hashes making up all others, which shows in small filters *)
Parts(f) == IF filt[f].kind = "counting" THEN 1 ELSE 1 + filt[f].top \div (filt[f].cap - 1)
Probe(f, n, wrong) ==
  /\ f \in DOMAIN filt
  /\ (filt[f].fair => wrong <= 3 * (n \div filt[f].inv) + ((2 * n) \div filt[f].cap) * Parts(f) + 10)
  /\ (Total(f) = 0 => wrong = 0)
  /\ UNCHANGED filt
=============================================================================
