------------------------------ MODULE PdcRegion ------------------------------
(***************************************************************************)
(* Regions of objects, which everything that moves data is built on: when  *)
(* two of them overlap and where, when one is part of another, and copies  *)
(* between buffers that hold regions.  A region is a box of cells, given   *)
(* by its first cell and its size; all of it is defined by sets of cells.  *)
(***************************************************************************)
EXTENDS PdcUtil
VARIABLES buf    \* buffer -> the region it holds and the value of every cell
rvars == <<buf>>

RegionInit == buf = EmptyF

(* the coordinates of the cells of a region, in row-major order *)
RECURSIVE Coords(_, _)
Coords(off, size) ==
  IF off = <<>> THEN << <<>> >>
  ELSE LET rest == Coords(Tail(off), Tail(size))
           n == Len(rest)
       IN [k \in 1..(size[1] * n) |-> <<off[1] + (k - 1) \div n>> \o rest[((k - 1) % n) + 1]]
CellsOf(off, size) == SeqSet(Coords(off, size))

(* the same by intervals; that it is the same is checked on all small regions *)
Overlaps(o1, s1, o2, s2) == \A i \in DOMAIN o1 : Max(o1[i], o2[i]) < Min(o1[i] + s1[i], o2[i] + s2[i])
OverOff(o1, o2) == [i \in DOMAIN o1 |-> Max(o1[i], o2[i])]
OverSize(o1, s1, o2, s2) == [i \in DOMAIN o1 |-> Min(o1[i] + s1[i], o2[i] + s2[i]) - Max(o1[i], o2[i])]
Within(o1, s1, o2, s2) == \A i \in DOMAIN o1 : o2[i] <= o1[i] /\ o1[i] + s1[i] <= o2[i] + s2[i]

(* the values of a buffer by cell, and back *)
Map(b) == LET c == TLCEval(Coords(b.off, b.size)) IN [x \in SeqSet(c) |-> b.val[CHOOSE k \in DOMAIN c : c[k] = x]]
Patched(b, m) == LET c == TLCEval(Coords(b.off, b.size)) IN
                 [b EXCEPT !.val = [k \in DOMAIN @ |-> IF c[k] \in DOMAIN m THEN m[c[k]] ELSE @[k]]]

New(b, off, size, val) == Len(val) = ProdSeq(size) /\ buf' = Put(buf, b, [off |-> off, size |-> size, val |-> val])

(* what the copies leave behind: [to] is what they write, and nothing else changes *)
CopyTo(from, to) == [buf EXCEPT ![to] = Patched(@, Map(buf[from]))]
Copy(from, to, after) ==
  /\ {from, to} \subseteq DOMAIN buf /\ from # to
  /\ LET f == buf[from] t == buf[to] IN Len(f.off) = Len(t.off) /\ Overlaps(f.off, f.size, t.off, t.size)
  /\ buf' = CopyTo(from, to)
  /\ after = buf'[to].val
(* a part of a buffer is gathered into another, which then holds just that part *)
Gather(from, to, after) ==
  /\ {from, to} \subseteq DOMAIN buf /\ from # to
  /\ Within(buf[to].off, buf[to].size, buf[from].off, buf[from].size)
  /\ Copy(from, to, after)
(* and put back into it *)
Scatter(from, to, after) ==
  /\ {from, to} \subseteq DOMAIN buf /\ from # to
  /\ Within(buf[from].off, buf[from].size, buf[to].off, buf[to].size)
  /\ Copy(from, to, after)

(* answers *)
IsOverlap(o1, s1, o2, s2, yes) == yes = Overlaps(o1, s1, o2, s2) /\ UNCHANGED buf
IsWhere(o1, s1, o2, s2, yes, off, size) ==
  /\ yes = Overlaps(o1, s1, o2, s2)
  /\ (yes = TRUE => off = OverOff(o1, o2) /\ size = OverSize(o1, s1, o2, s2))
  /\ UNCHANGED buf
IsWithin(o1, s1, o2, s2, yes) == Overlaps(o1, s1, o2, s2) /\ yes = Within(o1, s1, o2, s2) /\ UNCHANGED buf
=============================================================================
