------------------------------- MODULE PdcFile -------------------------------
(***************************************************************************)
(* Files: what is written to one is what is read from it, as lines or as   *)
(* bytes, at once or through open streams.                                 *)
(***************************************************************************)
EXTENDS PdcUtil
VARIABLES file,   \* name -> bytes
          open    \* stream -> [f, w, pos]
ivars == <<file, open>>
NL == 10
FileInit == file = EmptyF /\ open = EmptyF

Busy(f) == \E h \in DOMAIN open : open[h].f = f /\ open[h].w
InUse(f) == \E h \in DOMAIN open : open[h].f = f
RECURSIVE Lines(_)
Lines(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<NL>> \o Lines(Tail(ls))
RECURSIVE LinesOf(_)
LinesOf(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET i == TLCEval({k \in DOMAIN b : b[k] = NL}) IN
       IF i = {} THEN <<b>> ELSE LET k == CHOOSE k \in i : \A j \in i : k <= j IN <<SubSeq(b, 1, k - 1)>> \o LinesOf(SubSeq(b, k + 1, Len(b)))
Zeros(n) == [i \in 1..n |-> 0]

WriteText(f, ls, ok) == ~InUse(f) /\ ok /\ file' = Put(file, f, Lines(ls)) /\ UNCHANGED open
ReadText(f, ls, ok) == f \in DOMAIN file /\ ~Busy(f) /\ ok /\ ls = LinesOf(file[f]) /\ UNCHANGED ivars
WriteBinary(f, b, ok) == ~InUse(f) /\ ok /\ file' = Put(file, f, b) /\ UNCHANGED open
ReadBinary(f, n, b, ok) ==
  /\ f \in DOMAIN file /\ ~Busy(f) /\ ok = (n <= Len(file[f])) /\ b = SubSeq(file[f], 1, Min(n, Len(file[f])))
  /\ UNCHANGED ivars
(* some bytes are replaced, beyond the end if so *)
Update(f, b, at, ok) ==
  /\ f \in DOMAIN file /\ ~InUse(f) /\ ok
  /\ file' = [file EXCEPT ![f] = LET o == @ IN
       IF b = <<>> THEN o
       ELSE SubSeq(o, 1, Min(at, Len(o))) \o Zeros(Max(0, at - Len(o))) \o b \o SubSeq(o, at + Len(b) + 1, Len(o))]
  /\ UNCHANGED open
(* what does not fit is reported *)
WriteFull(b, ok) == ok = (b = <<>>) /\ UNCHANGED ivars

Open(h, f, mode) ==
  /\ h \notin DOMAIN open
  /\ IF mode = "r" THEN f \in DOMAIN file /\ ~Busy(f) ELSE ~InUse(f)
  /\ file' = IF mode = "w" THEN Put(file, f, <<>>) ELSE IF mode = "a" /\ f \notin DOMAIN file THEN Put(file, f, <<>>) ELSE file
  /\ open' = Put(open, h, [f |-> f, w |-> mode # "r", pos |-> 0])
Close(h, ok) == h \in DOMAIN open /\ ok /\ open' = Drop(open, {h}) /\ UNCHANGED file
Write(h, b, ok) == /\ h \in DOMAIN open /\ open[h].w /\ ok
                   /\ file' = [file EXCEPT ![open[h].f] = @ \o b] /\ UNCHANGED open
(* the whole file, wherever the stream is *)
Read(h, b, ok) == /\ h \in DOMAIN open /\ ~open[h].w /\ ok /\ b = file[open[h].f]
                  /\ open' = [open EXCEPT ![h].pos = Len(b)] /\ UNCHANGED file
ReadLine(h, size, line, ok) ==
  /\ h \in DOMAIN open /\ ~open[h].w /\ size >= 2
  /\ LET rest == TLCEval(SubSeq(file[open[h].f], open[h].pos + 1, Len(file[open[h].f])))
         nl == {k \in DOMAIN rest : rest[k] = NL}
         m == Min(size - 1, IF nl = {} THEN Len(rest) ELSE CHOOSE k \in nl : \A j \in nl : k <= j)
         got == SubSeq(rest, 1, m)
     IN /\ ok = (rest # <<>>)
        /\ (ok => line = (IF got[m] = NL THEN SubSeq(got, 1, m - 1) ELSE got))
        /\ open' = [open EXCEPT ![h].pos = @ + m]
  /\ UNCHANGED file
=============================================================================
