------------------------------- MODULE PdcText -------------------------------
(***************************************************************************)
(* Text: cutting and searching strings, matching them with patterns, and   *)
(* lists of tags written as text, "k1=v1,k2=v2".  Strings are sequences of *)
(* character codes; NIL stands for no string.                              *)
(***************************************************************************)
EXTENDS PdcUtil
VARIABLES list   \* a list of tags that grows and is searched
tvars == <<list>>

NIL == <<-1>>
Comma == 44
Equal == 61
TextInit == list = <<>>

Cut(s, from, to) == IF from < 0 \/ to < from THEN NIL ELSE SubSeq(s, from + 1, Min(to, Len(s)))
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* the first place at which t is in s, counted from 0; -1 if there is none *)
IndexOf(s, t) == IF \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
                 THEN CHOOSE i \in 0..(Len(s) - Len(t)) : /\ SubSeq(s, i + 1, i + Len(t)) = t
                                                         /\ \A j \in 0..(i - 1) : SubSeq(s, j + 1, j + Len(t)) # t
                 ELSE -1
(* the parts between the delimiters *)
RECURSIVE Split(_, _)
Split(s, d) == LET i == IndexOf(s, d) IN
               IF i < 0 THEN <<s>> ELSE <<SubSeq(s, 1, i)>> \o Split(SubSeq(s, i + Len(d) + 1, Len(s)), d)
RECURSIVE Join(_, _)
Join(p, d) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o d \o Join(Tail(p), d)
(* 2 exact, 3 prefix, 4 suffix, 5 middle *)
Kind(p) == LET b == p # <<>> /\ p[1] = Star  e == p # <<>> /\ p[Len(p)] = Star
           IN IF b /\ e THEN 5 ELSE IF b THEN 4 ELSE IF e THEN 3 ELSE 2

(* the pairs of a list: the parts between commas that have an "=", the first of which ends the key *)
Key(p) == LET i == IndexOf(p, <<Equal>>) IN IF i < 0 THEN NIL ELSE SubSeq(p, 1, i)
Value(p) == LET i == IndexOf(p, <<Equal>>) IN IF i < 0 THEN NIL ELSE SubSeq(p, i + 2, Len(p))
PairsOf(t) == SelectSeq(Split(t, <<Comma>>), LAMBDA p : IndexOf(p, <<Equal>>) >= 0)
Fit(p, kp, vp) == Matches(Key(p), kp) /\ (vp = NIL \/ Matches(Value(p), vp))
(* the first pair whose key and value fit the patterns *)
Find(t, kp, vp) == LET ps == TLCEval(PairsOf(t)) IN
                   IF \E i \in DOMAIN ps : Fit(ps[i], kp, vp)
                   THEN ps[CHOOSE i \in DOMAIN ps : Fit(ps[i], kp, vp) /\ \A j \in 1..(i - 1) : ~Fit(ps[j], kp, vp)]
                   ELSE NIL

(* decimal numbers *)
Digit(c) == c \in 48..57
RECURSIVE Digits(_, _)
Digits(s, a) == IF s = <<>> \/ ~Digit(Head(s)) THEN a ELSE Digits(Tail(s), 10 * a + Head(s) - 48)
Number(s) == IF s = <<>> THEN 0 ELSE IF Head(s) = 45 THEN 0 - Digits(Tail(s), 0) ELSE IF Head(s) = 43 THEN Digits(Tail(s), 0) ELSE Digits(s, 0)
RECURSIVE Dec(_)
Dec(v) == IF v < 0 THEN <<45>> \o Dec(0 - v) ELSE IF v < 10 THEN <<48 + v>> ELSE Dec(v \div 10) \o <<48 + (v % 10)>>

(* the query that is made for a tag: a pattern of the given kind with at most n characters of the text *)
Affix(s, kind, n) == LET m == Min(n, Len(s)) IN
  CASE kind = 0 -> s
    [] kind = 1 -> SubSeq(s, 1, m) \o <<Star>>
    [] kind = 2 -> <<Star>> \o SubSeq(s, Len(s) - m + 1, Len(s))
    [] kind = 3 -> <<Star>> \o SubSeq(s, Len(s) - m + 1, Len(s)) \o <<Star>>
Short(s) == IF Len(s) < 3 THEN <<s[1], s[1], s[1]>> ELSE s
(* text values: kinds 0 to 3; numbers: 4 exactly, 5 a range *)
QueryFor(name, isText, value, kk, vk, n, lo, hi) ==
  LET m == IF Len(name) < 3 \/ (isText /\ Len(value) < 3) THEN 1 ELSE n
  IN [key |-> Affix(Short(name), kk, m),
      value |-> IF isText THEN Affix(Short(value), vk, m) ELSE IF vk = 4 THEN Dec(value) ELSE Dec(lo) \o <<126>> \o Dec(hi)]

RECURSIVE SomeTags(_, _)
SomeTags(id, j) == LET one == <<116, 97, 103>> \o Dec(j) \o <<Equal>> \o Dec(id) \o Dec(j)
                   IN IF j = 0 THEN one ELSE SomeTags(id, j - 1) \o <<Comma>> \o one

Alphabet == [i \in 1..26 |-> 96 + i] \o [i \in 1..10 |-> 47 + i]
            \o <<33, 64, 35, 36, 37, 94, 38, 42, 40, 41, 45, 95, 61, 43, 91, 93, 123, 125, 124, 59, 58, 39, 34, 44, 46, 60, 62, 63, 47, 96, 126>>
            \o [i \in 1..26 |-> 64 + i]
RandomOk(r, count, minlen, maxlen, size) ==
  /\ Len(r) = count
  /\ \A i \in DOMAIN r : /\ Len(r[i]) >= minlen /\ Len(r[i]) <= Max(minlen, maxlen)
                         /\ SeqSet(r[i]) \subseteq {Alphabet[k] : k \in 1..Min(IF size < 1 THEN 26 ELSE size, Len(Alphabet))}

Append1(p) == list' = IF list = <<>> THEN p ELSE list \o <<Comma>> \o p
=============================================================================
