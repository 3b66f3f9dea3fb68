------------------------------ MODULE MCPdcText ------------------------------
(* The laws of PdcText on all short strings, and the generator of histories. *)
EXTENDS PdcText, Json
CONSTANTS Chars, MaxLen, Steps, Record
VARIABLES n, hist, s, p
vars == <<tvars, n, hist, s, p>>
AB == {97, 98, 42}
Some == {97, 98, 42, 61, 44, 48, 49, 45, 255}
Strings(k) == UNION {[1..i -> Chars] : i \in 0..k}
AnyStr(k) == IF Record THEN {[i \in 1..RandomElement(0..k) |-> RandomElement(Chars)]} ELSE Strings(k)
Do(cmd) == n' = n + 1 /\ UNCHANGED <<s, p>> /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist
N(a, b) == RandomElement(a..b)
(* a part of a string, so that searches succeed, or another string *)
Part(x) == IF x = <<>> \/ N(1, 4) = 1 THEN AnyStr(3) ELSE LET a == N(1, Len(x)) IN {SubSeq(x, a, N(a, Len(x)))}
Pattern(x) == IF x = <<>> THEN AnyStr(3)
              ELSE LET a == N(1, Len(x)) b == N(a, Len(x)) IN
                   {CASE N(1, 6) = 1 -> x [] N(1, 5) = 1 -> SubSeq(x, 1, b) \o <<Star>> [] N(1, 4) = 1 -> <<Star>> \o SubSeq(x, a, Len(x))
                      [] N(1, 3) = 1 -> <<Star>> \o SubSeq(x, a, b) \o <<Star>> [] OTHER -> CHOOSE y \in AnyStr(4) : TRUE}
GCut == \E x \in AnyStr(6) : Do([op |-> "cut", s |-> x, from |-> N(-1, 8), to |-> N(-1, 9)])
GFind == \E x \in AnyStr(7) : \E t \in Part(x) : Do([op |-> "find", s |-> x, t |-> t, c |-> N(1, 255)])
GMatch == \E x \in AnyStr(6) : \E q \in Pattern(x) : Do([op |-> "match", s |-> x, p |-> q])
GSplit == \E x \in AnyStr(9) : \E d \in {[i \in 1..N(1, 2) |-> RandomElement(Chars \ {Star})]} : Do([op |-> "split", s |-> x, d |-> d])
GAdd == \E k \in AnyStr(4), v \in AnyStr(4) :
          LET w == SelectSeq(k, LAMBDA c : c # Comma) u == SelectSeq(v, LAMBDA c : c # Comma)
              q == IF N(1, 8) = 1 THEN w ELSE w \o <<Equal>> \o u IN
          Append1(q) /\ Do([op |-> "add", p |-> q])
GTags == \E i \in {LET ps == PairsOf(list) IN IF ps = <<>> THEN 0 ELSE N(0, Len(ps))} :
         \E kp \in (IF i = 0 THEN AnyStr(3) ELSE Pattern(Key(PairsOf(list)[i]))) :
         \E vp \in (IF i = 0 \/ N(1, 4) = 1 THEN AnyStr(3) ELSE Pattern(Value(PairsOf(list)[i]))) :
          UNCHANGED tvars /\ Do([op |-> "tags", kp |-> kp, vp |-> vp, lo |-> N(-3, 12), hi |-> N(-3, 20)])
GPair == \E x \in AnyStr(6) : Do([op |-> "pair", s |-> x, d |-> RandomElement(Chars)])
GQuery == \E k \in {<<N(97, 122)>> \o x : x \in AnyStr(5)}, v \in {<<N(97, 122)>> \o x : x \in AnyStr(5)} :
          Do([op |-> "query", name |-> k, text |-> N(0, 1) = 1, sval |-> v, ival |-> N(-200, 200), kk |-> N(0, 3), vk |-> N(0, 3), vn |-> N(4, 5),
              n |-> N(0, 7), lo |-> N(-20, 20), hi |-> N(-20, 2000)])
GMisc == Do([op |-> "some", id |-> N(0, 45), count |-> N(0, 5), minlen |-> N(0, 9), maxlen |-> N(1, 12), size |-> RandomElement({0, 1, 5, 26, 36, 67, 93, 200})])
GReset == N(1, 20) = 1 /\ list' = <<>> /\ Do([op |-> "reset"])
Init == TextInit /\ n = 0 /\ hist = <<>> /\ IF Record THEN s = <<>> /\ p = <<>> ELSE s \in Strings(MaxLen) /\ p \in Strings(MaxLen)
Pure == GCut \/ GFind \/ GMatch \/ GMatch \/ GSplit \/ GPair \/ GQuery \/ GMisc
Act == \/ (UNCHANGED tvars /\ Pure) \/ GAdd \/ GAdd \/ GTags \/ GTags \/ GReset
Emit == Record /\ n = Steps /\ PrintT("HIST " \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<tvars, hist, s, p>>
Next == Record /\ ((n < Steps /\ Act) \/ Emit)
Spec == Init /\ [][Next]_vars

(* laws *)
CutAndJoin == \A i \in 0..Len(s) : Cut(s, 0, i) \o Cut(s, i, Len(s)) = s
Turn == Reverse(Reverse(s)) = s /\ (IsPrefixOf(p, s) <=> IsSuffixOf(Reverse(p), Reverse(s)))
Search == /\ (IndexOf(s, p) >= 0) = IsInfixOf(p, s)
          /\ (IsPrefixOf(p, s) <=> IndexOf(s, p) = 0)
SplitJoin == p # <<>> => /\ Join(Split(s, p), p) = s
                         /\ \A i \in DOMAIN Split(s, p) : ~IsInfixOf(p, Split(s, p)[i])
(* what a star stands for: any text *)
StarIsAnything == (Kind(p) = 2 \/ \E i \in 2..(Len(p) - 1) : p[i] = Star)
                  \/ (Matches(s, p) <=> \E x, y \in Strings(MaxLen) :
                        LET core == SelectSeq(p, LAMBDA c : c # Star) IN
                        s = (IF p[1] = Star THEN x ELSE <<>>) \o core \o (IF p[Len(p)] = Star THEN y ELSE <<>>))
(* a query made for a tag finds it *)
FindsIt == s # <<>> => \A k \in 0..3, m \in 0..MaxLen : (Star \in SeqSet(s) /\ k = 0) \/ Matches(Short(s), Affix(Short(s), k, m))
=============================================================================
