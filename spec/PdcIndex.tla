------------------------------ MODULE PdcIndex ------------------------------
(***************************************************************************)
(* The metadata index as its users see it.  Clients put the attributes of  *)
(* objects into it - name, value, object - take them out, and search with  *)
(* a pattern for the name and one for the value.                            *)
(*                                                                         *)
(* `facts` is what is in it.  `post` is what is kept for it when suffixes  *)
(* stand for themselves (CutFront): for every fact a posting of every end  *)
(* of the name with every end of the value.  Taking an attribute out takes *)
(* out its postings, those of other attributes of the object that say the  *)
(* same too (they may be one on some servers, so that the one fact cannot  *)
(* count on the posting of another), so that the index can know less than  *)
(* was put into it; and an end of a name cannot be told from a name, so    *)
(* that exact and prefix patterns find more.  A search answers with        *)
(* everything that both facts and their postings say, and with nothing of  *)
(* which no attribute fits even after a cut at the front.                  *)
(***************************************************************************)
EXTENDS PdcUtil
CONSTANT CutFront
VARIABLES facts, post,
          open   \* client -> the call it is waiting for, when clients make calls at the same time
ivars == <<facts, post, open>>

Ends(s) == IF CutFront THEN {SubSeq(s, i, Len(s)) : i \in 1..Len(s)} ELSE {s}
Spread(f) == {<<s, t, f[3]>> : s \in Ends(f[1]), t \in Ends(f[2])}
Own(f) == {<<f, g>> : g \in Spread(f)}
IndexInit == facts = {} /\ post = {} /\ open = EmptyF
With(f) == facts' = facts \cup {f} /\ post' = post \cup Own(f)
Lacks(P, f) == {p \in P : p[2] \notin Spread(f)}
Without(f) == facts' = facts \ {f} /\ post' = Lacks(post, f)
Add(k, v, o) == open = EmptyF /\ With(<<k, v, o>>) /\ UNCHANGED open
Del(k, v, o) == open = EmptyF /\ Without(<<k, v, o>>) /\ UNCHANGED open

(* how a pattern is looked up among ends of texts: what it would find at the end or inside of a text stands at the *)
(* beginning of one of its ends *)
Body(p) == IF p = <<>> THEN p
           ELSE LET b == p[1] = Star  e == p[Len(p)] = Star
                IN SubSeq(p, IF b THEN 2 ELSE 1, IF e /\ Len(p) > 1 THEN Len(p) - 1 ELSE Len(p))
Open(p) == p # <<>> /\ p[Len(p)] = Star
Hit(s, p) == IF ~CutFront THEN Matches(s, p) ELSE IF Open(p) THEN IsPrefixOf(Body(p), s) ELSE s = Body(p)

StrictIn(F, kp, vp) == {f[3] : f \in {g \in F : Matches(g[1], kp) /\ Matches(g[2], vp)}}
Found(kp, vp)  == {p[1][3] : p \in {q \in post : Hit(q[2][1], kp) /\ Hit(q[2][2], vp)}}
SureIn(P, kp, vp) == {p[1][3] : p \in {q \in P : Matches(q[1][1], kp) /\ Matches(q[1][2], vp) /\ Hit(q[2][1], kp) /\ Hit(q[2][2], vp)}}
LooseIn(F, kp, vp) == {f[3] : f \in {g \in F : (\E s \in Ends(g[1]) : Hit(s, kp)) /\ (\E t \in Ends(g[2]) : Hit(t, vp))}}
Strict(kp, vp) == StrictIn(facts, kp, vp)
Sure(kp, vp) == SureIn(post, kp, vp)
Loose(kp, vp) == LooseIn(facts, kp, vp)
AnswersIn(F, P, kp, vp, r) == SureIn(P, kp, vp) \subseteq r /\ r \subseteq (StrictIn(F, kp, vp) \cup LooseIn(F, kp, vp))
Answers(kp, vp, r) == AnswersIn(facts, post, kp, vp, r)

(* Calls that overlap.  Each client puts in and takes out attributes of     *)
(* objects of its own.  A search finds all that is there from its beginning *)
(* to its end, and nothing that is not there at some time in between: `must' *)
(* are the postings that no removal has touched since it began, `may' the   *)
(* attributes that were there then or have been, at least in part, put in.  *)
Busy(w) == {c \in DOMAIN open : open[c].call = w}
Pending(w) == {open[c].f : c \in Busy(w)}
RECURSIVE LacksAll(_, _)
LacksAll(P, F) == IF F = {} THEN P ELSE LET f == CHOOSE x \in F : TRUE IN LacksAll(Lacks(P, f), F \ {f})
Begin(c, w, f, kp, vp) ==
  /\ c \notin DOMAIN open /\ UNCHANGED <<facts, post>>
  /\ w \in {"add", "del"} => \A g \in Pending("add") \cup Pending("del") : g[3] # f[3]
  /\ open' = Put([x \in DOMAIN open |->
                    IF open[x].call # "ask" THEN open[x]
                    ELSE IF w = "add" THEN [open[x] EXCEPT !.may = @ \cup {f}]
                    ELSE IF w = "del" THEN [open[x] EXCEPT !.must = Lacks(@, f)]
                    ELSE open[x]],
                 c, [call |-> w, f |-> f, kp |-> kp, vp |-> vp,
                     must |-> IF w = "ask" THEN LacksAll(post, Pending("del")) ELSE {},
                     may |-> IF w = "ask" THEN facts \cup Pending("add") ELSE {}])
End(c, r) ==
  /\ c \in DOMAIN open /\ open' = Drop(open, {c})
  /\ LET m == open[c] IN
     CASE m.call = "add" -> With(m.f)
       [] m.call = "del" -> Without(m.f)
       [] OTHER -> UNCHANGED <<facts, post>> /\ AnswersIn(m.may, m.must, m.kp, m.vp, r)

(* ---- what holds *)
Sound == \A p \in post : p[1] \in facts /\ p[2] \in Spread(p[1])
Certain(kp, vp) == Sure(kp, vp) \subseteq Strict(kp, vp) \cap Found(kp, vp)
Sharing == \E f, g \in facts : f # g /\ Spread(f) \cap Spread(g) # {}
(* as long as nothing that shares a posting was taken out, everything is found *)
Whole == post = UNION {Own(f) : f \in facts}
Complete(kp, vp) == Whole => Strict(kp, vp) = Sure(kp, vp)
(* patterns that begin with a star find exactly what they say *)
Exact(kp, vp) == (Whole /\ kp # <<>> /\ vp # <<>> /\ kp[1] = Star /\ vp[1] = Star) => Found(kp, vp) = Strict(kp, vp)
Bounded(kp, vp) == Found(kp, vp) \subseteq Loose(kp, vp)
=============================================================================
