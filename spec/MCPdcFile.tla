------------------------------ MODULE MCPdcFile ------------------------------
(* A small instance of PdcFile, and the generator of histories. *)
EXTENDS PdcFile, Json
CONSTANTS Files, Streams, Bytes, MaxLen, Steps, Record
VARIABLES n, hist
vars == <<ivars, n, hist>>
Pick(S) == IF S = {} THEN {} ELSE IF Record THEN {RandomElement(S)} ELSE S
Do(cmd) == n' = n + 1 /\ hist' = IF Record THEN Append(hist, cmd) ELSE hist
N(a, b) == RandomElement(a..b)
Some(k) == IF Record THEN {[i \in 1..N(0, k) |-> N(0, 255)]} ELSE UNION {[1..i -> Bytes] : i \in 0..k}
(* with no zero bytes and no newlines *)
Line(k) == [i \in 1..N(0, k) |-> RandomElement((1..255) \ {NL})]
SomeLines == IF Record THEN {[i \in 1..N(0, 6) |-> IF N(1, 9) = 1 THEN Line(300) ELSE Line(12)]} ELSE {<<>>, <<<<1>>>>, <<<<>>, <<1>>>>}
GWText == \E f \in Pick(Files), ls \in SomeLines : WriteText(f, ls, TRUE) /\ Do([op |-> "wtext", f |-> f, lines |-> ls])
GRText == \E f \in Pick(DOMAIN file) : 0 \notin SeqSet(file[f]) /\ ReadText(f, LinesOf(file[f]), TRUE) /\ Do([op |-> "rtext", f |-> f])
GWBin == \E f \in Pick(Files), b \in Some(MaxLen) : WriteBinary(f, b, TRUE) /\ Do([op |-> "wbin", f |-> f, b |-> b])
GRBin == \E f \in Pick(DOMAIN file) : \E k \in Pick(0..(Len(file[f]) + 2)) :
           /\ ReadBinary(f, k, SubSeq(file[f], 1, Min(k, Len(file[f]))), k <= Len(file[f])) /\ Do([op |-> "rbin", f |-> f, n |-> k])
GUpdate == \E f \in Pick(DOMAIN file), b \in Some(IF Record THEN 15 ELSE 2) : \E at \in Pick(0..(Len(file[f]) + 3)) :
           Len(file[f]) <= 3 * MaxLen /\ Update(f, b, at, TRUE) /\ Do([op |-> "update", f |-> f, b |-> b, at |-> at])
GFull == Record /\ \E b \in Some(9) : WriteFull(b, b = <<>>) /\ \E how \in Pick({"text", "binary"}) : Do([op |-> "full", b |-> b, how |-> how])
GOpen == \E h \in Pick(Streams), mode \in Pick({"r", "w", "a"}) : \E f \in Pick(IF mode = "r" THEN DOMAIN file ELSE Files) :
           Open(h, f, mode) /\ Do([op |-> "open", h |-> h, f |-> f, mode |-> mode])
GClose == \E h \in Pick(DOMAIN open) : Close(h, TRUE) /\ Do([op |-> "close", h |-> h])
GWrite == \E h \in Pick(DOMAIN open), b \in Some(IF Record THEN 30 ELSE 1) : Len(file[open[h].f]) <= 3 * MaxLen /\ Write(h, b, TRUE) /\ Do([op |-> "write", h |-> h, b |-> b])
GRead == \E h \in Pick(DOMAIN open) : Read(h, file[open[h].f], TRUE) /\ Do([op |-> "read", h |-> h])
GLine == \E h \in Pick(DOMAIN open) : \E size \in Pick(2..(IF Record THEN 20 ELSE 3)) :
           /\ 0 \notin SeqSet(file[open[h].f])
           /\ \E m \in 0..(size - 1), ok \in BOOLEAN :
                LET r == SubSeq(file[open[h].f], open[h].pos + 1, open[h].pos + m) IN
                open[h].pos + m <= Len(file[open[h].f]) /\ ReadLine(h, size, r, ok) /\ Do([op |-> "line", h |-> h, size |-> size])
(* in a history the answer does not matter *)
GLineR == \E h \in Pick(DOMAIN open) : \E size \in Pick(2..20) :
           /\ ~open[h].w /\ 0 \notin SeqSet(file[open[h].f]) /\ UNCHANGED ivars /\ Do([op |-> "line", h |-> h, size |-> size])
Init == FileInit /\ n = 0 /\ hist = <<>>
Act == \/ GWText \/ GRText \/ GWBin \/ GRBin \/ GUpdate \/ GFull \/ GOpen \/ GClose \/ GWrite \/ GRead \/ (~Record /\ GLine)
       \/ (Record /\ (GLineR \/ GLineR \/ GOpen \/ (n' = n + 1 /\ UNCHANGED <<ivars, hist>>)))
Emit == Record /\ n = Steps /\ PrintT("HIST " \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<ivars, hist>>
Next == (n < Steps /\ Act) \/ Emit
Spec == Init /\ [][Next]_vars
View == ivars
(* text that is written is read back line by line *)
TextBack == \A f \in DOMAIN file : file[f] # <<>> /\ file[f][Len(file[f])] = NL => Lines(LinesOf(file[f])) = file[f]
Streams_ == \A h \in DOMAIN open : open[h].f \in DOMAIN file /\ open[h].pos <= Len(file[open[h].f])
                                   /\ (open[h].w => \A g \in DOMAIN open : g # h => open[g].f # open[h].f)
=============================================================================
