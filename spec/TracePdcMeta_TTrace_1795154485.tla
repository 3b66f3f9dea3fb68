---- MODULE TracePdcMeta_TTrace_1795154485 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, TracePdcMeta

_expression ==
    LET TracePdcMeta_TEExpression == INSTANCE TracePdcMeta_TEExpression
    IN TracePdcMeta_TEExpression!expression
----

_trace ==
    LET TracePdcMeta_TETrace == INSTANCE TracePdcMeta_TETrace
    IN TracePdcMeta_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        pr = ((<<0, "p">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>] @@ <<0, "p9">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>]))
        /\
        grp = (2)
        /\
        saved = ([conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}])
        /\
        conts = (("a" :> "i1" @@ "run-7" :> "i2"))
        /\
        used = ({"i1", "i2"})
        /\
        kv = ([i1 |-> <<>>, i2 |-> <<>>])
        /\
        l = (10)
        /\
        hd = ((<<0, "c1">> :> [name |-> "a", id |-> "i1", kind |-> "c"] @@ <<1, "c2">> :> [name |-> "run-7", id |-> "i2", kind |-> "c"] @@ <<2, "c2">> :> [name |-> "run-7", id |-> "i2", kind |-> "c"]))
        /\
        done = ({3, 4, 5, 6, 7, 8, 9})
        /\
        objs = (<<>>)
    )
----

_init ==
    /\ done = _TETrace[1].done
    /\ l = _TETrace[1].l
    /\ pr = _TETrace[1].pr
    /\ conts = _TETrace[1].conts
    /\ used = _TETrace[1].used
    /\ hd = _TETrace[1].hd
    /\ objs = _TETrace[1].objs
    /\ saved = _TETrace[1].saved
    /\ grp = _TETrace[1].grp
    /\ kv = _TETrace[1].kv
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ done  = _TETrace[i].done
        /\ done' = _TETrace[j].done
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ pr  = _TETrace[i].pr
        /\ pr' = _TETrace[j].pr
        /\ conts  = _TETrace[i].conts
        /\ conts' = _TETrace[j].conts
        /\ used  = _TETrace[i].used
        /\ used' = _TETrace[j].used
        /\ hd  = _TETrace[i].hd
        /\ hd' = _TETrace[j].hd
        /\ objs  = _TETrace[i].objs
        /\ objs' = _TETrace[j].objs
        /\ saved  = _TETrace[i].saved
        /\ saved' = _TETrace[j].saved
        /\ grp  = _TETrace[i].grp
        /\ grp' = _TETrace[j].grp
        /\ kv  = _TETrace[i].kv
        /\ kv' = _TETrace[j].kv

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("TracePdcMeta_TTrace_1795154485.json", _TETrace)

=============================================================================

 Note that you can extract this module `TracePdcMeta_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `TracePdcMeta_TEExpression.tla` file takes precedence 
  over the module `TracePdcMeta_TEExpression` below).

---- MODULE TracePdcMeta_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, TracePdcMeta

expression == 
    [
        \* To hide variables of the `TracePdcMeta` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        done |-> done
        ,l |-> l
        ,pr |-> pr
        ,conts |-> conts
        ,used |-> used
        ,hd |-> hd
        ,objs |-> objs
        ,saved |-> saved
        ,grp |-> grp
        ,kv |-> kv
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_doneUnchanged |-> done = done'
        
        \* Format the `done` variable as Json value.
        \* ,_doneJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(done)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_doneModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].done # _TETrace[s-1].done
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE TracePdcMeta_TETrace ----
\*EXTENDS IOUtils, TLC, TracePdcMeta
\*
\*trace == IODeserialize("TracePdcMeta_TTrace_1795154485.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE TracePdcMeta_TETrace ----
EXTENDS TLC, TracePdcMeta

trace == 
    <<
    ([pr |-> <<>>,grp |-> 0,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> <<>>,used |-> {},kv |-> <<>>,l |-> 1,hd |-> <<>>,done |-> {},objs |-> <<>>]),
    ([pr |-> <<>>,grp |-> 0,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> <<>>,used |-> {},kv |-> <<>>,l |-> 2,hd |-> <<>>,done |-> {},objs |-> <<>>]),
    ([pr |-> <<>>,grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> <<>>,used |-> {},kv |-> <<>>,l |-> 3,hd |-> <<>>,done |-> {},objs |-> <<>>]),
    ([pr |-> <<>>,grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> <<>>,used |-> {},kv |-> <<>>,l |-> 4,hd |-> <<>>,done |-> {3},objs |-> <<>>]),
    ([pr |-> <<>>,grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> [a |-> "i1"],used |-> {"i1"},kv |-> [i1 |-> <<>>],l |-> 5,hd |-> (<<0, "c1">> :> [name |-> "a", id |-> "i1", kind |-> "c"]),done |-> {3, 4},objs |-> <<>>]),
    ([pr |-> (<<0, "p">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>]),grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> [a |-> "i1"],used |-> {"i1"},kv |-> [i1 |-> <<>>],l |-> 6,hd |-> (<<0, "c1">> :> [name |-> "a", id |-> "i1", kind |-> "c"]),done |-> {3, 4, 5},objs |-> <<>>]),
    ([pr |-> (<<0, "p">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>] @@ <<0, "p9">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>]),grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> [a |-> "i1"],used |-> {"i1"},kv |-> [i1 |-> <<>>],l |-> 7,hd |-> (<<0, "c1">> :> [name |-> "a", id |-> "i1", kind |-> "c"]),done |-> {3, 4, 5, 6},objs |-> <<>>]),
    ([pr |-> (<<0, "p">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>] @@ <<0, "p9">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>]),grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> [a |-> "i1"],used |-> {"i1"},kv |-> [i1 |-> <<>>],l |-> 8,hd |-> (<<0, "c1">> :> [name |-> "a", id |-> "i1", kind |-> "c"]),done |-> {3, 4, 5, 6, 7},objs |-> <<>>]),
    ([pr |-> (<<0, "p">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>] @@ <<0, "p9">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>]),grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> ("a" :> "i1" @@ "run-7" :> "i2"),used |-> {"i1", "i2"},kv |-> [i1 |-> <<>>, i2 |-> <<>>],l |-> 9,hd |-> (<<0, "c1">> :> [name |-> "a", id |-> "i1", kind |-> "c"] @@ <<2, "c2">> :> [name |-> "run-7", id |-> "i2", kind |-> "c"]),done |-> {3, 4, 5, 6, 7, 8},objs |-> <<>>]),
    ([pr |-> (<<0, "p">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>] @@ <<0, "p9">> :> [dims |-> <<>>, type |-> -1, part |-> 1, cons |-> 4, ts |-> 0, user |-> 0, app |-> "Noname", tags |-> <<32>>]),grp |-> 2,saved |-> [conts |-> <<>>, objs |-> <<>>, kv |-> <<>>, used |-> {}],conts |-> ("a" :> "i1" @@ "run-7" :> "i2"),used |-> {"i1", "i2"},kv |-> [i1 |-> <<>>, i2 |-> <<>>],l |-> 10,hd |-> (<<0, "c1">> :> [name |-> "a", id |-> "i1", kind |-> "c"] @@ <<1, "c2">> :> [name |-> "run-7", id |-> "i2", kind |-> "c"] @@ <<2, "c2">> :> [name |-> "run-7", id |-> "i2", kind |-> "c"]),done |-> {3, 4, 5, 6, 7, 8, 9},objs |-> <<>>])
    >>
----


=============================================================================

---- CONFIG TracePdcMeta_TTrace_1795154485 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 06:01:26 UTC 2026