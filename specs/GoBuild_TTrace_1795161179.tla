---- MODULE GoBuild_TTrace_1795161179 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, GoBuild

_expression ==
    LET GoBuild_TEExpression == INSTANCE GoBuild_TEExpression
    IN GoBuild_TEExpression!expression
----

_trace ==
    LET GoBuild_TETrace == INSTANCE GoBuild_TETrace
    IN GoBuild_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        bad = ({"a dishonest hint gets through", "other outputs"})
        /\
        k = (1)
        /\
        l = (2)
    )
----

_init ==
    /\ k = _TETrace[1].k
    /\ l = _TETrace[1].l
    /\ bad = _TETrace[1].bad
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ k  = _TETrace[i].k
        /\ k' = _TETrace[j].k
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ bad  = _TETrace[i].bad
        /\ bad' = _TETrace[j].bad

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("GoBuild_TTrace_1795161179.json", _TETrace)

=============================================================================

 Note that you can extract this module `GoBuild_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `GoBuild_TEExpression.tla` file takes precedence 
  over the module `GoBuild_TEExpression` below).

---- MODULE GoBuild_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, GoBuild

expression == 
    [
        \* To hide variables of the `GoBuild` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        k |-> k
        ,l |-> l
        ,bad |-> bad
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_kUnchanged |-> k = k'
        
        \* Format the `k` variable as Json value.
        \* ,_kJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(k)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_kModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].k # _TETrace[s-1].k
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE GoBuild_TETrace ----
\*EXTENDS IOUtils, TLC, GoBuild
\*
\*trace == IODeserialize("GoBuild_TTrace_1795161179.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE GoBuild_TETrace ----
EXTENDS TLC, GoBuild

trace == 
    <<
    ([bad |-> {},k |-> 0,l |-> 2]),
    ([bad |-> {"a dishonest hint gets through", "other outputs"},k |-> 1,l |-> 2])
    >>
----


=============================================================================

---- CONFIG GoBuild_TTrace_1795161179 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 07:53:17 UTC 2026