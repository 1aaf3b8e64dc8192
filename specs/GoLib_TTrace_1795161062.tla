---- MODULE GoLib_TTrace_1795161062 ----
EXTENDS GoLib, Sequences, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET GoLib_TEExpression == INSTANCE GoLib_TEExpression
    IN GoLib_TEExpression!expression
----

_trace ==
    LET GoLib_TETrace == INSTANCE GoLib_TETrace
    IN GoLib_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        bad = ({"circuits"})
        /\
        k = (2)
        /\
        l = (1726)
    )
----

_init ==
    /\ bad = _TETrace[1].bad
    /\ k = _TETrace[1].k
    /\ l = _TETrace[1].l
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ bad  = _TETrace[i].bad
        /\ bad' = _TETrace[j].bad
        /\ k  = _TETrace[i].k
        /\ k' = _TETrace[j].k
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("GoLib_TTrace_1795161062.json", _TETrace)

=============================================================================

 Note that you can extract this module `GoLib_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `GoLib_TEExpression.tla` file takes precedence 
  over the module `GoLib_TEExpression` below).

---- MODULE GoLib_TEExpression ----
EXTENDS GoLib, Sequences, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `GoLib` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        bad |-> bad
        ,k |-> k
        ,l |-> l
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_badUnchanged |-> bad = bad'
        
        \* Format the `bad` variable as Json value.
        \* ,_badJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(bad)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_badModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].bad # _TETrace[s-1].bad
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE GoLib_TETrace ----
\*EXTENDS GoLib, IOUtils, TLC
\*
\*trace == IODeserialize("GoLib_TTrace_1795161062.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE GoLib_TETrace ----
EXTENDS GoLib, TLC

trace == 
    <<
    ([bad |-> {},k |-> 0,l |-> 1726]),
    ([bad |-> {},k |-> 1,l |-> 1726]),
    ([bad |-> {"circuits"},k |-> 2,l |-> 1726])
    >>
----


=============================================================================

---- CONFIG GoLib_TTrace_1795161062 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 07:51:04 UTC 2026