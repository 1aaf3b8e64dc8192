---- MODULE GoSide_TTrace_1795161079 ----
EXTENDS Sequences, TLCExt, GoSide, Toolbox, Naturals, TLC

_expression ==
    LET GoSide_TEExpression == INSTANCE GoSide_TEExpression
    IN GoSide_TEExpression!expression
----

_trace ==
    LET GoSide_TETrace == INSTANCE GoSide_TETrace
    IN GoSide_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        bad = ({"other witness", "the library reads another witness", "evaluating the circuit"})
        /\
        k = (1)
        /\
        l = (98)
    )
----

_init ==
    /\ k = _TETrace[1].k
    /\ l = _TETrace[1].l
    /\ bad = _TETrace[1].bad
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ k  = _TETrace[i].k
        /\ k' = _TETrace[j].k
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ bad  = _TETrace[i].bad
        /\ bad' = _TETrace[j].bad

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("GoSide_TTrace_1795161079.json", _TETrace)

=============================================================================

 Note that you can extract this module `GoSide_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `GoSide_TEExpression.tla` file takes precedence 
  over the module `GoSide_TEExpression` below).

---- MODULE GoSide_TEExpression ----
EXTENDS Sequences, TLCExt, GoSide, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `GoSide` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        k |-> k
        ,l |-> l
        ,bad |-> bad
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_kUnchanged |-> k = k'
        
        \* Format the `k` variable as Json value.
        \* ,_kJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(k)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_kModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].k # _TETrace[s-1].k
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE GoSide_TETrace ----
\*EXTENDS IOUtils, GoSide, TLC
\*
\*trace == IODeserialize("GoSide_TTrace_1795161079.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE GoSide_TETrace ----
EXTENDS GoSide, TLC

trace == 
    <<
    ([bad |-> {},k |-> 0,l |-> 98]),
    ([bad |-> {"other witness", "the library reads another witness", "evaluating the circuit"},k |-> 1,l |-> 98])
    >>
----


=============================================================================

---- CONFIG GoSide_TTrace_1795161079 ----

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 07:51:26 UTC 2026