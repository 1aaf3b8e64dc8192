---- MODULE Load_TTrace_1795161146 ----
EXTENDS Sequences, Load, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET Load_TEExpression == INSTANCE Load_TEExpression
    IN Load_TEExpression!expression
----

_trace ==
    LET Load_TETrace == INSTANCE Load_TETrace
    IN Load_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        bad = ({"load: debug builder"})
        /\
        k = (1)
        /\
        l = (35)
    )
----

_init ==
    /\ k = _TETrace[1].k
    /\ l = _TETrace[1].l
    /\ bad = _TETrace[1].bad
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ k  = _TETrace[i].k
        /\ k' = _TETrace[j].k
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ bad  = _TETrace[i].bad
        /\ bad' = _TETrace[j].bad

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Load_TTrace_1795161146.json", _TETrace)

=============================================================================

 Note that you can extract this module `Load_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Load_TEExpression.tla` file takes precedence 
  over the module `Load_TEExpression` below).

---- MODULE Load_TEExpression ----
EXTENDS Sequences, Load, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Load` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        k |-> k
        ,l |-> l
        ,bad |-> bad
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_kUnchanged |-> k = k'
        
        \* Format the `k` variable as Json value.
        \* ,_kJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(k)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_kModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].k # _TETrace[s-1].k
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Load_TETrace ----
\*EXTENDS IOUtils, Load, TLC
\*
\*trace == IODeserialize("Load_TTrace_1795161146.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Load_TETrace ----
EXTENDS Load, TLC

trace == 
    <<
    ([bad |-> {},k |-> 0,l |-> 35]),
    ([bad |-> {"load: debug builder"},k |-> 1,l |-> 35])
    >>
----


=============================================================================

---- CONFIG Load_TTrace_1795161146 ----
CONSTANTS
    Expect <- LExpect
    Holds <- LHolds

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 07:52:32 UTC 2026