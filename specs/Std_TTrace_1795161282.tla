---- MODULE Std_TTrace_1795161282 ----
EXTENDS Sequences, Std, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET Std_TEExpression == INSTANCE Std_TEExpression
    IN Std_TEExpression!expression
----

_trace ==
    LET Std_TETrace == INSTANCE Std_TETrace
    IN Std_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        bad = ({"rsa: accepted in the debug builder"})
        /\
        k = (3)
        /\
        l = (205)
    )
----

_init ==
    /\ k = _TETrace[1].k
    /\ l = _TETrace[1].l
    /\ bad = _TETrace[1].bad
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ k  = _TETrace[i].k
        /\ k' = _TETrace[j].k
        /\ l  = _TETrace[i].l
        /\ l' = _TETrace[j].l
        /\ bad  = _TETrace[i].bad
        /\ bad' = _TETrace[j].bad

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Std_TTrace_1795161282.json", _TETrace)

=============================================================================

 Note that you can extract this module `Std_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Std_TEExpression.tla` file takes precedence 
  over the module `Std_TEExpression` below).

---- MODULE Std_TEExpression ----
EXTENDS Sequences, Std, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Std` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        k |-> k
        ,l |-> l
        ,bad |-> bad
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_kUnchanged |-> k = k'
        
        \* Format the `k` variable as Json value.
        \* ,_kJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(k)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_kModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].k # _TETrace[s-1].k
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Std_TETrace ----
\*EXTENDS IOUtils, Std, TLC
\*
\*trace == IODeserialize("Std_TTrace_1795161282.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Std_TETrace ----
EXTENDS Std, TLC

trace == 
    <<
    ([bad |-> {},k |-> 0,l |-> 205]),
    ([bad |-> {},k |-> 1,l |-> 205]),
    ([bad |-> {},k |-> 2,l |-> 205]),
    ([bad |-> {"rsa: accepted in the debug builder"},k |-> 3,l |-> 205])
    >>
----


=============================================================================

---- CONFIG Std_TTrace_1795161282 ----
CONSTANTS
    Expect <- SExpect
    Holds <- SHolds

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 07:54:56 UTC 2026