------------------------------- MODULE UtilsGen -------------------------------
(* All short operation sequences of the utilities, as behaviours: every     *)
(* complete one is printed and replayed on the real code (the results are    *)
(* then judged by Utils.tla).                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, Depth, Vals
VARIABLE ops
V == 0..(Vals - 1)

\* mappings from n inputs to m outputs, valid ones and near misses
Maps(n) == UNION {{<<m>> \o f : f \in [1..n -> 0..(m + 1)]} : m \in 0..n}
GoodMaps(n) == {f \in Maps(n) : /\ \A i \in 2..Len(f) : f[i] <= f[1]
                                /\ \A p \in 1..f[1] : Cardinality({i \in 2..Len(f) : f[i] = p}) = 1}

Choices ==
    CASE Kind = "heap" -> {<<1, v>> : v \in V} \cup {<<2, 0>>}
      [] Kind = "pool" -> {<<o, v>> : o \in 1..3, v \in V}
      [] Kind = "uf" -> {<<1, x, y>> : x \in V, y \in V} \cup {<<2, x>> : x \in V}
      [] Kind = "graph" ->
            IF ops = <<>> THEN {[i \in 1..Vals |-> i - 1]}
            ELSE {e \in {<<x, y>> : x \in V, y \in V} :
                    Len(ops) = 1 \/ LET q == ops[Len(ops)] IN q[1] < e[1] \/ (q[1] = e[1] /\ q[2] < e[2])}
      [] Kind = "im" ->
            IF ops = <<>> THEN UNION {Maps(n) : n \in 0..Vals}
            ELSE IF ops[Len(ops)] \notin GoodMaps(Len(ops[Len(ops)]) - 1) THEN {}
            ELSE GoodMaps(ops[Len(ops)][1])
\* sequences of every length count for graphs and mappings; otherwise only the longest
Emit(o) == IF Kind \in {"graph", "im"} \/ Len(o) = Depth THEN PrintT(<<"GEN", ToString(o)>>) ELSE TRUE
Init == ops = <<>>
Next ==
    /\ Len(ops) < Depth
    /\ \E c \in Choices : ops' = Append(ops, c)
    /\ Emit(ops')
=============================================================================
