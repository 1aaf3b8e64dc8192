-------------------------------- MODULE Utils --------------------------------
(* The small data structures that the passes are built on, as abstract      *)
(* machines.  A behaviour of the real code is a line of the trace: the       *)
(* operations and what they returned.  The state `s` is the abstract content *)
(* of the structure; a step is legal if the abstract machine can take it     *)
(* with the recorded result.  `bad` names what no abstract step explains.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, s, bad
vars == <<l, k, s, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}
Rng(x) == {x[i] : i \in DOMAIN x}

\* --- priority heap: a bag of elements; keys order them, ties are allowed ----------------
\* s: function element -> how often it is in the heap
HeapStep(L, st, op) ==
    LET Key(x) == L.keys[x + 1]
        inside == {x \in DOMAIN st : st[x] > 0}
    IN IF op[1] = 1 THEN [s |-> [st EXCEPT ![op[2]] = @ + 1], b |-> {}]
       ELSE IF op[2] = -1 THEN [s |-> st, b |-> Bad(inside = {}, "nothing returned from a heap that is not empty")]
       ELSE IF op[2] \notin inside THEN [s |-> st, b |-> {"returned an element that is not in the heap"}]
       ELSE [s |-> [st EXCEPT ![op[2]] = @ - 1],
             b |-> Bad(\A y \in inside : Key(op[2]) <= Key(y), "returned an element that another one precedes")]
HeapEnd(L, st) == Bad(\A x \in DOMAIN st : st[x] = 0, "elements lost")

\* --- value pool: s is the sequence of distinct values in order of their first addition ------
PosOf(st, v) == IF v \in Rng(st) THEN (CHOOSE i \in DOMAIN st : st[i] = v) - 1 ELSE -1
PoolStep(st, op) ==
    CASE op[1] = 1 ->
            LET nx == IF op[2] \in Rng(st) THEN st ELSE Append(st, op[2])
            IN [s |-> nx, b |-> Bad(op[3] = PosOf(nx, op[2]), "wrong position") \cup Bad(op[4] = Len(nx), "wrong length")]
      [] op[1] = 2 -> [s |-> st, b |-> Bad(op[3] = PosOf(st, op[2]), "wrong lookup")
                                       \cup Bad((op[4] = 1) = (st = <<>>), "wrong emptiness")]
      [] op[1] = 3 ->
            [s |-> st, b |-> IF st = <<>> THEN Bad(op[3] = -1, "a value from an empty pool")
                             ELSE Bad(op[3] = st[op[2] + 1] /\ op[4] = op[3], "position leads to another value")]

\* --- union-find: s = [cls, rep]: class of every element (least member), representative that was
\*     shown for a class since it last changed (-1: none)
UfStep(st, op) ==
    IF op[1] = 1
    THEN LET a == st.cls[op[2]]
             b == st.cls[op[3]]
             lo == IF a < b THEN a ELSE b
         IN IF a = b THEN [s |-> st, b |-> {}]
            ELSE [s |-> [cls |-> [x \in DOMAIN st.cls |-> IF st.cls[x] \in {a, b} THEN lo ELSE st.cls[x]],
                         rep |-> [st.rep EXCEPT ![a] = -1, ![b] = -1]],
                  b |-> {}]
    ELSE LET c == st.cls[op[2]]
         IN IF op[3] \notin DOMAIN st.cls THEN [s |-> st, b |-> {"representative out of range"}]
            ELSE [s |-> [st EXCEPT !.rep[c] = op[3]],
                  b |-> Bad(st.cls[op[3]] = c, "representative of another class")
                        \cup Bad(st.rep[c] = -1 \/ st.rep[c] = op[3], "two representatives of one class")
                        \cup (IF op[2] = op[3] \/ st.rep[c] # op[2] THEN {} ELSE {"representative does not represent itself"})]

\* --- directed graphs -------------------------------------------------------------------
RECURSIVE Cyclic(_, _)
\* vertices that have a successor inside V; a finite graph has a cycle iff peeling stops early
Cyclic(V, E) ==
    LET keep == {v \in V : \E e \in E : e[1] = v /\ e[2] \in V}
    IN IF keep = V THEN V # {} ELSE Cyclic(keep, E)
TopoBad(L) ==
    LET V == Rng(L.verts)
        E == {<<L.edges[i][1], L.edges[i][2]>> : i \in DOMAIN L.edges}
        cyc == Cyclic(V, E)
        OrderOk(o) ==
            /\ Len(o) = Cardinality(V)
            /\ Rng(o) = V
            /\ \A i, j \in DOMAIN o : <<o[i], o[j]>> \in E => i < j
    IN Bad(L.dag = ~cyc, "cycle reported wrongly")
       \cup (IF cyc THEN {} ELSE Bad(OrderOk(L.ord), "not a topological order") \cup Bad(OrderOk(L.ord2), "not a topological order"))

\* --- powers of two: q = <<floor(log2 x) or -1, is x a power, log2 prev(x), log2 next(x), x or -1>>
Pow2Bad(L) ==
    UNION {LET q == L.v[i] IN
        Bad(q[5] = -1 \/ (IF q[5] = 0 THEN q[1] = -1 ELSE 2^q[1] <= q[5] /\ q[5] < 2^(q[1] + 1)), "driver: wrong logarithm")
        \cup Bad(q[3] = q[1], "not the previous power of two")
        \cup Bad(q[4] = (IF q[1] = -1 THEN 0 ELSE IF q[2] = 1 THEN q[1] ELSE q[1] + 1), "not the next power of two")
        : i \in DOMAIN L.v}

\* --- bucket sort: res lists the items (numbered from 1), start the first position of every bucket
BucketBad(L) ==
    LET n == Len(L.keys)
        Less(b) == Cardinality({i \in 1..n : L.keys[i] < b})
    IN Bad(Len(L.res) = n /\ Rng(L.res) = 1..n, "elements lost or repeated")
       \cup (IF Len(L.res) # n \/ Rng(L.res) # 1..n THEN {}
             ELSE Bad(\A i, j \in 1..n : i < j =>
                        \/ L.keys[L.res[i]] < L.keys[L.res[j]]
                        \/ L.keys[L.res[i]] = L.keys[L.res[j]] /\ L.res[i] < L.res[j], "not sorted, or not stable"))
       \cup Bad(Len(L.start) = L.m /\ \A b \in 1..Len(L.start) : L.start[b] = Less(b - 1), "wrong bucket bounds")

\* --- lookup table ----------------------------------------------------------------------
ShmBad(L) ==
    CASE L.st = "hang" -> {"not built in bounded time"}
      [] L.st = "panic" -> {"panics"}
      [] OTHER -> Bad(L.keys = L.pos, "a key is found at another position")

\* --- input mappings: <<target size, position or 0 (dropped), ...>> ------------------------
MLen(m) == Len(m) - 1
MValid(m) ==
    /\ \A i \in 2..Len(m) : m[i] <= m[1]
    /\ \A p \in 1..m[1] : Cardinality({i \in 2..Len(m) : m[i] = p}) = 1
MComp(a, b) == <<b[1]>> \o [i \in 1..MLen(a) |-> IF a[i + 1] = 0 THEN 0 ELSE b[a[i + 1] + 1]]
MApply(m, xs) == [p \in 1..m[1] |-> LET S == {i \in 1..Len(xs) : m[i + 1] = p}
                                    IN IF S = {} THEN 0 ELSE xs[CHOOSE i \in S : TRUE]]
MId(n) == <<n>> \o [i \in 1..n |-> i]
InRange(m) == \A i \in 2..Len(m) : m[i] <= m[1]
ImBad(L) ==
    LET n == Len(L.maps)
        Xs(m) == [i \in 1..MLen(m) |-> 99 + i]
        chain == FoldLeft(MComp, L.maps[1], SubSeq(L.maps, 2, n))
        \* the meaning of the chain on all inputs: one mapping after another
        meant == FoldLeft(LAMBDA xs, m : MApply(m, xs), Xs(L.maps[1]), L.maps)
    IN UNION {LET q == L.single[i]
                  m == L.maps[i]
              IN Bad(q[1] = m, "mapping reads back differently")
                 \cup Bad(q[2] = MValid(m), "validity reported wrongly")
                 \cup (IF q[2] THEN Bad(q[3] = MApply(m, Xs(m)), "inputs sent to wrong positions") ELSE {})
                 \cup Bad(q[4] = Tail(m), "wrong position of an input")
                 \cup Bad(q[5] = MLen(m), "wrong number of inputs")
                 \cup Bad(L.idn[i] = MId(MLen(m)), "identity is not the identity")
              : i \in 1..n}
       \cup (IF \E i \in 1..n : ~InRange(L.maps[i]) THEN {}
             ELSE Bad(L.l = chain, "composition from the left")
                  \cup Bad(L.r = chain, "composition from the right")
                  \cup Bad(L.p = chain, "composition in place")
                  \cup (IF \A i \in 1..n : MValid(L.maps[i])
                        THEN Bad(MApply(chain, Xs(L.maps[1])) = meant, "spec: composition is not sequencing") ELSE {}))

\* --- the machine ---------------------------------------------------------------------------
Stepped == {"heap", "pool", "uf"}
Start(L) ==
    CASE L.kind = "heap" -> [x \in 0..(Len(L.keys) - 1) |-> 0]
      [] L.kind = "pool" -> <<>>
      [] L.kind = "uf" -> [cls |-> [x \in 0..(L.n - 1) |-> x], rep |-> [x \in 0..(L.n - 1) |-> -1]]
      [] OTHER -> 0
Whole(L) ==
    CASE L.kind = "topo" -> TopoBad(L)
      [] L.kind = "pow2" -> Pow2Bad(L)
      [] L.kind = "bucket" -> BucketBad(L)
      [] L.kind = "shm" -> ShmBad(L)
      [] L.kind = "im" -> ImBad(L)
Step(L, st, op) ==
    CASE L.kind = "heap" -> HeapStep(L, st, op)
      [] L.kind = "pool" -> PoolStep(st, op)
      [] L.kind = "uf" -> UfStep(st, op)
Size(L) == IF L.kind \in Stepped THEN Len(L.ops) ELSE 1

Report(L, name, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, name, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ s = Start(Lines[l]) /\ bad = {}
Next ==
    LET L == Lines[l] IN
    /\ k < Size(L)
    /\ k' = k + 1
    /\ IF L.kind \in Stepped
       THEN LET r == Step(L, s, L.ops[k + 1])
                b == r.b \cup (IF k + 1 = Size(L) /\ L.kind = "heap" THEN HeapEnd(L, r.s) ELSE {})
            IN s' = r.s /\ bad' = b /\ Report(L, L.kind, b)
       ELSE s' = 0 /\ bad' = Whole(L) /\ Report(L, L.kind, Whole(L))
    /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, k |-> k, bad |-> bad]
=============================================================================
