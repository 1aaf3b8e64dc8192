------------------------------ MODULE Pipeline ------------------------------
(* Compilation as a transition system.  A scenario (one line of the trace)   *)
(* is a program, inputs for it, and what the real passes made of it: stages, *)
(* each with the program or circuit that the code returned and the stage it  *)
(* was made from.  The state walks through the stages; `runs` holds what the *)
(* meaning of the base program (Ir, Layered) says about every input, `at`    *)
(* the inputs of every stage, translated by the input mapping or the witness *)
(* program that the code returned.  Step k is legal if stage k is well       *)
(* formed and means the same as the base; `bad` collects what is not.        *)
EXTENDS Layered, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES l, k, runs, at, bad
vars == <<l, k, runs, at, bad>>

Has(r, f) == f \in DOMAIN r
NoVal == <<>>                 \* no input for this stage: the witness program rejected; otherwise <<x>>
Ctx(L, n, seed) == [p |-> L.p, pub |-> IF Has(L, "pubs") THEN L.pubs[n] ELSE L.pub, seed |-> seed]

\* --- the base ----------------------------------------------------------------
EvalBase(L, n, seed) ==
    IF L.kind = "lay" THEN EvalLayered(Ctx(L, n, seed), L.circ, L.ins[n])
    ELSE EvalIr(Ctx(L, n, seed), L.circ, L.ins[n])
\* acc: the input satisfies every constraint (with random coefficients: whatever they are)
BaseRun(L, n) ==
    LET r == EvalBase(L, n, 1)
        a == r.st = "ok" /\ r.ok
        more == IF L.rnd THEN [q \in 2..(IF L.tiny THEN 31 ELSE 4) |-> EvalBase(L, n, q)] ELSE <<>>
        outs == {r.out} \cup {more[q].out : q \in DOMAIN more}
        J == 1..Len(r.out)
    IN [st |-> r.st, out |-> r.out, dz |-> L.kind = "ir" /\ r.dz,
        acc |-> a /\ \A q \in DOMAIN more : more[q].ok,
        fixed |-> [j \in J |-> \A o \in outs : o[j] = r.out[j]],
        same |-> [i \in J |-> [j \in J |-> L.rnd /\ \A o \in outs : o[i] = o[j]]]]
\* the outputs of a run are those of the base; with random constants: the outputs that do
\* not depend on them are, and of the others the same ones are equal
SameOuts(L, b, out) ==
    /\ Len(out) = Len(b.out)
    /\ \A j \in 1..Len(out) : b.fixed[j] => out[j] = b.out[j]
    /\ L.rnd => \A i, j \in 1..Len(out) : ~b.fixed[i] => ((out[i] = out[j]) = b.same[i][j])

\* --- stages --------------------------------------------------------------------
MapIn(L, im, xs) ==
    [j \in 1..im.next |->
        LET src == {i \in 1..Len(im.m) : im.m[i] = j}
        IN IF src = {} THEN FZero(L.p) ELSE xs[CHOOSE i \in src : TRUE]]
StageIn(L, s, n) ==
    LET from == at[s.from + 1][n] IN
    IF from = NoVal THEN NoVal
    ELSE CASE s.via = "id" -> from
           [] s.via = "im" -> <<MapIn(L, s.im, from[1])>>
           [] s.via = "outs" ->
                LET r == EvalIrOuts(Ctx(L, n, 1), L.stages[s.from].circ, from[1])
                IN IF r.st = "ok" THEN <<r.out>> ELSE NoVal
EvalStage(L, s, n, x, seed) ==
    IF s.kind = "lay" THEN EvalLayered(Ctx(L, n, seed), s.circ, x)
    ELSE EvalIr(Ctx(L, n, seed), s.circ, x)
Acc(r) == r.st = "ok" /\ r.ok

\* what is wrong with stage s on input n
RunBad(L, s, n, ox) ==
    LET b == runs[n] IN
    IF b.st = "undef" THEN {}
    ELSE IF ox = NoVal THEN (IF b.acc THEN {"witness program rejects an accepted input"} ELSE {})
    ELSE
    LET x == ox[1] IN
    IF s.kind = "wit" THEN
        (IF b.acc /\ EvalIrOuts(Ctx(L, n, 1), s.circ, x).st # "ok"
         THEN {"witness program rejects an accepted input"} ELSE {})
    ELSE
    LET r == EvalStage(L, s, n, x, 1)
        seeds == IF s.rnd THEN 2..3 ELSE {}
        more == IF s.rnd THEN 2..400 ELSE {}
    IN (IF b.acc /\ ~(Acc(r) /\ \A q \in seeds : Acc(EvalStage(L, s, n, x, q)))
        THEN {"rejects an accepted input"} ELSE {})
       \cup (IF ~b.acc /\ Acc(r) /\ ~\E q \in more : ~Acc(EvalStage(L, s, n, x, q))
             THEN {"accepts a rejected input"} ELSE {})
       \cup (IF b.st = "ok" /\ (r.st # "ok" \/ ~SameOuts(L, b, r.out)) THEN {"outputs differ"} ELSE {})

\* --- notes: further promises of single passes -------------------------------------
\* the number of hint outputs in a run of circuit ci
RECURSIVE HintOuts(_, _)
HintOuts(rc, ci) ==
    FoldLeft(LAMBDA a, s : a + (CASE s.o = "hint" -> s.n
                                  [] s.o = "call" -> HintOuts(rc, s.s)
                                  [] OTHER -> 0), 0, rc.c[ci].i)
NoConstraints(rc) == \A ci \in 1..Len(rc.c) : Len(rc.c[ci].k) = 0
\* how often variable v of circuit ci is a factor of a product
Uses(c, v) ==
    FoldLeft(LAMBDA a, s :
        IF s.o # "expr" THEN a
        ELSE FoldLeft(LAMBDA b, t :
                IF t.k # "q" THEN b
                ELSE b + (IF t.v[1] = v THEN 1 ELSE 0) + (IF t.v[2] = v THEN 1 ELSE 0), a, s.t),
        0, c.i)
NumVars(c) == FoldLeft(LAMBDA a, s : a + NumOut(s), c.n, c.i)
FanoutOk(rc, lim) ==
    \A ci \in 1..Len(rc.c) : \A v \in 1..NumVars(rc.c[ci]) : Uses(rc.c[ci], v) <= lim
\* im uses every new position exactly once
ImOk(im) ==
    /\ \A i \in 1..Len(im.m) : im.m[i] \in 0..im.next
    /\ \A j \in 1..im.next : Cardinality({i \in 1..Len(im.m) : im.m[i] = j}) <= 1
Ordered(im) == \A i, j \in 1..Len(im.m) : (i < j /\ im.m[i] # 0 /\ im.m[j] # 0) => im.m[i] < im.m[j]
Sizes(lc) == <<lc.npub, lc.nact, lc.nz, [i \in 1..Len(lc.l) |-> <<lc.s[lc.l[i]].ni, lc.s[lc.l[i]].no>>]>>

NumIn(circ, kind) == IF kind = "lay" THEN InputSize(circ) ELSE circ.c[1].n
FromCirc(L, s) == IF s.from = 0 THEN L.circ ELSE L.stages[s.from].circ
Bad(b, m) == IF b THEN {} ELSE {m}
Form(L, s) ==
    (CASE s.wf = "loose" -> Bad(WfProgram(s.circ, FALSE), "not well formed")
       [] s.wf = "strict" -> Bad(WfProgram(s.circ, TRUE), "not well formed (strict)")
       [] s.wf = "lay" ->
            Bad(WfLayered(s.circ), "not well formed (layered)")
            \cup Bad(CoefsOk(s.circ), "coefficient out of range")
            \cup Bad(OutputsOk(s.circ), "output counts out of range")
       [] OTHER -> {})
Notes(L, s) ==
    (IF s.via = "im" THEN Bad(ImOk(s.im), "input mapping is not one-to-one") ELSE {})
    \cup (IF Has(s, "hintcount")
          THEN Bad(s.circ.c[1].n = L.circ.c[1].n + HintOuts(L.circ, 1), "number of hint inputs") ELSE {})
    \cup (IF Has(s, "nocon") THEN Bad(NoConstraints(s.circ), "constraints left") ELSE {})
    \cup (IF Has(s, "fanout") THEN Bad(FanoutOk(s.circ, s.fanout), "fan-out limit exceeded") ELSE {})
    \cup (IF Has(s, "order") THEN Bad(s.order => Ordered(s.im), "input order changed") ELSE {})
    \cup (IF Has(s, "iface") THEN Bad(Sizes(s.circ) = Sizes(L.circ), "interface changed") ELSE {})

\* what the real solver and the real evaluator said about every input
SolvedBad(L, s, n, x) ==
    LET v == s.solved[n]
        r == EvalIrOuts(Ctx(L, n, 1), s.circ, x)
    IN CASE v.st = "panic" -> {"witness solver panics"}
         [] v.st = "err" ->
                (IF r.st = "ok" THEN {"witness solver fails"} ELSE {})
         [] v.st = "ok" ->
                (IF r.st = "ok" /\ v.v # r.out \o L.pub THEN {"witness solver values differ"} ELSE {})
                \cup (IF r.st = "rej" THEN {"witness solver hides a failing hint"} ELSE {})
RanBad(L, s, n) ==
    LET v == s.ran[n]
        b == runs[n]
    IN IF v.st = "none" \/ b.st = "undef" THEN {}
       ELSE IF v.st = "panic" THEN {"circuit evaluation panics"}
       ELSE (IF b.acc /\ ~v.ok THEN {"real run rejects an accepted input"} ELSE {})
            \cup (IF b.st = "ok" /\ ~SameOuts(L, b, v.v) THEN {"real run outputs differ"} ELSE {})
            \cup (IF ~s.rnd /\ ~b.acc /\ v.ok THEN {"real run accepts a rejected input"} ELSE {})
Checks(L, s, n, x) ==
    (IF Has(s, "solved") /\ Len(s.solved) > 0 /\ x # NoVal THEN SolvedBad(L, s, n, x[1]) ELSE {})
    \cup (IF Has(s, "ran") /\ Len(s.ran) > 0 THEN RanBad(L, s, n) ELSE {})

\* --- errors -----------------------------------------------------------------------
\* user: the code refused the program; legitimate if no input satisfies it
FailBad(L, r, f) ==
    LET anyacc == \E n \in 1..Len(r) : r[n].acc IN
    CASE f.how \in {"panic", "internal"} -> {"internal failure"}
      [] f.how = "noinputs" -> {}
      [] f.how = "user" -> Bad(~anyacc, "refuses a program with accepted inputs")
      [] f.how = "divzero" ->
            Bad(\A n \in 1..Len(r) : r[n].st # "ok" \/ r[n].dz, "refuses a program that divides by non-zeros")
      [] f.how = "empty" ->
            Bad(L.kind = "ir" /\ L.circ.c[1].z = <<>> /\ (\A n \in 1..Len(r) : r[n].st = "undef" \/ r[n].acc),
                "lost every constraint and output")
LineBad(L, r) ==
    UNION {FailBad(L, r, L.fails[j]) : j \in 1..Len(L.fails)}
    \cup (IF Has(L, "refuses") THEN Bad(L.refuses, "fan-out limits of one or less are not refused") ELSE {})

\* --- batched runs of a layered circuit -----------------------------------------------
RunsBad(L, r) ==
    IF ~Has(L, "runs") THEN {}
    ELSE UNION {
        LET q == L.runs[j] IN
        IF Len(q.res) # Len(r) THEN {"number of results"}
        ELSE UNION {
            Bad(IF L.random THEN r[n].acc => q.res[n][1] ELSE q.res[n][1] = r[n].acc, q.name \o ": verdict")
            \cup (IF Len(q.res[n]) = 2 /\ ~L.random THEN Bad(q.res[n][2] = r[n].out, q.name \o ": outputs") ELSE {})
            : n \in 1..Len(r)}
        : j \in 1..Len(L.runs)}

Report(L, name, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, name, b>>)

Init == l \in 1..Len(Lines) /\ k = -1 /\ runs = <<>> /\ at = <<>> /\ bad = {}

Base ==
    LET L == Lines[l]
        r == [n \in 1..Len(L.ins) |-> BaseRun(L, n)]
        b == LineBad(L, r) \cup RunsBad(L, r)
    IN /\ k = -1
       /\ k' = 0
       /\ runs' = r
       /\ at' = <<[n \in 1..Len(L.ins) |-> <<L.ins[n]>>]>>
       /\ bad' = b
       /\ Report(L, "base", b)
       /\ UNCHANGED l
Stage ==
    LET L == Lines[l]
        s == L.stages[k + 1]
        xs == [n \in 1..Len(L.ins) |-> StageIn(L, s, n)]
        f == Form(L, s)
        b == IF s.wf # "none" /\ f # {} THEN f
             ELSE Notes(L, s) \cup UNION {RunBad(L, s, n, xs[n]) \cup Checks(L, s, n, xs[n]) : n \in 1..Len(L.ins)}
    IN /\ k >= 0
       /\ k < Len(L.stages)
       /\ k' = k + 1
       /\ at' = Append(at, xs)
       /\ bad' = b
       /\ Report(L, s.name, b)
       /\ UNCHANGED <<l, runs>>
Next == Base \/ Stage
Spec == Init /\ [][Next]_vars

Sound == bad = {}
Short == [line |-> Lines[l].id, stage |-> IF k <= 0 THEN "base" ELSE Lines[l].stages[k].name, bad |-> bad]
=============================================================================
