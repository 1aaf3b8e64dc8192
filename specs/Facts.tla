-------------------------------- MODULE Facts --------------------------------
(* What the code says about a program or circuit without running it.  Each   *)
(* line of the trace is one question to the real code and its answer:        *)
(*   prog, lay   validation: accepted exactly what is well formed (Ir,       *)
(*               Layered), anything else refused with an error               *)
(*   irstats, laystats   statistics: the counts of the expanded program      *)
(*   export, exportable  what the proving backend is given                   *)
(*   det         the digests of repeated compilations of one program         *)
EXTENDS Layered, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad, memo
vars == <<l, k, bad, memo>>

Has(r, f) == f \in DOMAIN r
Bad(b, m) == IF b THEN {} ELSE {m}

\* --- validation ----------------------------------------------------------------
ProgOk(L) == L.root /\ WfProgram(L.circ, L.form = "strict")
ProgBad(L) ==
    LET ok == ProgOk(L)
    IN Bad(L.said # "panic", "validation panics")
       \cup Bad((L.said = "ok") = ok \/ L.said = "panic",
                IF ok THEN "refuses a well-formed program" ELSE "accepts a malformed program")
       \cup (IF ~ok /\ Has(L, "compiled")
             THEN Bad(L.compiled = "err", "compilation does not refuse a malformed program: " \o L.compiled) ELSE {})
LayBad(L) ==
    LET ok == WfLayered(L.circ) /\ CoefsOk(L.circ)
    IN Bad(L.said # "panic", "validation panics")
       \cup Bad((L.said = "ok") = ok \/ L.said = "panic",
                IF ok THEN "refuses a well-formed circuit" ELSE "accepts a malformed circuit")

\* --- statistics of programs -----------------------------------------------------
NumIns(s) ==
    CASE s.o = "lin" -> Len(s.t)
      [] s.o \in {"mul", "hint", "call", "usel", "cust", "commit"} -> Len(s.v)
      [] s.o \in {"div", "bool", "ubin"} -> 2
      [] s.o \in {"isz", "tobin"} -> 1
      [] s.o = "const" -> 0
      [] s.o = "expr" -> FoldLeft(LAMBDA a, t : a + Len(t.v), 0, s.t)
Plus(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
RECURSIVE Count(_, _)
\* <<instructions, operands, results, constraints>> of circuit ci with its calls expanded
Count(rc, ci) ==
    FoldLeft(LAMBDA a, s :
        LET own == Plus(a, <<1, NumIns(s), NumOut(s), 0>>)
        IN IF s.o = "call" THEN Plus(own, Count(rc, s.s)) ELSE own,
        <<0, 0, 0, Len(rc.c[ci].k)>>, rc.c[ci].i)
IrStatsBad(L) ==
    LET c == Count(L.circ, 1)
    IN Bad(L.inputs = L.circ.c[1].n, "number of inputs")
       \cup Bad(L.insns = c[1], "number of instructions")
       \cup Bad(L.terms = c[2], "number of terms")
       \cup Bad(L.vars = c[3], "number of variables")
       \cup Bad(L.cons = c[4], "number of constraints")

\* --- statistics of layered circuits ---------------------------------------------
Own(g) == <<Len(g.m), Len(g.a), Len(g.k)>>
RECURSIVE Expand(_, _)
Expand(lc, si) ==
    LET g == lc.s[si]
    IN FoldLeft(LAMBDA a, ch :
            LET e == Expand(lc, ch[1]) IN [j \in 1..3 |-> a[j] + e[j] * Len(ch[2])], Own(g), g.ch)
\* positions of the circuit's input vector that some layer reads
UsedInputs(lc) ==
    UNION {IF i <= Len(lc.s[lc.l[i]].ni) THEN Reads(lc, lc.l[i], i - 1) ELSE {} : i \in 1..Len(lc.l)}
LayStatsBad(L) ==
    LET lc == L.circ
        tot == FoldLeft(LAMBDA a, g : Plus(a, Own(g)), <<0, 0, 0>>, lc.s)
        ex == FoldLeft(LAMBDA a, si : Plus(a, Expand(lc, si)), <<0, 0, 0>>, lc.l)
        gates == FoldLeft(LAMBDA a, si : a + lc.s[si].no, 0, lc.l)
        used == FoldLeft(LAMBDA a, si : a + Cardinality(Writes(lc, si)), 0, lc.l)
        c == L.cost
    IN Bad(L.layers = Len(lc.l), "number of layers")
       \cup Bad(L.segments = Len(lc.s), "number of segments")
       \cup Bad(L.inputs = Cardinality(UsedInputs(lc)), "number of used inputs")
       \cup Bad(L.total = tot, "gates of all segments")
       \cup Bad(L.expanded = ex, "gates of the expanded layers")
       \cup Bad(L.gates = gates, "number of positions")
       \cup Bad(L.used = used, "number of used positions")
       \cup Bad(L.tcost = InputSize(lc) * c[1] + gates * c[2] + ex[1] * c[3] + ex[2] * c[4] + ex[3] * c[5], "total cost")

\* --- export ------------------------------------------------------------------------
Range_(s) == {s[j] : j \in 1..Len(s)}
SameBag(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A x \in Range_(s) : Cardinality({j \in 1..Len(s) : s[j] = x}) = Cardinality({j \in 1..Len(t) : t[j] = x})
\* one entry per placement
Places(g) == FlattenSeq([j \in 1..Len(g.ch) |-> [m \in 1..Len(g.ch[j][2]) |-> <<g.ch[j][1], g.ch[j][2][m]>>]])
SegSame(g, h) ==
    Bad(g.ni = h.ni /\ g.no = h.no, "segment sizes")
    \cup Bad(SameBag(Places(g), Places(h)), "child placements")
    \cup Bad(SameBag(g.m, h.m), "multiplication gates")
    \cup Bad(SameBag(g.a, h.a), "addition gates")
    \cup Bad(SameBag(g.k, h.k), "constant gates")
    \cup Bad(SameBag(g.u, h.u), "custom gates")
ExportBad(L) ==
    IF L.said # "ok" THEN (IF L.many THEN {} ELSE {"export panics"})
    ELSE
    LET a == L.circ
        b == L.exp
    IN Bad(a.npub = b.npub, "number of public inputs")
       \cup Bad(a.nact = b.nact, "number of outputs")
       \cup Bad(a.nz = b.nz, "number of zero outputs")
       \cup Bad(a.l = b.l, "layers")
       \cup Bad(Len(a.s) = Len(b.s), "number of segments")
       \cup (IF Len(a.s) = Len(b.s) THEN UNION {SegSame(a.s[j], b.s[j]) : j \in 1..Len(a.s)} ELSE {})
ExportableBad(L) == Bad(L.said = "ok", "a compiled circuit cannot be exported")

\* --- determinism ---------------------------------------------------------------------
\* compilation is a function: memo remembers the first answer for a program and its options,
\* every later compilation of it must give the same
DetBad(L) ==
    Bad(~Has(L, "lost"), "a process gave no answer")
    \cup Bad(\A j \in 1..Len(L.runs) : L.runs[j] = memo, "compilations of one program differ")

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Judge(L) ==
    CASE L.kind = "prog" -> ProgBad(L)
      [] L.kind = "lay" -> LayBad(L)
      [] L.kind = "irstats" -> IrStatsBad(L)
      [] L.kind = "laystats" -> LayStatsBad(L)
      [] L.kind = "export" -> ExportBad(L)
      [] L.kind = "exportable" -> ExportableBad(L)
      [] L.kind = "det" -> DetBad(L)

Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
        /\ memo = IF Has(Lines[l], "runs") THEN Lines[l].runs[1] ELSE <<>>
Next ==
    LET L == Lines[l]
        b == Judge(L)
    IN /\ k = 0
       /\ k' = 1
       /\ bad' = b
       /\ Report(L, b)
       /\ UNCHANGED <<l, memo>>
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, bad |-> bad]
=============================================================================
