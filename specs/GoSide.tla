------------------------------- MODULE GoSide -------------------------------
(* The Go packages against the library (L02).  An artifact is the same on    *)
(* both sides: what one side writes, the other reads; what it reads and      *)
(* writes again is unchanged; and what it does with it is what it means.     *)
(*   src: a source circuit of the Go packages, as the library reads it       *)
(*   ws:  a witness solver and a layered circuit of the library, read,       *)
(*        written again, solved and evaluated by the Go packages             *)
EXTENDS Layered, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}

\* the witness of one assignment, or "err"
Ctx(L, a) == [p |-> L.p, pub |-> a[2], seed |-> 0]
Solve(L, a) ==
    LET r == EvalIrOuts(Ctx(L, a), L.circ, a[1])
    IN IF r.st = "ok"
       THEN [st |-> "ok", v |-> r.out, pub |-> a[2],
             out |-> TLCEval(RunLayers(Ctx(L, a), L.lc, r.out)[1])]
       ELSE [st |-> "err"]
Accepts(L, s) == \A j \in 1..L.lc.nz : s.out[j] = FZero(L.p)
HasRandom(g) ==
    \/ \E j \in 1..Len(g.m) : g.m[j][4][1] = "r"
    \/ \E j \in 1..Len(g.a) : g.a[j][3][1] = "r"
    \/ \E j \in 1..Len(g.k) : g.k[j][2][1] = "r"
\* outputs that no challenge changes: the checked ones may be combined at random
Fixed(L) == (IF \E i \in 1..Len(L.lc.s) : HasRandom(L.lc.s[i]) THEN L.lc.nz + 1 ELSE 1)..L.lc.nact
Flat(s) == FlattenSeq([j \in 1..Len(s) |-> s[j].v \o s[j].pub])
Same(o, s) ==
    /\ o.num = Len(s) /\ o.a = Len(s[1].v) /\ o.b = Len(s[1].pub) /\ o.v = Flat(s)
Answer(L, o, s) ==
    LET st == IF \E j \in 1..Len(s) : s[j].st = "err" THEN "err" ELSE "ok"
    IN Bad(o.said = st, "solving: " \o o.said \o " instead of " \o st)
       \cup IF o.said # "ok" \/ st # "ok" THEN {}
            ELSE Bad(Same(o, s), "other witness")
                 \cup Bad("none" \notin DOMAIN o.lib /\ o.lib.left = 0 /\ Same(o.lib, s), "the library reads another witness")
                 \cup Bad(o.many = [j \in 1..Len(s) |-> Accepts(L, s[j])], "checking the circuit")
                 \cup IF "outs" \notin DOMAIN o THEN {}
                      ELSE Bad(Len(o.outs) = Len(s[1].out) /\ \A j \in Fixed(L) : o.outs[j] = s[1].out[j], "evaluating the circuit")
                           \cup Bad(o.check = Accepts(L, s[1]), "checking one witness")
WsBad(L) ==
    LET s == TLCEval([j \in 1..Len(L.vals) |-> Solve(L, L.vals[j])])
    IN Bad(L.back = L.raw, "the solver changes on its way")
       \cup Bad(L.laysame, "the layered circuit changes on its way")
       \cup Bad(Len(L.one) = Len(s) /\ Len(L.bat) = Len(L.runs), "nothing solved")
       \cup UNION {Answer(L, L.one[j], <<s[j]>>) : j \in 1..Len(L.one)}
       \cup UNION {Answer(L, L.bat[j], SubSeq(s, L.runs[j][1] + 1, L.runs[j][1] + L.runs[j][2])) : j \in 1..Len(L.bat)}
LineBad(L) ==
    IF L.kind = "src" THEN Bad(L.back = L.prog, "the source circuit changes on its way") ELSE WsBad(L)

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    /\ k = 0
    /\ k' = 1
    /\ bad' = LineBad(Lines[l])
    /\ Report(Lines[l], bad')
    /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, at |-> k, bad |-> bad]
=============================================================================
