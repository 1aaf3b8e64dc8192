------------------------------ MODULE StdBase ------------------------------
(* What it means that a gadget of the standard circuits is right.  A trace   *)
(* line is one gadget with several inputs; Expect gives the outputs it has   *)
(* to have (or that the input is refused), Holds the relation it has to      *)
(* accept exactly.                                                           *)
EXTENDS Fld, FiniteSets, SequencesExt, Functions, TLC, Json, IOUtils

CONSTANTS Expect(_, _), Holds(_, _)

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}

\* integers of any size are values below Huge
HUGE == FoldLeft(LAMBDA s, j : s \o "0000000000", "1", [j \in 1..150 |-> j])
Z(v) == FInt(HUGE, v)
ZAdd(a, b) == FAdd(HUGE, a, b)
ZSub(a, b) == FSub(HUGE, a, b)
ZMul(a, b) == FMul(HUGE, a, b)
ZDiv(a, b) == IDiv(HUGE, a, b)
ZMod(a, b) == IMod(HUGE, a, b)
ZLt(a, b) == FLt(HUGE, a, b)
ZLe(a, b) == FLe(HUGE, a, b)
ZPow2(n) == IShL(HUGE, "1", n)
\* limbs of w bits, least significant first
ZBig(x, w) == LET q == TLCEval(ZPow2(w)) IN FoldRight(LAMBDA v, acc : ZAdd(Z(v), ZMul(acc, q)), x, "0")
ZLimb(a, w, j) == ZMod(ZDiv(a, ZPow2(w * j)), ZPow2(w))

Ok(v) == [st |-> "ok", v |-> v]
Rej == [st |-> "rej", v |-> <<>>]
SumF(p, s) == FoldLeft(LAMBDA a, b : FAdd(p, a, b), FZero(p), s)
Slice(x, from, n) == SubSeq(x, from + 1, from + n)
\* n rows of w values
Rows(x, from, n, w) == [i \in 1..n |-> Slice(x, from + (i - 1) * w, w)]

AllTrue(s) == \A j \in 1..Len(s) : s[j]
\* a relation: an honest prover convinces exactly if it holds, any other at most then
RelBad(L, C) ==
    LET h == Holds(L, C.x)
        dbg == \A j \in 1..Len(C.dbg) : C.dbg[j].st = "ok"
    IN Bad(L.adv > 0 \/ ~h \/ dbg, L.g \o ": refused in the debug builder")
       \cup Bad(h \/ ~dbg, L.g \o ": accepted in the debug builder")
       \cup UNION {Bad(L.adv > 0 \/ ~h \/ AllTrue(C.runs[j].oks), L.g \o ": refused by the compiled circuit")
                   \cup Bad(h \/ ~AllTrue(C.runs[j].oks), L.g \o ": accepted by the compiled circuit") : j \in 1..Len(C.runs)}
       \cup Bad(L.ops # "library" \/ C.x # L.cases[1].x \/ h, L.g \o ": the library's own assignment")
\* a function
FnBad(L, C) ==
    LET w == TLCEval(Expect(L, C.x))
        Dbg(d) == IF d.st = "ok" THEN w.st = "ok" /\ d.v = w.v ELSE w.st = "rej" \/ L.adv > 0
        Run(r) ==
            LET t == w.st = "ok" /\ r.y = w.v
            IN IF t THEN L.adv > 0 \/ AllTrue(r.oks) ELSE ~AllTrue(r.oks)
    IN Bad(\A j \in 1..Len(C.dbg) : Dbg(C.dbg[j]), L.g \o ": debug builder")
       \cup Bad(\A j \in 1..Len(C.runs) : Run(C.runs[j]), L.g \o ": compiled circuit")
       \cup Bad("num" \notin DOMAIN C \/ C.num = w.v, L.g \o ": on numbers")

\* gadgets compile unless every input is refused
CompBad(L) ==
    Bad(L.comp \in {"ok", "none"}
        \/ (L.kind = "rel" /\ \A j \in 1..Len(L.cases) : ~Holds(L, L.cases[j].x)), L.g \o ": compile")
CaseBad(L, j) == IF L.kind = "rel" THEN RelBad(L, L.cases[j]) ELSE FnBad(L, L.cases[j])

Report(L, j, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.g, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    LET L == Lines[l]
    IN /\ k < Len(L.cases)
       /\ k' = k + 1
       /\ bad' = (IF k = 0 THEN CompBad(L) ELSE {}) \cup CaseBad(L, k + 1)
       /\ Report(L, k + 1, bad')
       /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, case |-> k, bad |-> bad]
=============================================================================
