------------------------------- MODULE Witness -------------------------------
(* Witnesses: solving them (lines of kind "solve") and holding them in the   *)
(* plain or the packed representation (lines of kind "hold").                *)
(*                                                                           *)
(* Abstractly a witness is a sequence of assignments <<inputs, public>>.     *)
(* Which representation holds it, and how often it was written and read      *)
(* back, never shows: every operation below reads only the sequence.         *)
(* A block of m lanes starting at assignment f (from 0) shows, for every     *)
(* position, the values of assignments f+1..f+m; lanes past the end repeat   *)
(* the last assignment.                                                      *)
EXTENDS Ir, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, w, bad
vars == <<l, k, w, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}

Least(a, b) == IF a < b THEN a ELSE b
Block(s, f, m, side) ==
    [q \in 1..Len(s[1][side]) |-> [j \in 1..m |-> s[Least(f + j, Len(s))][side][q]]]
NumBlocks(s, m) == (Len(s) + m - 1) \div m
Blocks(s, m) == [j \in 1..NumBlocks(s, m) |-> <<Block(s, (j - 1) * m, m, 1), Block(s, (j - 1) * m, m, 2)>>]

\* --- holding ---------------------------------------------------------------------
HoldBad(L, o) ==
    CASE o.op = "each" -> Bad(o.r = w, "iterating by assignment shows other assignments")
      [] o.op = "blocks" -> Bad(o.r = Blocks(w, o.m), "iterating by block shows other lanes")
      [] o.op = "first" -> Bad(o.r = <<Block(w, 0, o.m, 1), Block(w, 0, o.m, 2)>>, "the packed form for proving shows other lanes")
      [] o.op = "reload" -> Bad(o.r = <<Len(w), L.a, L.b>>, "counts changed")
      [] o.op = "panic" -> {"panics"}

\* --- solving ---------------------------------------------------------------------
\* everything that runs when the program runs
Running(rc) == Reach(Callees(rc), {1}, Len(rc.c))
Insns(rc) == UNION {{rc.c[ci].i[j] : j \in 1..Len(rc.c[ci].i)} : ci \in Running(rc)}
IsBuiltin(h) == h \in BinOps \cup {"Identity", "Select", "ToBinary"}
Rng_(s) == {s[j] : j \in 1..Len(s)}
\* the solver cannot run these, whatever the assignment
Refused(L) == \E s \in Insns(L.circ) :
    \/ s.o = "cust"
    \/ s.o = "const" /\ s.f[1] = "r"
    \/ s.o = "hint" /\ ~IsBuiltin(s.h) /\ s.h \notin Rng_(L.known)
\* the witness of one assignment, or "err"
Solve(L, a) ==
    LET r == EvalIrOuts([p |-> L.p, pub |-> a[2], seed |-> 0], L.circ, a[1])
    IN IF r.st = "ok" THEN [st |-> "ok", v |-> <<r.out, a[2]>>] ELSE [st |-> "err"]
Flat(s) == FlattenSeq([j \in 1..Len(s) |-> s[j][1] \o s[j][2]])
FlatBlocks(s, m) == FlattenSeq([j \in 1..NumBlocks(s, m) |->
                        Block(s, (j - 1) * m, m, 1) \o Block(s, (j - 1) * m, m, 2)])
Same(L, o, s) ==
    /\ o.num = Len(s)
    /\ Len(s) > 0 => o.a = Len(s[1][1]) /\ o.b = Len(s[1][2])
    /\ IF o.form = "plain" THEN o.v = Flat(s) ELSE o.v = FlatBlocks(s, L.pack)
SolveBad(L) ==
    LET no == Refused(L)
        each == [j \in 1..Len(L.asg) |-> IF no THEN [st |-> "err"] ELSE Solve(L, L.asg[j])]
        One(j) ==
            LET o == L.one[j]
            IN Bad(o.said = each[j].st, "one assignment: " \o o.said \o " instead of " \o each[j].st)
               \cup IF o.said = "ok" /\ each[j].st = "ok" THEN Bad(Same(L, o, <<each[j].v>>), "one assignment: other values") ELSE {}
        Batch(o) ==
            LET s == SubSeq(each, o.first + 1, o.first + o.k)
                st == IF \E j \in 1..Len(s) : s[j].st = "err" THEN "err" ELSE "ok"
            IN Bad(o.said = st, "a batch: " \o o.said \o " instead of " \o st)
               \cup IF o.said = "ok" /\ st = "ok"
                    THEN Bad(Same(L, o, [j \in 1..Len(s) |-> s[j].v]), "a batch: other values") ELSE {}
    IN UNION {One(j) : j \in 1..Len(L.one)} \cup UNION {Batch(L.bat[j]) : j \in 1..Len(L.bat)}

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {} /\ w = Lines[l].asg
Next ==
    LET L == Lines[l]
    IN /\ k < (IF L.kind = "hold" THEN Len(L.ops) ELSE 1)
       /\ k' = k + 1
       /\ bad' = (IF L.kind = "hold" THEN HoldBad(L, L.ops[k + 1]) ELSE SolveBad(L))
       /\ Report(L, bad')
       /\ UNCHANGED <<l, w>>
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, at |-> k, bad |-> bad]
=============================================================================
