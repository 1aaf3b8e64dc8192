-------------------------------- MODULE Front --------------------------------
(* Circuits written with the builder operations.                             *)
(*                                                                           *)
(* A body is a sequence of operations on a growing sequence of variables; a  *)
(* program is a main body and functions.  The meaning below is the           *)
(* mathematical one: calling a function, by whichever mechanism, runs its    *)
(* body on the arguments, the constants and the argument structure.          *)
(* A line of the trace is one program with, for several assignments, what    *)
(* the debug evaluator did (d) and what the compiled circuit did (c).        *)
EXTENDS Ir, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}

Nth(s, i) == s[(i % Len(s)) + 1]
\* operands: a variable, a constant of the field, a small number, a constant argument
Val(p, x, v, ks) ==
    CASE x[1] = "v" -> Nth(v, x[2])
      [] x[1] = "c" -> x[2]
      [] x[1] = "u" -> FInt(p, x[2])
      [] x[1] = "k" -> FInt(p, Nth(ks, x[2]))
Num(x, ks) == IF x[1] = "u" THEN x[2] ELSE Nth(ks, x[2])

\* result of an operation: status, new values, hint calls, was there a division by zero
Res(st, v) == [st |-> st, v |-> v, log |-> <<>>, dz |-> FALSE]
Ok(x) == Res("ok", <<x>>)
Demand(b) == Res(IF b THEN "ok" ELSE "rej", <<>>)

Quot(p, x, y, checked) ==
    IF y # FZero(p) THEN Ok(FMul(p, x, FInv(p, y)))
    ELSE [Res(IF ~checked /\ x = FZero(p) THEN "ok" ELSE "rej", <<FZero(p)>>) EXCEPT !.dz = TRUE]

Logic(p, op, x, y) ==
    LET xy == FMul(p, x, y)
        sum == FAdd(p, x, y)
    IN IF ~(FIsBool(p, x) /\ FIsBool(p, y)) THEN Res("rej", <<FZero(p)>>)
       ELSE Ok(CASE op = "and" -> xy
                 [] op = "or" -> FSub(p, sum, xy)
                 [] op = "xor" -> FSub(p, sum, FAdd(p, xy, xy)))

RECURSIVE FromBits(_, _)
FromBits(p, s) == IF s = <<>> THEN FZero(p)
                  ELSE LET t == FromBits(p, Tail(s)) IN FAdd(p, s[1], FAdd(p, t, t))

RECURSIVE Body(_, _, _, _, _)
Op(p, fns, o, v, ks) ==
    LET a == [j \in 1..Len(o.a) |-> Val(p, o.a[j], v, ks)] IN
    CASE o.o \in {"add", "uadd"} -> Ok(FAdd(p, a[1], a[2]))
      [] o.o = "sub" -> Ok(FSub(p, a[1], a[2]))
      [] o.o \in {"mul", "umul"} -> Ok(FMul(p, a[1], a[2]))
      [] o.o = "neg" -> Ok(FNeg(p, a[1]))
      [] o.o \in {"and", "or", "xor"} -> Logic(p, o.o, a[1], a[2])
      [] o.o = "div" -> Quot(p, a[1], a[2], TRUE)
      [] o.o = "divu" -> Quot(p, a[1], a[2], FALSE)
      [] o.o = "inv" -> Quot(p, FOne(p), a[1], TRUE)
      [] o.o = "isz" -> Ok(B2F(p, a[1] = FZero(p)))
      [] o.o = "tobin" ->
            IF IFits(p, a[1], o.n) THEN Res("ok", IBits(p, a[1], o.n))
            ELSE Res("rej", [j \in 1..o.n |-> FZero(p)])
      [] o.o = "frombin" -> Ok(FromBits(p, a))
      [] o.o \in {"const", "cv", "uid"} -> Ok(a[1])
      [] o.o = "gt" -> Ok(B2F(p, FLt(p, a[2], a[1])))
      [] o.o = "geq" -> Ok(B2F(p, FLe(p, a[2], a[1])))
      [] o.o = "hint" ->
            LET h == Hint(p, o.h, a, o.n) IN [Res(h.st, h.v) EXCEPT !.log = <<<<o.h, a, o.n>>>>]
      [] o.o \in BinOps -> Ok(HintBinOp(p, o.o, a[1], a[2]))
      [] o.o = "az" -> Demand(a[1] = FZero(p))
      [] o.o = "anz" -> Demand(a[1] # FZero(p))
      [] o.o = "ab" -> Demand(FIsBool(p, a[1]))
      [] o.o = "aeq" -> Demand(a[1] = a[2])
      [] o.o = "ane" -> Demand(a[1] # a[2])
      [] o.o = "call" ->
            LET c == [j \in 1..Len(o.k) |-> Num(o.k[j], ks)]
                r == Body(p, fns, fns[o.f], a, <<3>> \o c \o o.s)
            IN [st |-> r.st, log |-> r.log, dz |-> r.dz,
                v |-> IF o.m = "memo" /\ o.f \in {4, 5} THEN <<FAdd(p, r.v[Len(r.v)], r.v[1])>>
                      ELSE IF o.m = "memo" /\ o.f = 6 THEN <<>>
                      ELSE r.v]
\* the operations of b on the variables v with the constants ks
Body(p, fns, b, v, ks) ==
    LET v0 == IF v = <<>> THEN <<FInt(p, 7)>> ELSE v
        Step(s, j) ==
            IF s.st # "ok" THEN s
            ELSE LET r == Op(p, fns, b[j], s.v, ks)
                 IN [st |-> r.st, v |-> s.v \o r.v, log |-> s.log \o r.log, dz |-> s.dz \/ r.dz]
    IN FoldLeft(Step, [st |-> "ok", v |-> v0, log |-> <<>>, dz |-> FALSE], Idx(b))

Mean(L, r) == Body(L.p, L.prog.fns, L.prog.main, r.x \o r.y, <<3>>)
\* a call that drops results of its function: the hints behind them may then be dropped, too
Drops(L) == \E b \in {L.prog.fns[j] : j \in 1..Len(L.prog.fns)} \cup {L.prog.main} :
                \E j \in 1..Len(b) : b[j].o = "call" /\ b[j].m = "memo" /\ b[j].f \in {4, 5, 6}
\* A part of a sub-circuit may depend on no input; the compiler then refuses the circuit.
\* (not so if everything in the functions is a product of variables)
Idle(L) ==
    /\ \E b \in {L.prog.fns[j] : j \in 1..Len(L.prog.fns)} \cup {L.prog.main} :
          \E j \in 1..Len(b) : b[j].o = "call" /\ b[j].m # "inline"
    /\ \/ ToString(L.p) \in {"2", "3"}
       \/ \E b \in {L.prog.fns[j] : j \in 1..Len(L.prog.fns)} :
          \E j \in 1..Len(b) : ~(/\ b[j].o \in {"mul", "call"}
                                /\ b[j].a # <<>>
                                /\ \A i \in 1..Len(b[j].a) : b[j].a[i][1] = "v")
Elems(s) == {s[j] : j \in 1..Len(s)}

\* what the compiled circuit did with one assignment
CompiledBad(L, r, m) ==
    LET c == r.c
        st == IF m.st = "ok" THEN "ok" ELSE "fail"
    IN IF c.st = "none" THEN {}
       ELSE Bad(c.st = st, "compiled: " \o c.st \o " instead of " \o st)
            \cup (IF c.st = "ok" /\ m.st = "ok"
                  THEN Bad(c.out = m.v, "compiled: other outputs")
                       \cup Bad(Elems(c.log) \subseteq Elems(m.log), "compiled: a hint called with other arguments")
                       \cup Bad(Drops(L) \/ Elems(m.log) \subseteq Elems(c.log), "compiled: a hint not called")
                  ELSE {})
\* what the debug evaluator did
DebugBad(L, r, m) ==
    LET d == r.d
        st == IF m.st = "ok" THEN "ok" ELSE "fail"
    IN Bad(d.st = st, "debug: " \o d.st \o " instead of " \o st)
       \cup Bad(d.st # "ok" \/ m.st # "ok" \/ d.out = m.v, "debug: other outputs")
       \cup Bad(d.log = m.log, "debug: hints called with other arguments or in another order")
\* Refusing to build is right only when a constant operation fails, hence with every assignment,
\* or when a sub-circuit is left without inputs (which the compiler reports to the user).
RefusalBad(L, ms) ==
    IF L.build.said = "ok" THEN {}
    ELSE Bad(~(L.build.said = "panic" /\ L.build.at = "compile"), "compiling panics")
         \cup Bad(\/ L.build.said = "err" /\ L.build.user /\ (Drops(L) \/ Idle(L))
                 \/ \A j \in 1..Len(ms) : ms[j].st # "ok" \/ ms[j].dz, "refuses a circuit that accepts an assignment")

LineBad(L) ==
    LET ms == [j \in 1..Len(L.runs) |-> Mean(L, L.runs[j])]
    IN RefusalBad(L, ms)
       \cup UNION {CompiledBad(L, L.runs[j], ms[j]) \cup DebugBad(L, L.runs[j], ms[j]) : j \in 1..Len(ms)}

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    LET L == Lines[l]
    IN /\ k = 0
       /\ k' = 1
       /\ bad' = LineBad(L)
       /\ Report(L, bad')
       /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, bad |-> bad]
=============================================================================
