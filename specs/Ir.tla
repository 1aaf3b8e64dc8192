--------------------------------- MODULE Ir ---------------------------------
(* Meaning of the intermediate representations: source programs,             *)
(* hint-normalised programs, hint-free programs, expression ("dest")         *)
(* programs.  One instruction alphabet covers all of them.                   *)
(*                                                                           *)
(* A program is [npub, nz, c] where c is a sequence of circuits, c[1] the    *)
(* root; a circuit is [n, i, k, z]: number of inputs, instructions,          *)
(* constraints <<kind, variable>>, output variables.  Variables are numbered *)
(* from 1: first the inputs, then the outputs of the instructions in order.  *)
(*                                                                           *)
(* A run has a status: "ok"; "rej": the program demands that this input be   *)
(* rejected (division by zero, non-boolean operand of a boolean gate, value  *)
(* too large for a bit decomposition, failing hint); "undef": nothing needs   *)
(* the result of such an instruction, which may then be left out.           *)
EXTENDS Fld, SequencesExt

Idx(s) == [j \in 1..Len(s) |-> j]
At(xs, vs) == [j \in 1..Len(vs) |-> xs[vs[j]]]
B2F(p, b) == IF b THEN FOne(p) ELSE FZero(p)
OkVal(v) == [st |-> "ok", v |-> v]

\* --- unconstrained operators ------------------------------------------------
\* the value of x op y, for y # 0 where the operator divides
BinOp(p, op, x, y) ==
    LET z == FZero(p) IN
    CASE op = "Div" -> FMul(p, x, FInv(p, y))
      [] op = "Pow" -> FPow(p, x, y)
      [] op = "IntDiv" -> IDiv(p, x, y)
      [] op = "Mod" -> IMod(p, x, y)
      [] op = "ShiftL" -> IShL(p, x, y)
      [] op = "ShiftR" -> IShR(p, x, y)
      [] op = "LesserEq" -> B2F(p, FLe(p, x, y))
      [] op = "GreaterEq" -> B2F(p, FLe(p, y, x))
      [] op = "Lesser" -> B2F(p, FLt(p, x, y))
      [] op = "Greater" -> B2F(p, FLt(p, y, x))
      [] op = "Eq" -> B2F(p, x = y)
      [] op = "NotEq" -> B2F(p, x # y)
      [] op = "BoolOr" -> B2F(p, x # z \/ y # z)
      [] op = "BoolAnd" -> B2F(p, x # z /\ y # z)
      [] op = "BitOr" -> IOr(p, x, y)
      [] op = "BitAnd" -> IAnd(p, x, y)
      [] op = "BitXor" -> IXor(p, x, y)
DividingOps == {"Div", "IntDiv", "Mod"}
BinOps == {"Div", "Pow", "IntDiv", "Mod", "ShiftL", "ShiftR", "LesserEq", "GreaterEq", "Lesser",
           "Greater", "Eq", "NotEq", "BoolOr", "BoolAnd", "BitOr", "BitAnd", "BitXor"}
\* dividing by zero without constraints gives 0
HintBinOp(p, op, x, y) ==
    IF op \in DividingOps /\ y = FZero(p) THEN FZero(p) ELSE BinOp(p, op, x, y)

SumSeq(p, s) == FoldLeft(LAMBDA a, b : FAdd(p, a, b), FZero(p), s)
ProdSeq(p, s) == FoldLeft(LAMBDA a, b : FMul(p, a, b), FOne(p), s)

\* --- hints -------------------------------------------------------------------
\* builtin hints, and the custom hints that the driver registers:
\*   vp.lin : out[i] = i + sum_j j * a[j]
\*   vp.sq  : out[i] = a[1]^2 + i * a[Len]
\*   vp.bits: the lowest n bits of a[1] (gnark's, behind the Go packages)
\*   vp.alias, vp.dump: digits that a dishonest prover may give instead
\*   vp.fail: error if a[1] = 1, otherwise out[i] = a[1]
\* the n bits of x + p, if they are enough
AliasBits(p, x, n) ==
    LET a == IBits(p, x, n)
        b == IBits(p, p, n)
        B(v) == IF v = FOne(p) THEN 1 ELSE 0
        r == FoldLeft(LAMBDA s, j : LET t == B(a[j]) + B(b[j]) + s.c
                                    IN [c |-> t \div 2, v |-> Append(s.v, B2F(p, t % 2 = 1))],
                      [c |-> 0, v |-> <<>>], Idx(a))
    IN IF IFits(p, p, n) /\ r.c = 0 THEN r.v ELSE a
Hint(p, h, a, n) ==
    CASE h = "Identity" -> OkVal([j \in 1..n |-> a[j]])
      [] h \in BinOps -> OkVal(<<HintBinOp(p, h, a[1], a[2])>>)
      [] h = "Select" -> OkVal(<<IF a[1] # FZero(p) THEN a[2] ELSE a[3]>>)
      [] h = "ToBinary" ->
            IF IFits(p, a[1], n) THEN OkVal(IBits(p, a[1], n))
            ELSE [st |-> "rej", v |-> [j \in 1..n |-> FZero(p)]]
      [] h = "vp.lin" ->
            LET s == SumSeq(p, [j \in 1..Len(a) |-> FMul(p, FInt(p, j), a[j])])
            IN OkVal([i \in 1..n |-> FAdd(p, FInt(p, i), s)])
      [] h = "vp.sq" ->
            OkVal([i \in 1..n |-> FAdd(p, FMul(p, a[1], a[1]), FMul(p, FInt(p, i), a[Len(a)]))])
      [] h = "vp.bits" -> OkVal(IBits(p, a[1], n))
      [] h = "vp.alias" -> OkVal(AliasBits(p, a[1], n))
      [] h = "vp.dump" -> OkVal([j \in 1..n |-> IF j = 1 THEN a[1] ELSE FZero(p)])
      [] h = "vp.fail" ->
            IF a[1] = FOne(p) THEN [st |-> "rej", v |-> [j \in 1..n |-> FZero(p)]]
            ELSE OkVal([j \in 1..n |-> a[1]])

\* --- coefficients --------------------------------------------------------------
\* ctx = [p, pub, seed]: field, public inputs, seed of the random coefficients
Coef(ctx, c, path) ==
    CASE c[1] = "c" -> c[2]
      [] c[1] = "p" -> ctx.pub[c[2]]
      [] c[1] = "r" -> FRand(ctx.p, Mix(path, <<ctx.seed>>))

Term(ctx, t, v, path) ==
    LET p == ctx.p IN
    CASE t.k = "c" -> t.c
      [] t.k = "l" -> FMul(p, t.c, v[t.v[1]])
      [] t.k = "q" -> FMul(p, t.c, FMul(p, v[t.v[1]], v[t.v[2]]))
      [] t.k = "r" -> FMul(p, v[t.v[1]], FRand(p, Mix(path, <<ctx.seed>>)))
      [] t.k = "u" -> FMul(p, t.c, Hint(p, t.g, At(v, t.v), 1).v[1])

NumOut(s) == IF s.o \in {"hint", "call", "tobin"} THEN s.n ELSE 1

RECURSIVE EvalC(_, _, _, _, _)
\* one instruction on the variable values v
Insn(ctx, rc, s, v, path) ==
    LET p == ctx.p
        R(st, vals) == [st |-> st, v |-> vals, con |-> TRUE, dz |-> FALSE]
        Ok(x) == R("ok", <<x>>)
    IN
    CASE s.o = "lin" ->
            Ok(FoldLeft(LAMBDA a, t : FAdd(p, a, FMul(p, t[1], v[t[2]])), s.c, s.t))
      [] s.o = "mul" -> Ok(ProdSeq(p, At(v, s.v)))
      [] s.o = "div" ->
            LET x == v[s.x]
                y == v[s.y]
            IN IF y = FZero(p)
               THEN [R(IF x = FZero(p) /\ ~s.k THEN "ok" ELSE "rej", <<FZero(p)>>) EXCEPT !.dz = TRUE]
               ELSE Ok(FMul(p, x, FInv(p, y)))
      [] s.o = "bool" ->
            LET x == v[s.x]
                y == v[s.y]
                xy == FMul(p, x, y)
                sum == FAdd(p, x, y)
            IN IF ~(FIsBool(p, x) /\ FIsBool(p, y)) THEN R("rej", <<FZero(p)>>)
               ELSE Ok(CASE s.b = "and" -> xy
                         [] s.b = "or" -> FSub(p, sum, xy)
                         [] s.b = "xor" -> FSub(p, sum, FAdd(p, xy, xy)))
      [] s.o = "isz" -> Ok(B2F(p, v[s.x] = FZero(p)))
      [] s.o = "hint" -> LET h == Hint(p, s.h, At(v, s.v), s.n) IN R(h.st, h.v)
      [] s.o = "const" -> Ok(Coef(ctx, s.f, path))
      [] s.o = "call" ->
            LET r == EvalC(ctx, rc, s.s, At(v, s.v), path)
            IN [st |-> r.st, v |-> r.out, con |-> r.con, dz |-> r.dz]
      [] s.o = "ubin" -> Ok(HintBinOp(p, s.b, v[s.x], v[s.y]))
      [] s.o = "usel" -> Ok(IF v[s.v[1]] = FZero(p) THEN v[s.v[3]] ELSE v[s.v[2]])
      [] s.o = "tobin" ->
            IF IFits(p, v[s.x], s.n) THEN R("ok", IBits(p, v[s.x], s.n))
            ELSE R("rej", [j \in 1..s.n |-> FZero(p)])
      [] s.o = "cust" -> LET h == Hint(p, s.g, At(v, s.v), 1) IN R(h.st, h.v)
      [] s.o = "expr" ->
            Ok(FoldLeft(LAMBDA a, j : FAdd(p, a, Term(ctx, s.t[j], v, Mix(path, <<j>>))),
                        FZero(p), Idx(s.t)))

Holds(p, kind, x) ==
    CASE kind = "z" -> x = FZero(p)
      [] kind = "nz" -> x # FZero(p)
      [] kind = "b" -> FIsBool(p, x)

\* Passes may drop an instruction whose results nothing needs.  A failing instruction      
\* therefore demands rejection only if a result of it is constrained in its own circuit, or
\* is an output of the root; otherwise the run is undefined.
Needed(c, ci, lo, hi) ==
    \/ \E j \in 1..Len(c.k) : c.k[j][2] \in lo..hi
    \/ ci = 1 /\ \E j \in 1..Len(c.z) : c.z[j] \in lo..hi

EvalC(ctx, rc, ci, xs, path) ==
    LET c == rc.c[ci]
        Step(a, j) ==
            IF a.st # "ok" THEN a
            ELSE LET s == c.i[j]
                     r == Insn(ctx, rc, s, a.v, Mix(path, <<j>>))
                     n == Len(a.v)
                     st == IF r.st = "rej" /\ s.o # "call" /\ ~Needed(c, ci, n + 1, n + NumOut(s))
                           THEN "undef" ELSE r.st
                 IN [st |-> st, v |-> a.v \o r.v, con |-> a.con /\ r.con, dz |-> a.dz \/ r.dz]
        f == FoldLeft(Step, [st |-> "ok", v |-> xs, con |-> TRUE, dz |-> FALSE], Idx(c.i))
    IN IF f.st # "ok"
       THEN [st |-> f.st, con |-> FALSE, dz |-> f.dz, out |-> [j \in 1..Len(c.z) |-> FZero(ctx.p)]]
       ELSE [st |-> "ok", dz |-> f.dz,
             con |-> f.con /\ \A j \in 1..Len(c.k) : Holds(ctx.p, c.k[j][1], f.v[c.k[j][2]]),
             out |-> At(f.v, c.z)]

\* a whole program: the first nz outputs must be zero and are not outputs
EvalIr(ctx, rc, xs) ==
    LET r == EvalC(ctx, rc, 1, xs, 1)
    IN [st |-> r.st, dz |-> r.dz,
        ok |-> r.con /\ \A j \in 1..rc.nz : r.st = "ok" => r.out[j] = FZero(ctx.p),
        out |-> SubSeq(r.out, rc.nz + 1, Len(r.out))]
\* all outputs, ignoring nz (what the witness solver's program returns)
EvalIrOuts(ctx, rc, xs) == EvalC(ctx, rc, 1, xs, 1)

\* --- well-formedness -------------------------------------------------------------
InsnVars(s) ==
    CASE s.o = "lin" -> {s.t[j][2] : j \in 1..Len(s.t)}
      [] s.o \in {"mul", "hint", "call", "usel", "cust", "commit"} -> {s.v[j] : j \in 1..Len(s.v)}
      [] s.o \in {"div", "bool", "ubin"} -> {s.x, s.y}
      [] s.o \in {"isz", "tobin"} -> {s.x}
      [] s.o = "const" -> {}
      [] s.o = "expr" -> UNION {{s.t[j].v[m] : m \in 1..Len(s.t[j].v)} : j \in 1..Len(s.t)}

BuiltinArity(h, ni, no) ==
    CASE h = "Identity" -> ni = no /\ ni > 0
      [] h \in BinOps -> ni = 2 /\ no = 1
      [] h = "Select" -> ni = 3 /\ no = 1
      [] h = "ToBinary" -> ni = 1 /\ no > 0
      [] OTHER -> ni > 0 /\ no > 0

CoefOk(npub, c) == c[1] = "p" => c[2] \in 1..npub
\* operands legal for their instruction
InsnLegal(rc, s) ==
    CASE s.o = "mul" -> Len(s.v) >= 2
      [] s.o = "hint" -> Len(s.v) >= 1 /\ BuiltinArity(s.h, Len(s.v), s.n)
      [] s.o = "const" -> CoefOk(rc.npub, s.f)
      [] s.o = "cust" -> Len(s.v) >= 1
      [] s.o = "tobin" -> s.n > 0
      [] OTHER -> TRUE

NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

\* calls name the position of the callee in rc.c, 0 for a circuit that does not exist
Callees(rc) == [ci \in 1..Len(rc.c) |->
                   {rc.c[ci].i[j].s : j \in {m \in 1..Len(rc.c[ci].i) : rc.c[ci].i[m].o = "call"}}]
RECURSIVE Reach(_, _, _)
\* circuits reachable from the set S in at most n calls
Reach(callees, S, n) ==
    IF n = 0 THEN S ELSE Reach(callees, S \cup UNION {callees[c] : c \in S}, n - 1)


\* variable references of circuit c are in range (strict: expression form that forbids
\* duplicate call inputs and duplicate outputs)
VarsOk(rc, c, strict) ==
    LET Step(a, j) ==
            LET s == c.i[j]
            IN [max |-> a.max + NumOut(s),
                ok |-> /\ a.ok
                       /\ \A x \in InsnVars(s) : x \in 1..a.max
                       /\ InsnLegal(rc, s)
                       /\ (strict /\ s.o = "call") => NoDup(s.v)]
        f == FoldLeft(Step, [max |-> c.n, ok |-> TRUE], Idx(c.i))
    IN /\ f.ok
       /\ \A j \in 1..Len(c.k) : c.k[j][2] \in 1..f.max
       /\ \A j \in 1..Len(c.z) : c.z[j] \in 1..f.max
       /\ strict => NoDup(c.z)

WfProgram(rc, strict) ==
    LET callees == Callees(rc)
        n == Len(rc.c)
    IN /\ \A ci \in 1..n : VarsOk(rc, rc.c[ci], strict)
       /\ \A ci \in 1..n : \A j \in 1..Len(rc.c[ci].i) :
            LET s == rc.c[ci].i[j] IN
            s.o = "call" =>
                /\ s.s \in 1..n
                /\ Len(s.v) = rc.c[s.s].n
                /\ s.n = Len(rc.c[s.s].z)
       /\ \A ci \in 1..n : ci \notin Reach(callees, callees[ci], n)
       /\ \/ Len(rc.c[1].z) > 0
          \/ \E ci \in Reach(callees, {1}, n) : Len(rc.c[ci].k) > 0
       /\ rc.nz <= Len(rc.c[1].z)
=============================================================================
