------------------------------- MODULE GoBuild -------------------------------
(* Circuits written with the builder of the Go packages (L03).               *)
(*                                                                           *)
(* A body is a sequence of operations on a growing sequence of variables; a  *)
(* program is a main body and functions, called in place, through the simple *)
(* and through the general memoised call, or deferred.  The meaning below is *)
(* the mathematical one, whichever way a function is called.  A line of the  *)
(* trace is one program and the source circuit that the Go builder made of   *)
(* it, as the library reads it; its meaning is that of Ir.                   *)
EXTENDS Ir, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}

Nth(s, i) == s[(i % Len(s)) + 1]
Val(p, x, v, ks) ==
    CASE x[1] = "v" -> Nth(v, x[2])
      [] x[1] = "c" -> x[2]
      [] x[1] = "u" -> FInt(p, x[2])
      [] x[1] = "m" -> FNeg(p, FInt(p, x[2]))
      [] x[1] = "k" -> FInt(p, Nth(ks, x[2]))
Num(x, ks) == IF x[1] = "u" THEN x[2] ELSE Nth(ks, x[2])

\* dz: a division by zero, or an assertion that fails, which the builder refuses if it sees it
Res(st, v) == [st |-> st, v |-> v, dz |-> FALSE]
Ok(x) == Res("ok", <<x>>)
When(b, v) == Res(IF b THEN "ok" ELSE "rej", v)
Quot(p, x, y, checked) ==
    IF y # FZero(p) THEN Ok(FMul(p, x, FInv(p, y)))
    ELSE [When(~checked /\ x = FZero(p), <<FZero(p)>>) EXCEPT !.dz = TRUE]
Logic(p, op, x, y) ==
    LET xy == FMul(p, x, y)
        sum == FAdd(p, x, y)
    IN When(FIsBool(p, x) /\ FIsBool(p, y),
            <<CASE op = "and" -> xy
                [] op = "or" -> FSub(p, sum, xy)
                [] op = "xor" -> FSub(p, sum, FAdd(p, xy, xy))>>)
RECURSIVE FromBits(_, _)
FromBits(p, s) == IF s = <<>> THEN FZero(p)
                  ELSE LET t == FromBits(p, Tail(s)) IN FAdd(p, s[1], FAdd(p, t, t))
\* bits that a field element takes
Width(p) == FBits(p) - (IF ToString(p) = "2" THEN 1 ELSE 0)

RECURSIVE Body(_, _, _, _, _)
Op(p, fns, o, v, ks) ==
    LET a == [j \in 1..Len(o.a) |-> Val(p, o.a[j], v, ks)]
        one(x) == FIsBool(p, x)
        set(x) == IF x = FZero(p) THEN 0 ELSE 1
    IN
    CASE o.o = "add" -> Ok(SumSeq(p, a))
      [] o.o = "sub" -> Ok(FSub(p, a[1], SumSeq(p, Tail(a))))
      [] o.o = "mul" -> Ok(ProdSeq(p, a))
      [] o.o = "mac" -> Ok(FAdd(p, a[1], FMul(p, a[2], a[3])))
      [] o.o = "neg" -> Ok(FNeg(p, a[1]))
      [] o.o = "div" -> Quot(p, a[1], a[2], TRUE)
      [] o.o = "divu" -> Quot(p, a[1], a[2], FALSE)
      [] o.o = "inv" -> Quot(p, FOne(p), a[1], TRUE)
      [] o.o \in {"and", "or", "xor"} -> Logic(p, o.o, a[1], a[2])
      [] o.o = "sel" -> When(one(a[1]), <<IF a[1] = FZero(p) THEN a[3] ELSE a[2]>>)
      [] o.o = "look" -> When(one(a[1]) /\ one(a[2]), <<a[3 + set(a[1]) + 2 * set(a[2])]>>)
      [] o.o = "isz" -> Ok(B2F(p, a[1] = FZero(p)))
      [] o.o = "cmp" -> Ok(IF a[1] = a[2] THEN FZero(p)
                           ELSE IF FLt(p, a[2], a[1]) THEN FOne(p) ELSE FNeg(p, FOne(p)))
      [] o.o = "tobin" ->
            LET n == IF o.n = 0 THEN Width(p) ELSE o.n
            IN IF IFits(p, a[1], n) THEN Res("ok", IBits(p, a[1], n))
               ELSE Res("rej", [j \in 1..n |-> FZero(p)])
      [] o.o = "frombin" -> When(\A j \in 1..Len(a) : one(a[j]), <<FromBits(p, a)>>)
      [] o.o \in {"cv", "first", "single"} -> Ok(a[1])
      [] o.o \in {"hint", "gate"} -> LET h == Hint(p, o.h, a, o.n) IN Res(h.st, h.v)
      [] o.o = "aeq" -> When(a[1] = a[2], <<>>)
      [] o.o = "ane" -> When(a[1] # a[2], <<>>)
      [] o.o = "ab" -> When(one(a[1]), <<>>)
      [] o.o = "crumb" -> When(\E n \in 0..3 : a[1] = FInt(p, n), <<>>)
      [] o.o = "le" -> When(FLe(p, a[1], a[2]), <<>>)
      [] o.o \in {"call", "defer"} ->
            LET c == [j \in 1..Len(o.k) |-> Num(o.k[j], ks)]
                r == Body(p, fns, fns[o.f], a, <<3>> \o c \o o.s)
            IN [st |-> r.st, dz |-> r.dz,
                v |-> IF o.o = "defer" \/ (o.m = "memo" /\ o.f = 4) THEN <<>>
                      ELSE IF o.m = "memo" /\ o.f \in {3, 7} THEN <<FAdd(p, r.v[Len(r.v)], r.v[1])>>
                      ELSE r.v]
Body(p, fns, b, v, ks) ==
    LET v0 == IF v = <<>> THEN <<FInt(p, 7)>> ELSE v
        Step(s, j) ==
            IF s.st # "ok" THEN s
            ELSE LET r == Op(p, fns, b[j], s.v, ks)
                 IN [st |-> r.st, v |-> s.v \o r.v, dz |-> s.dz \/ r.dz]
    IN FoldLeft(Step, [st |-> "ok", v |-> v0, dz |-> FALSE], Idx(b))
Mean(L, r) == TLCEval(Body(L.p, L.prog.fns, L.prog.main, r.x \o r.y, <<3>>))

Did(L, circ, r) == TLCEval(EvalIr([p |-> L.p, pub |-> r.y, seed |-> 0], circ, r.x))
\* the circuit with the hints of the builder itself replaced by dishonest ones
Forged(circ, bits) ==
    [circ EXCEPT !.c = [j \in 1..Len(@) |->
        [@[j] EXCEPT !.i = [m \in 1..Len(@) |->
            IF @[m].o # "hint" THEN @[m]
            ELSE IF @[m].h = "vp.bits" THEN [@[m] EXCEPT !.h = bits]
            ELSE IF @[m].h = "Identity" /\ bits = "vp.dump" THEN [@[m] EXCEPT !.h = "vp.lin"]
            ELSE @[m]]]]]
Own(circ) == \E j \in 1..Len(circ.c) : \E m \in 1..Len(circ.c[j].i) :
                circ.c[j].i[m].o = "hint" /\ circ.c[j].i[m].h \in {"vp.bits", "Identity"}
RunBad(L, r) ==
    LET m == Mean(L, r)
        c == Did(L, L.circ, r)
        lie(h) == LET d == Did(L, Forged(L.circ, h), r)
                  IN Bad(~(d.st = "ok" /\ d.ok) \/ (m.st = "ok" /\ d.out = m.v), "a dishonest hint gets through")
    IN (IF Own(L.circ) THEN lie("vp.alias") \cup lie("vp.dump") ELSE {}) \cup
       IF m.st = "ok"
       THEN Bad(c.st = "ok" /\ c.ok, "the circuit rejects") \cup Bad(c.st # "ok" \/ c.out = m.v, "other outputs")
       ELSE Bad(~(c.st = "ok" /\ c.ok), "the circuit accepts")
LineBad(L) ==
    IF L.said # "ok"
    THEN Bad(\A j \in 1..Len(L.runs) : LET m == Mean(L, L.runs[j]) IN m.st # "ok" \/ m.dz, "refuses a circuit that accepts an assignment")
    ELSE IF "none" \in DOMAIN L.circ THEN {"the library cannot read the circuit"}
    ELSE IF ~(L.cfg /\ L.circ.c[1].n = L.nx /\ L.circ.npub = L.ny /\ L.circ.nz = 0) THEN {"other inputs"}
    ELSE IF ~WfProgram(L.circ, FALSE) THEN {"malformed circuit"}
    ELSE Bad(L.valid, "the library finds it malformed")
         \cup UNION {RunBad(L, L.runs[j]) : j \in 1..Len(L.runs)}

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    /\ k = 0
    /\ k' = 1
    /\ bad' = LineBad(Lines[l])
    /\ Report(Lines[l], bad')
    /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, bad |-> bad]
=============================================================================
