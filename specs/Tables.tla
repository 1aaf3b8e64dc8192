------------------------------- MODULE Tables -------------------------------
(* Built-in hints, unconstrained operators, hint identifiers and registries. *)
EXTENDS Ir, Keccak, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}

\* the built-in hints, in the order of their identifiers
Names == <<"Identity", "Div", "Eq", "NotEq", "BoolOr", "BoolAnd", "BitOr", "BitAnd", "BitXor", "Select", "Pow",
           "IntDiv", "Mod", "ShiftL", "ShiftR", "LesserEq", "GreaterEq", "Lesser", "Greater", "ToBinary">>
NameAt(i) == IF i \in 0..(Len(Names) - 1) THEN Names[i + 1] ELSE ""

\* every operand pair of the line
OpBad(L) ==
    LET want(j) == <<HintBinOp(L.p, L.h, L.x[j], L.y[j])>>
        d == 1..Len(L.x)
    IN Bad(\A j \in d : L.e[j] = want(j), "operator " \o L.h)
       \cup Bad(\A j \in d : L.b[j] = want(j), "hint " \o L.h)

\* one hint call: without a definition ("err") the implementations may refuse in any way
HintBad(L) ==
    LET w == IF L.h = "ToBinary" /\ L.n = 0 THEN [st |-> IF IFits(L.p, L.a[1], 0) THEN "ok" ELSE "rej", v |-> <<>>]
             ELSE Hint(L.p, L.h, L.a, L.n)
        R(x) == IF w.st = "ok" THEN x = w.v ELSE Len(x) > 0 /\ x[1] \in {"err", "panic"}
    IN Bad(R(L.b), "hint " \o L.h) \cup Bad(R(L.s), "stub of " \o L.h)
       \cup (IF L.h = "ToBinary" THEN Bad(IF w.st = "ok" THEN L.t = w.v ELSE L.t = <<"err">>, "to_binary") ELSE {})

Legal(h, i, o) ==
    CASE h = "custom" -> i > 0 /\ o > 0
      [] h = "Identity" -> i = o /\ i > 0
      [] h = "Select" -> i = 3 /\ o = 1
      [] h = "ToBinary" -> i = 1 /\ o > 0
      [] h \in BinOps -> i = 2 /\ o = 1

\* a registry maps a key to what was registered first under it; registering again is refused
RegStep(L, m, o) ==
    LET has == o.key \in DOMAIN m IN
    CASE o.o = "reg" ->
            [m |-> IF has THEN m ELSE [q \in DOMAIN m \cup {o.key} |-> IF q = o.key THEN o.w ELSE m[q]],
             want |-> IF has THEN <<"panic">> ELSE <<"ok">>]
      [] o.o = "empty" -> [m |-> m, want |-> <<"err">>]
      [] o.o = "call" ->
            [m |-> m,
             want |-> IF ~has THEN <<"err">>
                      ELSE IF m[o.key] = 2 THEN [j \in 1..o.n |-> FAdd(L.p, o.a[((j - 1) % Len(o.a)) + 1], o.a[1])]
                      ELSE IF o.a[1] = FOne(L.p) THEN <<"err">>
                      ELSE [j \in 1..o.n |-> FAdd(L.p, o.a[1], FAdd(L.p, o.a[1], o.a[1]))]]
RegBad(L) ==
    LET Step(s, o) ==
            LET r == RegStep(L, s.m, o) IN [m |-> r.m, b |-> s.b \cup Bad(r.want = o.got, "registry: " \o o.o)]
    IN FoldLeft(Step, [m |-> <<>>, b |-> {}], L.ops).b

LineBad(L) ==
    CASE L.kind = "op" -> OpBad(L)
      [] L.kind = "hint" -> HintBad(L)
      [] L.kind = "ids" -> Bad(\A j \in 1..Len(L.got) : L.got[j] = NameAt(L.from + j - 1), "identifier of a built-in hint")
      [] L.kind = "far" -> Bad(\A j \in 1..Len(L.got) : L.got[j] = "", "a foreign identifier names a built-in hint")
      [] L.kind = "arity" ->
            Bad(\A i \in 1..Len(L.ns) : \A j \in 1..Len(L.ns) : L.got[i][j] = Legal(L.h, L.ns[i], L.ns[j]), "arity of " \o L.h)
      [] L.kind = "random" -> Bad(L.h # "" /\ Legal(L.h, L.i, L.o), "random built-in hint")
      [] L.kind = "key" -> Bad(L.got = Keccak(L.key, 64), "identifier of a key")
      [] L.kind = "registry" -> RegBad(L)

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    LET L == Lines[l]
    IN /\ k = 0
       /\ k' = 1
       /\ bad' = LineBad(L)
       /\ Report(L, bad')
       /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, bad |-> bad]
=============================================================================
