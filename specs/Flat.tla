-------------------------------- MODULE Flat --------------------------------
(* Declared circuit structures: a structure is a sequence of fields with     *)
(* types <<"v">> (Variable), <<"p">> (PublicVariable), <<"a", n, type>>,     *)
(* <<"l", type>> (vector) and <<"o">> (anything else), and values as trees.  *)
EXTENDS Fld, SequencesExt, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Bad(b, m) == IF b THEN {} ELSE {m}
Idx(s) == [j \in 1..Len(s) |-> j]
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* the scalars of kind c ("v", "p") in a value of type t, in order
RECURSIVE Of(_, _, _)
Of(cs, t, v) ==
    CASE t[1] \in {"v", "p"} -> IF t[1] \in cs THEN <<v>> ELSE <<>>
      [] t[1] = "o" -> <<>>
      [] t[1] = "a" -> Cat([j \in 1..Len(v) |-> Of(cs, t[3], v[j])])
      [] t[1] = "l" -> Cat([j \in 1..Len(v) |-> Of(cs, t[2], v[j])])
All(cs, ts, vs) == Cat([j \in 1..Len(ts) |-> Of(cs, ts[j], vs[j])])
\* the value without its scalars
RECURSIVE Shape(_, _)
Shape(t, v) ==
    CASE t[1] \in {"v", "p"} -> <<>>
      [] t[1] = "o" -> v
      [] t[1] = "a" -> [j \in 1..Len(v) |-> Shape(t[3], v[j])]
      [] t[1] = "l" -> [j \in 1..Len(v) |-> Shape(t[2], v[j])]
\* the default value: nothing in vectors, zero scalars
RECURSIVE IsDflt(_, _)
IsDflt(t, v) ==
    CASE t[1] \in {"v", "p"} -> v = 0
      [] t[1] = "o" -> TRUE
      [] t[1] = "a" -> Len(v) = t[2] /\ \A j \in 1..Len(v) : IsDflt(t[3], v[j])
      [] t[1] = "l" -> v = <<>>

FlatBad(L) ==
    LET ts == L.ty
        sec == All({"v"}, ts, L.before)
        pub == All({"p"}, ts, L.before)
        n == Len(sec)
        m == Len(pub)
    IN Bad(\A j \in 1..Len(ts) : IsDflt(ts[j], L.dflt[j]), "default value")
       \cup Bad(L.dfltn = <<Len(All({"v"}, ts, L.dflt)), Len(All({"p"}, ts, L.dflt))>>, "number of variables of the default")
       \cup Bad(L.num = <<n, m>>, "number of variables")
       \cup Bad(L.dump = <<7001, 7002>> \o sec, "inputs")
       \cup Bad(L.pub = <<7003>> \o pub, "public inputs")
       \cup Bad(L.left = <<Len(L.xs) - n, Len(L.ys) - m>>, "loading takes another number of values")
       \cup Bad(\A j \in 1..Len(ts) : Shape(ts[j], L.after[j]) = Shape(ts[j], L.before[j]), "loading changes the structure")
       \cup Bad(All({"v"}, ts, L.after) = SubSeq(L.xs, 1, n) /\ All({"p"}, ts, L.after) = SubSeq(L.ys, 1, m), "loaded values")
\* the circuit returns all its variables, field by field, and x1 * x1 * x2 * ... * xn
RunBad(L) ==
    LET f(s) == [j \in 1..Len(s) |-> FInt(97, s[j])]
        v == f(All({"v", "p"}, L.ty, L.before))
        want == Append(v, FoldLeft(LAMBDA a, b : FMul(97, a, b), v[1], v))
    IN Bad(L.out = <<<<TRUE>>, want>>, "compiled circuit")
       \cup Bad(L.vec = <<<<TRUE, TRUE, TRUE>>, <<want, want, want>>>>, "compiled circuit with three witnesses")
       \cup Bad(L.deb = want, "debug evaluation")
       \cup Bad(L.pubw = f(All({"p"}, L.ty, L.before)), "public inputs of the witness")
ArrayBad(L) ==
    LET n == Len(L.vals)
    IN Bad(L.dump = L.vals, "dump of an array")
       \cup Bad(L.num = <<n, n>>, "number of variables of an array")
       \cup Bad(L.left = Len(L.xs) - n /\ L.again = SubSeq(L.xs, 1, n), "loading an array")

LineBad(L) ==
    CASE L.kind = "flat" -> FlatBad(L) \cup (IF L.p = 97 THEN RunBad(L) ELSE {})
      [] L.kind = "array" -> ArrayBad(L)
      [] OTHER -> {"panics"}

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    LET L == Lines[l]
    IN /\ k = 0
       /\ k' = 1
       /\ bad' = LineBad(L)
       /\ Report(L, bad')
       /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, bad |-> bad]
=============================================================================
