------------------------------- MODULE Load --------------------------------
(* Circuits given as text, one gate per line (F06).  A line defines the next *)
(* value, which is a sequence of field elements, or stores one as an output. *)
(* A text with an unknown gate, a value that is not there, a sequence where  *)
(* one element is wanted, or values out of turn is refused.                  *)
EXTENDS StdBase

TwoTo30 == "1073741824"
FromBin(p, s) == FoldRight(LAMBDA b, acc : FAdd(p, b, FAdd(p, acc, acc)), s, FZero(p))
Gate(p, o, a, b) ==
    LET ab == FMul(p, a, b)
    IN CASE o = "and" -> ab
         [] o = "or" -> FSub(p, FAdd(p, a, b), ab)
         [] o = "xor" -> FSub(p, FAdd(p, a, b), FAdd(p, ab, ab))
         [] o = "mul" -> ab
\* numbers of sixty bits in two limbs; carries out of the second are dropped
Wide60(p, a, b) ==
    LET s == ZAdd(ZAdd(Z(a[1]), ZMul(Z(a[2]), TwoTo30)), ZAdd(Z(b[1]), ZMul(Z(b[2]), TwoTo30)))
    IN <<FInt(p, ZMod(s, TwoTo30)), FInt(p, ZMod(ZDiv(s, TwoTo30), TwoTo30))>>
Filled(s, n, e) == [j \in 1..(IF Len(s) > n THEN Len(s) ELSE n) |-> IF j <= Len(s) THEN s[j] ELSE e]
\* the start of input i
From(ks, i) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, ks, 1..i)

Line(L, x, st, o) ==
    LET p == L.p
        There(a) == a.k = "c" \/ a.n < Len(st.s)
        Sym(a) == IF a.k = "c" THEN <<FInt(p, a.c)>> ELSE st.s[a.n + 1]
        Fail == [st EXCEPT !.ok = FALSE]
        Def(w) == IF o.l = Len(st.s) THEN [st EXCEPT !.s = Append(@, w)] ELSE Fail
        n == Len(o.a)
        w == [j \in 1..n |-> Sym(o.a[j])]
        one == \A j \in 1..n : Len(w[j]) = 1
        v == [j \in 1..n |-> w[j][1]]
    IN IF ~st.ok \/ o.o \in {"num_args", "input", "output"} THEN st
       ELSE IF ~\A j \in 1..n : There(o.a[j]) THEN Fail
       ELSE CASE o.o = "decompose" /\ n = 0 -> Def(IBits(p, x[From(L.k, o.i) + o.j + 1], o.n))
              [] o.o = "decompose" /\ n = 1 -> IF one THEN Def(IBits(p, v[1], 30)) ELSE Fail
              [] o.o \in {"extractbit", "zk.m31.extract"} -> IF o.i < Len(w[1]) THEN Def(<<w[1][o.i + 1]>>) ELSE Fail
              [] o.o \in {"xor", "and", "or", "mul"} ->
                     IF one /\ (o.o = "mul" \/ (FIsBool(p, v[1]) /\ FIsBool(p, v[2]))) THEN Def(<<Gate(p, o.o, v[1], v[2])>>) ELSE Fail
              [] o.o = "compose" -> IF one THEN Def(<<FromBin(p, v)>>) ELSE Fail
              [] o.o = "zk.m31.compose" ->
                     IF one THEN Def(<<FromBin(p, SubSeq(v, 1, IF n < 30 THEN n ELSE 30)), FromBin(p, SubSeq(v, 31, n))>>) ELSE Fail
              [] o.o = "zk.m31.add" -> IF Len(w[1]) = 2 /\ Len(w[2]) = 2 THEN Def(Wide60(p, w[1], w[2])) ELSE Fail
              [] o.o = "store" ->
                     LET g == Filled(st.o, o.i + 1, <<>>)
                         h == Filled(g[o.i + 1], o.j + 1, <<>>)
                     IN [st EXCEPT !.o = [g EXCEPT ![o.i + 1] = [h EXCEPT ![o.j + 1] = w[1]]]]
              [] OTHER -> Fail
LExpect(L, x) ==
    LET p == L.p
        end == TLCEval(FoldLeft(LAMBDA st, o : TLCEval(Line(L, x, st, o)), [ok |-> TRUE, s |-> <<>>, o |-> <<>>], L.ops))
        Num(n) == <<FInt(p, n)>>
        Flat1(g) == Num(Len(g)) \o FlattenSeq([j \in 1..Len(g) |-> Num(Len(g[j])) \o g[j]])
    IN IF end.ok THEN Ok(Num(Len(end.o)) \o FlattenSeq([i \in 1..Len(end.o) |-> Flat1(end.o[i])])) ELSE Rej
LHolds(L, x) == FALSE
=============================================================================
