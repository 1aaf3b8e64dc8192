------------------------------- MODULE Layered -------------------------------
(* Meaning and well-formedness of layered circuits.                          *)
(* lc = [npub, nact, nz, s, l]: segments s, and l the segment of each layer. *)
(* segment = [ni, no, ch, m, a, k, u]: input sizes (one per input layer,     *)
(* nearest first), output size, child placements <<seg, <<ins, out>>...>>,   *)
(* multiplication, addition, constant and custom gates.  Segment numbers are *)
(* 1-based; offsets 0-based; an input is <<layers back, offset>>.            *)
EXTENDS Ir

RECURSIVE ApplySeg(_, _, _, _, _, _, _, _)
\* cur: sequence of input vectors, nearest layer first; ino: the offset of this
\* segment in each; oo: its offset in the output vector nxt
ApplySeg(ctx, lc, si, cur, ino, oo, nxt, path) ==
    LET p == ctx.p
        g == lc.s[si]
        Val(i) == cur[i[1] + 1][ino[i[1] + 1] + i[2] + 1]
        Put(n, o, x) == [n EXCEPT ![oo + o + 1] = FAdd(p, @, x)]
        n1 == FoldLeft(LAMBDA n, j : Put(n, g.m[j][3], FMul(p, FMul(p, Val(g.m[j][1]), Val(g.m[j][2])),
                                                    Coef(ctx, g.m[j][4], Mix(path, <<j, 1>>)))), nxt, Idx(g.m))
        n2 == FoldLeft(LAMBDA n, j : Put(n, g.a[j][2], FMul(p, Val(g.a[j][1]),
                                                    Coef(ctx, g.a[j][3], Mix(path, <<j, 2>>)))), n1, Idx(g.a))
        n3 == FoldLeft(LAMBDA n, j : Put(n, g.k[j][1], Coef(ctx, g.k[j][2], Mix(path, <<j, 3>>))), n2, Idx(g.k))
        n4 == FoldLeft(LAMBDA n, j : Put(n, g.u[j][3],
                           FMul(p, Hint(p, g.u[j][1], [m \in 1..Len(g.u[j][2]) |-> Val(g.u[j][2][m])], 1).v[1],
                                Coef(ctx, g.u[j][4], Mix(path, <<j, 4>>)))), n3, Idx(g.u))
        Child(n, j) ==
            LET ch == g.ch[j]
                One(n_, m) ==
                    LET al == ch[2][m]
                    IN ApplySeg(ctx, lc, ch[1], cur,
                                [l \in 1..Len(al[1]) |-> ino[l] + al[1][l]], oo + al[2], n_,
                                Mix(path, <<j, m, 5>>))
            IN FoldLeft(One, n, Idx(ch[2]))
    IN FoldLeft(Child, n4, Idx(g.ch))

\* the values on all layers, newest first
RunLayers(ctx, lc, xs) ==
    FoldLeft(LAMBDA ls, i :
                LET g == lc.s[lc.l[i]]
                    out == ApplySeg(ctx, lc, lc.l[i], ls, [l \in 1..Len(g.ni) |-> 0], 0,
                                    [j \in 1..g.no |-> FZero(ctx.p)], Mix(77, <<i>>))
                IN <<out>> \o ls,
             <<xs>>, Idx(lc.l))

EvalLayered(ctx, lc, xs) ==
    LET out == RunLayers(ctx, lc, xs)[1]
    IN [st |-> "ok",
        ok |-> \A j \in 1..lc.nz : out[j] = FZero(ctx.p),
        out |-> SubSeq(out, lc.nz + 1, lc.nact)]

InputSize(lc) == lc.s[lc.l[1]].ni[1]

\* --- well-formedness -------------------------------------------------------------
RECURSIVE IsPow2(_)
IsPow2(x) == x = 1 \/ (x > 1 /\ x % 2 = 0 /\ IsPow2(x \div 2))

InRange(lc, g, i) ==                      \* input reference i = <<layers back, offset>>
    /\ i[1] + 1 \in 1..Len(g.ni)
    /\ i[2] < g.ni[i[1] + 1]
SegOk(lc, si) ==
    LET g == lc.s[si] IN
    /\ Len(g.ni) >= 1 /\ \A j \in 1..Len(g.ni) : IsPow2(g.ni[j])
    /\ IsPow2(g.no)
    /\ \A j \in 1..Len(g.m) : InRange(lc, g, g.m[j][1]) /\ InRange(lc, g, g.m[j][2]) /\ g.m[j][3] < g.no
    /\ \A j \in 1..Len(g.a) : InRange(lc, g, g.a[j][1]) /\ g.a[j][2] < g.no
    /\ \A j \in 1..Len(g.k) : g.k[j][1] < g.no
    /\ \A j \in 1..Len(g.u) : (\A m \in 1..Len(g.u[j][2]) : InRange(lc, g, g.u[j][2][m])) /\ g.u[j][3] < g.no
    \* children come earlier in the list, so nesting has no cycle
    /\ \A j \in 1..Len(g.ch) :
        LET ch == g.ch[j] IN
        /\ ch[1] \in 1..(si - 1)
        /\ LET sub == lc.s[ch[1]] IN
           /\ Len(sub.ni) <= Len(g.ni)
           /\ \A m \in 1..Len(ch[2]) :
                LET al == ch[2][m] IN
                /\ Len(al[1]) = Len(sub.ni)
                /\ \A l \in 1..Len(al[1]) : al[1][l] % sub.ni[l] = 0 /\ al[1][l] + sub.ni[l] <= g.ni[l]
                /\ al[2] % sub.no = 0 /\ al[2] + sub.no <= g.no

\* offsets (0-based) of input layer l that segment si reads / of its output that it writes
RECURSIVE Reads(_, _, _)
Reads(lc, si, l) ==
    LET g == lc.s[si] IN
    {g.m[j][1][2] : j \in {x \in 1..Len(g.m) : g.m[x][1][1] = l}}
    \cup {g.m[j][2][2] : j \in {x \in 1..Len(g.m) : g.m[x][2][1] = l}}
    \cup {g.a[j][1][2] : j \in {x \in 1..Len(g.a) : g.a[x][1][1] = l}}
    \cup UNION {{g.u[j][2][m][2] : m \in {x \in 1..Len(g.u[j][2]) : g.u[j][2][x][1] = l}} : j \in 1..Len(g.u)}
    \cup UNION {IF l + 1 > Len(lc.s[g.ch[j][1]].ni) THEN {}
                ELSE LET rs == Reads(lc, g.ch[j][1], l) IN
                     UNION {{r + g.ch[j][2][m][1][l + 1] : r \in rs} : m \in 1..Len(g.ch[j][2])}
                : j \in 1..Len(g.ch)}
RECURSIVE Writes(_, _)
Writes(lc, si) ==
    LET g == lc.s[si] IN
    {g.m[j][3] : j \in 1..Len(g.m)} \cup {g.a[j][2] : j \in 1..Len(g.a)}
    \cup {g.k[j][1] : j \in 1..Len(g.k)} \cup {g.u[j][3] : j \in 1..Len(g.u)}
    \cup UNION {LET ws == Writes(lc, g.ch[j][1]) IN
                UNION {{w + g.ch[j][2][m][2] : w \in ws} : m \in 1..Len(g.ch[j][2])} : j \in 1..Len(g.ch)}

\* sizes[i]: size of the vector that layer i reads from the layer just before it
LayersOk(lc) ==
    /\ Len(lc.l) >= 1
    /\ \A i \in 1..Len(lc.l) : lc.l[i] \in 1..Len(lc.s)
    /\ LET sizes == <<lc.s[lc.l[1]].ni[1]>> \o [i \in 1..Len(lc.l) |-> lc.s[lc.l[i]].no]
       IN \A i \in 1..Len(lc.l) :
            LET g == lc.s[lc.l[i]] IN
            /\ Len(g.ni) <= i
            /\ \A j \in 1..Len(g.ni) : g.ni[j] = sizes[i - j + 1]
\* nothing reads a position that the layer it comes from never writes
InitOk(lc) ==
    \A i \in 2..Len(lc.l) : \A j \in 0..(Len(lc.s[lc.l[i]].ni) - 1) :
        (i - 1 # j) => Reads(lc, lc.l[i], j) \subseteq Writes(lc, lc.l[i - 1 - j])

WfLayered(lc) ==
    /\ \A si \in 1..Len(lc.s) : SegOk(lc, si)
    /\ LayersOk(lc)
    /\ InitOk(lc)
CoefsOk(lc) ==
    \A si \in 1..Len(lc.s) :
        /\ \A j \in 1..Len(lc.s[si].m) : CoefOk(lc.npub, lc.s[si].m[j][4])
        /\ \A j \in 1..Len(lc.s[si].a) : CoefOk(lc.npub, lc.s[si].a[j][3])
        /\ \A j \in 1..Len(lc.s[si].k) : CoefOk(lc.npub, lc.s[si].k[j][2])
        /\ \A j \in 1..Len(lc.s[si].u) : CoefOk(lc.npub, lc.s[si].u[j][4])
OutputsOk(lc) ==
    lc.nz <= lc.nact /\ lc.nact <= lc.s[lc.l[Len(lc.l)]].no
=============================================================================
