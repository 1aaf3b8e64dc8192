--------------------------------- MODULE Cuda ---------------------------------
(* Kernels, device data and computation graphs.                              *)
(*                                                                           *)
(* Lines of kind "hist" are histories of one context: copying host data in   *)
(* and out, relabelling it, calling kernels, compiling (or loading) the      *)
(* computation graph, solving, exporting and proving.  The state of the      *)
(* specification is                                                          *)
(*   mems   the device memories: the values, and the boundaries at which the *)
(*          memory has to be cut (see "layout")                              *)
(*   hs     the handles: which memory, in which order its elements are seen, *)
(*          under which shape, and the relabellings that led there           *)
(*   calls  the kernel calls so far                                          *)
(*   ph     open, graph (compiled or loaded) or solved                       *)
(* A memory holds lanes: every element is a sequence of `pack' field values. *)
(*                                                                           *)
(* Lines of kind "kern" are single kernels compiled for one arrangement.     *)
EXTENDS Ir, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, mems, hs, calls, ph, g, off, bad
vars == <<l, k, mems, hs, calls, ph, g, off, bad>>
BadIf(b, m) == IF b THEN {m} ELSE {}
Bad(b, m) == BadIf(~b, m)

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE P2(_, _)
P2(n, q) == IF q >= n THEN q ELSE P2(n, 2 * q)
Pow2(n) == P2(n, 1)
RECURSIVE Log(_)
Log(n) == IF n <= 1 THEN 0 ELSE 1 + Log(n \div 2)
Pads(s) == [j \in 1..Len(s) |-> Pow2(s[j])]

\* --- kernels ---------------------------------------------------------------------
\* a run: the variables so far, do all assertions hold (s: in sub-functions), did a hint fail
RECURSIVE Run(_, _, _, _, _)
Run(p, funs, body, v, top) ==
    FoldLeft(LAMBDA r, o :
        LET x(j) == r.v[o.a[j]]
            Val(y) == [r EXCEPT !.v = Append(@, y)]
            Hold(b) == IF b THEN r ELSE [r EXCEPT !.h = FALSE, !.s = @ \/ ~top]
        IN CASE o.o = "const" -> Val(FInt(p, o.c))
             [] o.o = "add" -> Val(FAdd(p, x(1), x(2)))
             [] o.o = "sub" -> Val(FSub(p, x(1), x(2)))
             [] o.o = "mul" -> Val(FMul(p, x(1), x(2)))
             [] o.o = "iszero" -> Val(IF x(1) = FZero(p) THEN FOne(p) ELSE FZero(p))
             [] o.o = "inv" ->
                   IF x(1) = FZero(p) THEN [r EXCEPT !.v = Append(@, FZero(p)), !.h = FALSE, !.s = @ \/ ~top]
                   ELSE Val(FInv(p, x(1)))
             [] o.o = "hint" ->
                   LET q == Hint(p, o.h, [j \in 1..Len(o.a) |-> x(j)], o.n)
                   IN [r EXCEPT !.v = @ \o q.v, !.f = @ \/ q.st # "ok"]
             [] o.o = "z" -> Hold(x(1) = FZero(p))
             [] o.o = "nz" -> Hold(x(1) # FZero(p))
             [] o.o = "b" -> Hold(FIsBool(p, x(1)))
             [] o.o = "call" ->
                   LET f == funs[o.f]
                       q == Run(p, funs, f.body, [j \in 1..Len(o.a) |-> x(j)], FALSE)
                   IN [v |-> r.v \o [j \in 1..Len(f.out) |-> q.v[f.out[j]]],
                       h |-> r.h /\ q.h, s |-> r.s \/ q.s, f |-> r.f \/ q.f],
        [v |-> v, h |-> TRUE, s |-> FALSE, f |-> FALSE], body)
Size(q) == Prod(q.s)
Params(K) == 1..Len(K.par)
InParams(K) == SelectSeq([j \in Params(K) |-> j], LAMBDA j : K.par[j].in)
OutParams(K) == SelectSeq([j \in Params(K) |-> j], LAMBDA j : K.par[j].out)
\* the kernel function on one instance and lane: ins[q] are the elements of parameter q (ignored
\* unless the parameter is read); outs[q] those it writes
Apply(p, K, ins) ==
    LET v0 == FlattenSeq([q \in Params(K) |-> IF K.par[q].in THEN ins[q] ELSE [e \in 1..Size(K.par[q]) |-> FZero(p)]])
        r == Run(p, K.fun, K.body, v0, TRUE)
    IN [h |-> r.h, s |-> r.s, f |-> r.f,
        o |-> [q \in Params(K) |-> IF K.par[q].out THEN [e \in 1..Size(K.par[q]) |-> r.v[K.par[q].to[e]]] ELSE <<>>]]

\* --- host data -------------------------------------------------------------------
RECURSIVE TreeShape(_, _)
TreeShape(t, d) ==
    IF d = 0 THEN <<>>
    ELSE IF Len(t) = 0 THEN <<-1>>
    ELSE LET s == TreeShape(t[1], d - 1)
         IN IF s = <<-1>> \/ \E j \in 2..Len(t) : TreeShape(t[j], d - 1) # s THEN <<-1>>
            ELSE <<Len(t)>> \o s
RECURSIVE TreeFlat(_, _)
TreeFlat(t, d) == IF d = 0 THEN <<t>> ELSE FlattenSeq(TLCEval([j \in 1..Len(t) |-> TreeFlat(t[j], d - 1)]))
RECURSIVE Nest(_, _)
Nest(v, s) ==
    IF s = <<>> THEN v[1]
    ELSE LET n == Len(v) \div s[1] IN TLCEval([j \in 1..s[1] |-> Nest(TLCEval(SubSeq(v, (j - 1) * n + 1, j * n)), Tail(s))])

\* --- relabelling -----------------------------------------------------------------
\* position (from 1) in a row-major array of shape s that element e (from 0) of its transposition shows
RECURSIVE Digits(_, _)
Digits(e, s) == IF s = <<>> THEN <<>> ELSE Append(Digits(e \div s[Len(s)], SubSeq(s, 1, Len(s) - 1)), e % s[Len(s)])
Place(s, i) == FoldLeft(LAMBDA a, j : a * s[j] + i[j], 0, [j \in 1..Len(s) |-> j])
Moved(s, a) == [j \in 1..Len(a) |-> s[a[j]]]
Transposed(s, a) ==
    LET ns == TLCEval(Moved(s, a))
        back == TLCEval([q \in 1..Len(a) |-> CHOOSE j \in 1..Len(a) : a[j] = q])
    IN [e \in 1..Prod(s) |-> LET i == Digits(e - 1, ns) IN 1 + Place(s, [q \in 1..Len(s) |-> i[back[q]]])]
IsPerm(a, n) == Len(a) = n /\ {a[j] : j \in 1..Len(a)} = 1..n

\* --- layout ----------------------------------------------------------------------
\* A memory of n elements is cut into dimensions, each padded to a power of two. The cuts are given
\* by the products of the leading dimensions, its boundaries: a set with 1 and n in which of any two
\* numbers one divides the other.
IsChain(B) == \A x, y \in B : x % y = 0 \/ y % x = 0
\* the blocks that a relabelling moves as wholes, in the order in which they are seen: leading
\* product of the block where it comes from, and its size
Runs(e, keep) ==
    LET n == e.s
        A == SelectSeq(e.a, LAMBDA x : n[x] # 1)
        rank(x) == Cardinality({y \in 1..x : n[y] # 1})
        first == keep /\ n[e.a[1]] # 1
        Cut(j) == j = 1 \/ rank(A[j]) # rank(A[j - 1]) + 1 \/ (first /\ j = 2)
        start == SelectSeq([j \in 1..Len(A) |-> j], Cut)
        stop(q) == IF q < Len(start) THEN start[q + 1] - 1 ELSE Len(A)
    IN [q \in 1..Len(start) |-> [b |-> Prod(SubSeq(n, 1, A[start[q]] - 1)),
                                 z |-> Prod([j \in 1..(stop(q) - start[q] + 1) |-> n[A[start[q] + j - 1]]])]]
Leading(s) == {Prod(SubSeq(s, 1, j)) : j \in 0..Len(s)}
\* boundaries needed before a relabelling, for boundaries B after it; {} if impossible
Back(e, B) ==
    LET rs == Runs(e, FALSE)
        O == [j \in 0..Len(rs) |-> Prod([q \in 1..j |-> rs[q].z])]
        C == B \cup {O[j] : j \in 0..Len(rs)}
    IN IF B = {} \/ ~IsChain(C) THEN {}
       ELSE {1} \cup {LET j == CHOOSE j \in 1..Len(rs) : O[j - 1] < x /\ x <= O[j]
                      IN rs[j].b * (x \div O[j - 1]) : x \in C \ {1}}
\* boundaries that a memory must have for a handle to be usable; keep: split along its first dimension
Need(ent, keep) ==
    LET e == ent[Len(ent)]
        B == IF e.t THEN {1} \cup UNION {{x.b, x.b * x.z} : x \in {Runs(e, keep)[j] : j \in 1..Len(Runs(e, keep))}}
             ELSE {1, Prod(e.s)} \cup (IF keep /\ e.s # <<>> THEN {e.s[1]} ELSE {})
    IN FoldLeft(LAMBDA b, j : Back(ent[Len(ent) - j], b), B, [j \in 1..(Len(ent) - 1) |-> j])
\* dimensions [z, id] of a memory in the order in which a handle sees them
Move(ds, e) ==
    IF ~e.t THEN ds
    ELSE LET rs == Runs(e, FALSE)
             lead(j) == Prod([q \in 1..j |-> ds[q].z])
         IN FlattenSeq([q \in 1..Len(rs) |->
                LET in == SelectSeq([j \in 1..Len(ds) |-> j], LAMBDA j : lead(j) > rs[q].b /\ lead(j) <= rs[q].b * rs[q].z)
                IN [j \in 1..Len(in) |-> ds[in[j]]]])
Dims(B) == LET s == SetToSortSeq(B, <) IN [j \in 1..(Len(s) - 1) |-> s[j + 1] \div s[j]]
View(ent, D) == FoldLeft(Move, [j \in 1..Len(D) |-> [z |-> D[j], id |-> j]], ent)
Sizes(V) == [j \in 1..Len(V) |-> V[j].z]
\* leading dimensions that make up the n instances, and the others
RECURSIVE Until(_, _)
Until(V, n) == IF n = 1 THEN <<>> ELSE <<V[1]>> \o Until(Tail(V), n \div V[1].z)
Since(V, n) == SubSeq(V, Len(Until(V, n)) + 1, Len(V))
\* cuts at instances, of all that a call splits, must be the same: one round over all calls
Splits(c) == [j \in 1..Len(SelectSeq(c.h, LAMBDA x : ~x.bc)) |-> SelectSeq(c.h, LAMBDA x : ~x.bc)[j]]
Round(ms, cs) ==
    FoldLeft(LAMBDA r, c :
        LET sp == Splits(c)
            cut == {c.np, 1} \cup UNION {{x \in Leading(Sizes(View(sp[j].ent, Dims(ms[sp[j].m])))) : x <= c.np} : j \in 1..Len(sp)}
            One(b, j) ==
                FoldLeft(LAMBDA bb, x :
                    LET y == sp[j]
                        n == Prod(y.sh)
                        last == y.ent[Len(y.ent)]
                        e2 == [s |-> <<x, n \div x>>, t |-> FALSE, a |-> <<>>]
                        ent == IF last.t THEN Append(y.ent, e2) ELSE [y.ent EXCEPT ![Len(y.ent)] = e2]
                        nd == Need(ent, TRUE)
                        new == bb[y.m] \cup nd
                    IN IF nd = {} \/ bb[y.m] = {} \/ ~IsChain(new) THEN [bb EXCEPT ![y.m] = {}] ELSE [bb EXCEPT ![y.m] = new],
                    b, SetToSeq(cut \ {1, c.np}))
        IN IF \E m \in 1..Len(r) : r[m] = {} THEN r
           ELSE IF ~IsChain(cut) THEN [r EXCEPT ![1] = {}]
           ELSE FoldLeft(One, r, [j \in 1..Len(sp) |-> j]),
        ms, cs)
RECURSIVE Fix(_, _)
Fix(ms, cs) ==
    LET n == TLCEval(Round(ms, cs))
    IN IF \E m \in 1..Len(n) : n[m] = {} THEN <<>>
       ELSE IF n = ms THEN ms ELSE Fix(n, cs)
BitOrder(V, D) ==
    LET from(id) == FoldLeft(LAMBDA a, b : a + b, 0, [j \in 1..(Len(D) - id) |-> Log(Pow2(D[id + j]))])
    IN FlattenSeq([q \in 1..Len(V) |->
            LET x == V[Len(V) - q + 1] IN [b \in 1..Log(Pow2(x.z)) |-> from(x.id) + b - 1]])
\* the dimensions of the instances of a call
ParDims(c, B) ==
    LET sp == Splits(c)
    IN IF sp = <<>> THEN (IF c.np = 1 THEN <<>> ELSE <<c.np>>)
       ELSE Sizes(Until(View(sp[1].ent, Dims(B[sp[1].m])), c.np))
\* the elements of a memory, and of its padded form
RECURSIVE PadIx(_)
PadIx(D) ==
    IF D = <<>> THEN <<1>>
    ELSE LET in == TLCEval(PadIx(Tail(D)))
             n == Prod(Tail(D))
         IN FlattenSeq([i \in 1..Pow2(D[1]) |-> [j \in 1..Len(in) |-> in[j] + (Least(i, D[1]) - 1) * n]])
\* padded cells (from 0) in the order in which dimensions V of a memory with dimensions D see them
RECURSIVE CellsOf(_, _)
CellsOf(V, D) ==
    IF V = <<>> THEN <<0>>
    ELSE LET in == TLCEval(CellsOf(Tail(V), D))
             st == Prod(Pads(SubSeq(D, V[1].id + 1, Len(D))))
         IN FlattenSeq([i \in 1..Pow2(V[1].z) |-> [j \in 1..Len(in) |-> in[j] + (i - 1) * st]])
\* padded positions (from 0) of the elements of an array of shape s
RECURSIVE AtOf(_)
AtOf(s) ==
    IF s = <<>> THEN <<0>>
    ELSE LET in == TLCEval(AtOf(Tail(s)))
             st == Prod(Pads(Tail(s)))
         IN FlattenSeq([i \in 1..s[1] |-> [j \in 1..Len(in) |-> in[j] + (i - 1) * st]])

\* --- the graph -------------------------------------------------------------------
\* boundaries of all memories, or <<>> if no layout serves all calls
Bounds == Fix([m \in 1..Len(mems) |-> mems[m].lo], calls)
Hinted(G, j) == G.kin[G.tpl[j].k].hint
NumBefore(G, j) == Cardinality({q \in 1..(j - 1) : Hinted(G, q)})
PC(j, B) == Prod(Pads(ParDims(calls[j], B)))
ArgLen(h, c, D) == LET V == View(h.ent, D) IN Prod(Pads(Sizes(IF h.bc THEN V ELSE Since(V, c.np))))
\* does a graph fit calls and boundaries
TemplateBad(G, j, B) ==
    LET c == calls[j]
        t == G.tpl[j]
        n == Len(c.h)
        hint == Hinted(G, j)
        kin == G.kin[t.k]
        D(q) == Dims(B[c.h[q].m])
        hl == kin.in[Len(kin.in)][1] * PC(j, B)
    IN IF t.k \notin 1..Len(G.kin) THEN {"no such kernel"}
       ELSE BadIf(Len(t.ci) # n + (IF hint THEN 1 ELSE 0) \/ Len(t.bo) # Len(t.ci) \/ Len(t.bc) # Len(t.ci), "number of commitments of a call")
            \cup IF Len(t.ci) # n + (IF hint THEN 1 ELSE 0) \/ Len(t.bo) # Len(t.ci) \/ Len(t.bc) # Len(t.ci) THEN {}
            ELSE UNION {Bad(t.ci[q] = c.h[q].m, "a call commits to another memory")
                        \cup Bad(t.bc[q] = c.h[q].bc, "broadcast where it is not or the reverse")
                        \cup Bad(t.bo[q] = BitOrder(View(c.h[q].ent, D(q)), D(q)), "a call sees another order")
                        : q \in 1..n}
                 \cup Bad(t.pc = PC(j, B), "number of instances")
                 \cup IF ~hint THEN {}
                      ELSE Bad(t.ci[n + 1] = Len(mems) + NumBefore(G, j) + 1 /\ ~t.bc[n + 1]
                               /\ t.bo[n + 1] = [b \in 1..Log(hl) |-> b - 1], "memory of the hints of a call")
GraphBad(G, B) ==
    IF Len(G.tpl) # Len(calls) THEN {"number of calls"}
    ELSE IF \E j \in 1..Len(calls) : G.tpl[j].k \notin 1..Len(G.kin) THEN {"no such kernel"}
    ELSE LET hinted == SelectSeq([j \in 1..Len(calls) |-> j], LAMBDA j : Hinted(G, j))
             want == [m \in 1..Len(mems) |-> Prod(Pads(Dims(B[m])))]
                     \o [q \in 1..Len(hinted) |->
                          LET in == G.kin[G.tpl[hinted[q]].k].in IN in[Len(in)][1] * PC(hinted[q], B)]
         IN Bad(G.lens = want, "announced lengths") \cup UNION {TemplateBad(G, j, B) : j \in 1..Len(calls)}
\* regions of a kernel's inputs: as long as padded, aligned, disjoint, inside the circuit
RegionsBad(in, lens, size) ==
    BadIf(Len(in) < Len(lens) \/ \E q \in 1..Least(Len(in), Len(lens)) : in[q][1] # lens[q], "size of an input region")
    \cup BadIf(\E q \in 1..Len(in) : Pow2(in[q][1]) # in[q][1] \/ in[q][2] % in[q][1] # 0 \/ in[q][1] + in[q][2] > size, "place of an input region")
    \cup BadIf(\E q, r \in 1..Len(in) : q < r /\ in[q][2] < in[r][2] + in[r][1] /\ in[r][2] < in[q][2] + in[q][1], "input regions overlap")
KernelsBad(G, B) ==
    UNION {LET c == calls[j]
               kin == G.kin[G.tpl[j].k]
           IN RegionsBad(kin.in, [q \in 1..Len(c.h) |-> ArgLen(c.h[q], c, Dims(B[c.h[q].m]))], kin.size)
              \cup BadIf(Len(kin.in) # Len(c.h) + (IF kin.hint THEN 1 ELSE 0), "number of input regions")
           : j \in 1..Len(calls)}

\* --- what committed memories prove -----------------------------------------------
\* does call j accept the padded memories X[m] (sequences of lanes)
Accepts(L, j, B, X) ==
    LET c == calls[j]
        K == L.ker[c.k]
        pc == PC(j, B)
        \* elements of handle q for padded instance i (from 0)
        El(q) == LET h == c.h[q]
                     D == Dims(B[h.m])
                     V == View(h.ent, D)
                     cells == TLCEval(CellsOf(V, D))
                     at == TLCEval(AtOf(Sizes(IF h.bc THEN V ELSE Since(V, c.np))))
                     step == Len(cells) \div pc
                 IN [i \in 0..(pc - 1) |-> [e \in 1..Len(at) |-> X[h.m][cells[(IF h.bc THEN 0 ELSE i * step) + at[e] + 1] + 1]]]
        els == TLCEval([q \in 1..Len(c.h) |-> El(q)])
        ipos(q) == CHOOSE z \in 1..Len(c.h) : c.h[z].par = q /\ ~c.h[z].o
        opos(q) == CHOOSE z \in 1..Len(c.h) : c.h[z].par = q /\ c.h[z].o
    IN \A i \in 0..(pc - 1) : \A ln \in 1..L.pack :
        LET r == Apply(L.p, K, [q \in Params(K) |-> IF K.par[q].in THEN [e \in 1..Size(K.par[q]) |-> els[ipos(q)][i][e][ln]] ELSE <<>>])
        IN r.h /\ ~r.f /\ \A q \in Params(K) : K.par[q].out =>
                \A e \in 1..Size(K.par[q]) : els[opos(q)][i][e][ln] = r.o[q][e]

\* --- the operations --------------------------------------------------------------
None == [ok |-> FALSE]
Entry(s) == [s |-> s, t |-> FALSE, a |-> <<>>]
Memory(v) == [v |-> v, lo |-> {1, Len(v)}, hi |-> {1, Len(v)}]
Handle(m, ix, s, ent) == [ok |-> TRUE, m |-> m, ix |-> ix, sh |-> s, ent |-> ent]
Seen(h) == [j \in 1..Len(h.ix) |-> mems[h.m].v[h.ix[j]]]
\* new memory with a handle for everything
Stored(v, s) ==
    /\ mems' = Append(mems, Memory(v))
    /\ hs' = Append(hs, Handle(Len(mems) + 1, [j \in 1..Len(v) |-> j], s, <<Entry(s)>>))
Refuse(o, why) == BadIf(o.said = "ok", "accepted " \o why)
Accept(o, what) == Bad(o.said = "ok", what \o " refused")

Put(L, o) ==
    LET s == TreeShape(o.t, o.d)
        v == TLCEval(TreeFlat(o.t, o.d))
        legal == s # <<-1>> /\ (o.mode = "pack" => o.d > 0 /\ s[1] = L.pack)
        n == Len(v) \div L.pack
        lanes == CASE o.mode = "simd" -> v
                   [] o.mode = "plain" -> [j \in 1..Len(v) |-> [q \in 1..L.pack |-> v[j]]]
                   [] o.mode = "pack" -> [j \in 1..n |-> [q \in 1..L.pack |-> v[(q - 1) * n + j]]]
    IN IF ~legal THEN bad' = Refuse(o, "an irregular array") /\ hs' = Append(hs, None) /\ UNCHANGED mems
       ELSE bad' = Accept(o, "copying to the device") /\ Stored(lanes, IF o.mode = "pack" THEN Tail(s) ELSE s)
Flat(L, o) ==
    IF o.cols = 0 \/ Len(o.t) = 0 \/ Len(o.t) % Least(o.cols, 1000) # 0
    THEN bad' = Refuse(o, "a size that is no multiple") /\ hs' = Append(hs, None) /\ UNCHANGED mems
    ELSE bad' = Accept(o, "copying flat data") /\ Stored(o.t, <<Len(o.t) \div o.cols, o.cols>>)
Reshape(o) ==
    LET h == hs[o.h]
    IN /\ UNCHANGED mems
       /\ IF ~h.ok \/ Prod(o.s) # Len(h.ix) THEN bad' = Refuse(o, "a reshape to another size") /\ hs' = Append(hs, None)
          ELSE /\ bad' = Accept(o, "a reshape")
               /\ hs' = Append(hs, [h EXCEPT !.sh = o.s,
                     !.ent = IF @[Len(@)].t THEN Append(@, Entry(o.s)) ELSE [@ EXCEPT ![Len(@)] = Entry(o.s)]])
Transpose(o) ==
    LET h == hs[o.h]
    IN /\ UNCHANGED mems
       /\ IF ~h.ok THEN bad' = Refuse(o, "a transposition of nothing") /\ hs' = Append(hs, None)
          ELSE IF ~IsPerm(o.a, Len(h.sh)) THEN bad' = Refuse(o, "axes that are no permutation") /\ hs' = Append(hs, None)
          ELSE LET ord == TLCEval(Transposed(h.sh, o.a))
                   e == h.ent[Len(h.ent)]
                   a == IF e.t THEN Moved(e.a, o.a) ELSE o.a
               IN /\ bad' = Accept(o, "a transposition")
                  /\ hs' = Append(hs, [h EXCEPT !.sh = Moved(@, o.a), !.ix = [j \in 1..Len(@) |-> h.ix[ord[j]]],
                        !.ent = [@ EXCEPT ![Len(@)] = [s |-> e.s, t |-> TRUE, a |-> a]]])
Get(L, o) ==
    LET h == hs[o.h]
        n == Len(h.ix)
        v == TLCEval(Seen(h))
        flat == CASE o.mode = "simd" -> v
                  [] o.mode = "plain" -> [j \in 1..n |-> v[j][1]]
                  [] o.mode = "pack" -> [j \in 1..(n * L.pack) |-> v[((j - 1) % n) + 1][((j - 1) \div n) + 1]]
        s == IF o.mode = "pack" THEN <<L.pack>> \o h.sh ELSE h.sh
    IN /\ UNCHANGED <<mems, hs>>
       /\ bad' = IF ~h.ok THEN Refuse(o, "reading of nothing")
                 ELSE IF Len(s) # o.d THEN Refuse(o, "reading at another depth")
                 ELSE Accept(o, "copying to the host") \cup (IF o.said = "ok" THEN Bad(o.v = Nest(TLCEval(flat), s), "other data on the host") ELSE {})

Skip(L, o) == UNCHANGED <<mems, hs, calls, ph, g, off>> /\ bad' = {}
Call(L, o) ==
    LET K == L.ker[o.k]
        n == Len(o.args)
        push(x) == hs' = hs \o x
        none == push([q \in 1..n |-> None])
        fine == n = Len(K.par)
        Arg(q) == hs[o.args[q]]
        Given(q) == o.args[q] # 0 /\ Arg(q).ok
        Fits(q) == Given(q) /\ (Arg(q).sh = K.par[q].s \/ Arg(q).sh = <<o.np>> \o K.par[q].s)
        Bc(q) == Arg(q).sh = K.par[q].s
        matches == fine /\ \A q \in Params(K) : K.par[q].in => Fits(q) /\ ~(K.par[q].out /\ Bc(q))
        ins == InParams(K)
        \* boundaries with those that the arguments need
        Merge(b) == FoldLeft(LAMBDA r, q :
                        LET nd == Need(Arg(q).ent, ~Bc(q))
                            m == Arg(q).m
                        IN IF nd = {} \/ r[m] = {} \/ ~IsChain(nd \cup r[m]) THEN [r EXCEPT ![m] = {}] ELSE [r EXCEPT ![m] = @ \cup nd],
                        b, ins)
        lo == Merge([m \in 1..Len(mems) |-> mems[m].lo])
        hi == Merge([m \in 1..Len(mems) |-> mems[m].hi])
        legalLo == \A m \in 1..Len(mems) : lo[m] # {}
        legalHi == \A m \in 1..Len(mems) : hi[m] # {}
        \* what failed calls may have left behind
        tried == LET nd(q) == IF Given(q) /\ Fits(q) THEN Need(Arg(q).ent, ~Bc(q)) ELSE {}
                 IN [m \in 1..Len(mems) |-> mems[m].hi \cup
                        (IF fine THEN UNION {nd(q) : q \in {z \in Params(K) : K.par[z].in /\ Given(z) /\ Arg(z).m = m}} ELSE {})]
        Failed == /\ none
                  /\ mems' = [m \in 1..Len(mems) |-> [mems[m] EXCEPT !.hi = tried[m]]]
                  /\ UNCHANGED <<calls, ph, g, off>>
        R == TLCEval([i \in 1..o.np |-> TLCEval([ln \in 1..L.pack |->
                Apply(L.p, K, [q \in Params(K) |->
                    IF ~K.par[q].in THEN <<>>
                    ELSE [e \in 1..Size(K.par[q]) |->
                           mems[Arg(q).m].v[Arg(q).ix[(IF Bc(q) THEN 0 ELSE (i - 1) * Size(K.par[q])) + e]][ln]]])])])
        I == 1..o.np
        N == 1..L.pack
        outs == OutParams(K)
        fails == outs # <<>> /\ \E i \in I, ln \in N : R[i][ln].f
        early == outs # <<>> /\ \E i \in I, ln \in N : R[i][ln].s
        good == \A i \in I, ln \in N : R[i][ln].h /\ ~R[i][ln].f
        NewV(q) == TLCEval(FlattenSeq([i \in I |-> [e \in 1..Size(K.par[q]) |-> [ln \in N |-> R[i][ln].o[q][e]]]]))
        New(z) == LET q == outs[z]
                      v == TLCEval(NewV(q))
                      b == {1, o.np, Len(v)}
                  IN [v |-> v, lo |-> b, hi |-> b]
        OutH(z) == LET s == <<o.np>> \o K.par[outs[z]].s
                   IN Handle(Len(mems) + z, [j \in 1..Prod(s) |-> j], s, <<Entry(s)>>)
        rec == [k |-> o.k, np |-> o.np, good |-> good,
                h |-> [z \in 1..Len(ins) |-> [m |-> Arg(ins[z]).m, ent |-> Arg(ins[z]).ent, sh |-> Arg(ins[z]).sh,
                                              bc |-> Bc(ins[z]), par |-> ins[z], o |-> FALSE]]
                      \o [z \in 1..Len(outs) |-> [m |-> Len(mems) + z, ent |-> OutH(z).ent, sh |-> OutH(z).sh,
                                                  bc |-> FALSE, par |-> outs[z], o |-> TRUE]]]
        Done == /\ mems' = [m \in 1..Len(mems) |-> [mems[m] EXCEPT !.lo = lo[m], !.hi = hi[m]]]
                           \o [z \in 1..Len(outs) |-> New(z)]
                /\ push([q \in 1..n |-> IF K.par[q].out THEN OutH(CHOOSE z \in 1..Len(outs) : outs[z] = q) ELSE None])
                /\ calls' = Append(calls, rec)
                /\ UNCHANGED <<ph, g, off>>
    IN IF ph # "open" THEN Failed /\ bad' = Refuse(o, "a call after the graph")
       ELSE IF ~matches THEN Failed /\ bad' = Refuse(o, "a call with arguments that do not match")
       ELSE IF ~legalLo THEN Failed /\ bad' = Refuse(o, "a call for which there is no layout")
       ELSE IF ~legalHi /\ o.said = "no" THEN Failed /\ bad' = {}
       ELSE IF fails THEN Failed /\ bad' = Bad(o.said = "err", "a failing hint: " \o o.said)
       ELSE IF early /\ o.said = "err" THEN Failed /\ bad' = {}
       ELSE IF o.said # "ok" THEN Failed /\ bad' = Accept(o, "a call")
       ELSE Done /\ bad' = Bad(o.left = [q \in 1..n |-> K.par[q].out], "handles after a call")
NoG == [lens |-> <<>>, tpl |-> <<>>, kin |-> <<>>, b |-> <<>>]
Fuzzy == \E m \in 1..Len(mems) : mems[m].lo # mems[m].hi
WithB(G, B) == [lens |-> G.lens, tpl |-> G.tpl, kin |-> G.kin, b |-> B]
Compile(L, o) ==
    LET B == IF mems = <<>> THEN <<>> ELSE Bounds
        none == mems # <<>> /\ B = <<>>
    IN /\ UNCHANGED <<mems, hs, calls>>
       /\ IF ph # "open" THEN bad' = Refuse(o, "a second graph") /\ UNCHANGED <<ph, g, off>>
          ELSE IF Fuzzy THEN bad' = {} /\ off' = TRUE /\ UNCHANGED <<ph, g>>
          ELSE IF none THEN bad' = Refuse(o, "calls without a common layout") /\ off' = TRUE /\ UNCHANGED <<ph, g>>
          ELSE IF o.said # "ok" THEN bad' = Accept(o, "compiling the graph") /\ off' = TRUE /\ UNCHANGED <<ph, g>>
          ELSE LET b == GraphBad(o.g, B)
                   x == b \cup (IF b = {} THEN KernelsBad(o.g, B) ELSE {})
               IN bad' = x /\ ph' = "graph" /\ g' = WithB(o.g, B) /\ off' = (x # {})
Load(L, o) ==
    LET B == IF mems = <<>> THEN <<>> ELSE Bounds
        none == mems # <<>> /\ B = <<>>
        foreign == IF none THEN {"no layout"} ELSE GraphBad(o.g, B)
        strange == IF foreign = {} THEN KernelsBad(o.g, B) ELSE {}
    IN /\ UNCHANGED <<mems, hs, calls>>
       /\ IF ph # "open" THEN bad' = Refuse(o, "a second graph") /\ UNCHANGED <<ph, g, off>>
          ELSE IF Fuzzy THEN bad' = {} /\ off' = TRUE /\ UNCHANGED <<ph, g>>
          ELSE IF foreign # {} THEN bad' = Refuse(o, "a graph of other calls") /\ off' = TRUE /\ UNCHANGED <<ph, g>>
          ELSE IF ~o.same \/ strange # {} THEN bad' = {} /\ off' = TRUE /\ UNCHANGED <<ph, g>>
          ELSE IF o.said # "ok" THEN bad' = Accept(o, "the graph of the same calls") /\ off' = TRUE /\ UNCHANGED <<ph, g>>
          ELSE bad' = {} /\ ph' = "graph" /\ g' = WithB(o.g, B) /\ UNCHANGED off
Solve(L, o) ==
    /\ UNCHANGED <<mems, hs, calls, g>>
    /\ IF ph # "graph" THEN bad' = Refuse(o, "solving without a graph or twice") /\ UNCHANGED <<ph, off>>
       ELSE bad' = Accept(o, "solving") /\ ph' = "solved" /\ off' = (o.said # "ok")
Padded(m) == LET ix == TLCEval(PadIx(Dims(g.b[m]))) IN [j \in 1..Len(ix) |-> mems[m].v[ix[j]]]
\* the copies of an instance in the padding have the same hints
HintsBad(v, j) ==
    LET D == ParDims(calls[j], g.b)
        ix == TLCEval(PadIx(D))
        at == TLCEval(AtOf(D))
        n == Len(v) \div Len(ix)
    IN Bad(\A i \in 1..Len(ix) : SubSeq(v, (i - 1) * n + 1, i * n) = SubSeq(v, at[ix[i]] * n + 1, (at[ix[i]] + 1) * n),
           "hints of the padding")
Export(L, o) ==
    /\ UNCHANGED <<mems, hs, calls, ph, g>>
    /\ IF ph # "solved" THEN bad' = Refuse(o, "an export before solving") /\ UNCHANGED off
       ELSE IF o.said # "ok" THEN bad' = Accept(o, "an export") /\ off' = TRUE
       ELSE LET hinted == SelectSeq([j \in 1..Len(calls) |-> j], LAMBDA j : Hinted(g, j))
                b == IF [m \in 1..Len(o.v) |-> Len(o.v[m])] # g.lens THEN {"exported lengths"}
                     ELSE UNION {Bad(o.v[m] = Padded(m), "exported memory") : m \in 1..Len(mems)}
                          \cup UNION {HintsBad(o.v[Len(mems) + q], hinted[q]) : q \in 1..Len(hinted)}
            IN bad' = b /\ off' = (b # {})
AllGood == \A j \in 1..Len(calls) : calls[j].good
Prove(L, o) ==
    /\ UNCHANGED <<mems, hs, calls, ph, g, off>>
    /\ bad' = Bad(o.said = (IF AllGood THEN "yes" ELSE "no"), "a proof of the exported memories: " \o o.said)
              \cup (IF AllGood /\ o.said = "yes" THEN Bad(o.ver = "yes", "an honest proof does not verify") ELSE {})
Tamper(L, o) ==
    LET Y == TLCEval([m \in 1..Len(mems) |-> IF m = o.m THEN [Padded(m) EXCEPT ![o.i] = o.v] ELSE Padded(m)])
        Uses(j) == \E q \in 1..Len(calls[j].h) : calls[j].h[q].m = o.m
        \* hints are part of the witness: with other inputs, the old ones may or may not do
        Open(j) == Hinted(g, j) /\ \/ \E q \in 1..Len(calls[j].h) : calls[j].h[q].m = o.m /\ ~calls[j].h[q].o
                                   \/ o.m = Len(mems) + NumBefore(g, j) + 1
        no == \E j \in 1..Len(calls) : ~Open(j) /\ ~(IF Uses(j) THEN Accepts(L, j, g.b, Y) ELSE calls[j].good)
        open == \E j \in 1..Len(calls) : Open(j)
        W(f) == IF f \notin DOMAIN o THEN {}
                ELSE BadIf(o[f] = "yes" /\ no, f \o ": wrong memories accepted")
                     \cup BadIf(o[f] # "yes" /\ ~no /\ ~open, f \o ": right memories rejected")
                     \cup BadIf(o[f] = "panic", f \o " panics")
    IN /\ UNCHANGED <<mems, hs, calls, ph, g, off>>
       /\ bad' = W("prove") \cup W("verify") \cup W("forge")
Parts(L, o) ==
    /\ UNCHANGED <<mems, hs, calls, ph, g, off>>
    /\ bad' = Bad(o.again = "yes", "a proof does not verify after writing and reading")
              \cup BadIf(o.n > 0 /\ o.short = "yes", "a proof without one of its parts accepted")

\* --- one kernel ------------------------------------------------------------------
\* a kernel may be refused when it can never be satisfied, or when a function depends on none of
\* its arguments
Hopeless(L) ==
    LET Try(v) == LET r == Apply(L.p, L.ker, [q \in Params(L.ker) |-> [e \in 1..Size(L.ker.par[q]) |-> FInt(L.p, v * e + v)]]) IN r.h /\ ~r.f
    IN \A v \in 0..4 : ~Try(v)
Offsets(K, qs) == [z \in 1..(Len(qs) + 1) |-> FoldLeft(LAMBDA a, y : a + Size(K.par[qs[y]]), 0, [y \in 1..(z - 1) |-> y])]
KernBad(L) ==
    LET K == L.ker
        ins == InParams(K)
        outs == OutParams(K)
        io == Offsets(K, ins)
        oo == Offsets(K, outs)
        nin == io[Len(io)]
        nout == oo[Len(oo)]
        shapes == L.pin \o L.pout
        RunBad(r) ==
            LET ipos(q) == io[CHOOSE z \in 1..Len(ins) : ins[z] = q]
                opos(q) == oo[CHOOSE z \in 1..Len(outs) : outs[z] = q]
                A == TLCEval([ln \in 1..L.pack |-> Apply(L.p, K, [q \in Params(K) |->
                        IF K.par[q].in THEN [e \in 1..Size(K.par[q]) |-> r.ins[ipos(q) + e][ln]] ELSE <<>>])])
                N == 1..L.pack
                \* the elements of argument z (inputs, then outputs) where the circuit reads them
                El(z) == LET at == AtOf(shapes[z]) IN [e \in 1..Len(at) |-> r.x[L.at[z][2] + at[e] + 1]]
                want == [ln \in N |-> A[ln].h /\ ~A[ln].f /\ \A q \in Params(K) : K.par[q].out =>
                            LET z == Len(ins) + (CHOOSE y \in 1..Len(outs) : outs[y] = q)
                                el == El(z)
                            IN \A e \in 1..Size(K.par[q]) : el[e][ln] = A[ln].o[q][e]]
            IN CASE r.said = "err" -> BadIf(~\E ln \in N : A[ln].f \/ A[ln].s, "calling fails")
                 [] r.said = "ok" ->
                      BadIf(\E ln \in N : A[ln].f, "a failing hint goes unnoticed")
                      \cup UNION {Bad(\A e \in 1..Size(K.par[q]) : \A ln \in N : r.outs[opos(q) + e][ln] = A[ln].o[q][e], "calling gives other outputs")
                                  : q \in {y \in Params(K) : K.par[y].out}}
                      \cup IF \E z \in 1..Len(ins) : \E e \in 1..Size(K.par[ins[z]]) : El(z)[e] # r.ins[io[z] + e] THEN {"the driver's inputs"}
                           ELSE UNION {Bad(r.ok[ln] = want[ln], IF want[ln] THEN "the circuit rejects right outputs" ELSE "the circuit accepts wrong outputs") : ln \in N}
                 [] r.said = "hint err" -> BadIf(~\E ln \in N : A[ln].f \/ A[ln].s, "solving hints fails")
                 [] OTHER -> {r.said}
    IN IF L.said # "ok" THEN Bad(Hopeless(L) \/ (L.said = "err" /\ K.fun # <<>>), "refused: " \o L.said)
       ELSE LET b == RegionsBad(L.at, [z \in 1..Len(shapes) |-> Prod(Pads(shapes[z]))], L.size)
                     \cup BadIf(Len(L.at) # Len(shapes) + (IF L.hint THEN 1 ELSE 0), "number of input regions")
            IN IF b # {} THEN b ELSE UNION {RunBad(L.runs[j]) : j \in 1..Len(L.runs)}

Step(L, o) ==
    CASE o.op = "put" -> Put(L, o) /\ UNCHANGED <<calls, ph, g, off>>
      [] o.op = "flat" -> Flat(L, o) /\ UNCHANGED <<calls, ph, g, off>>
      [] o.op = "reshape" -> Reshape(o) /\ UNCHANGED <<calls, ph, g, off>>
      [] o.op = "transpose" -> Transpose(o) /\ UNCHANGED <<calls, ph, g, off>>
      [] o.op = "get" -> Get(L, o) /\ UNCHANGED <<calls, ph, g, off>>
      [] o.op = "call" -> Call(L, o)
      [] o.op = "compile" -> Compile(L, o)
      [] o.op = "load" -> Load(L, o)
      [] o.op = "solve" -> Solve(L, o)
      [] o.op = "export" -> Export(L, o)
      [] o.op = "prove" -> Prove(L, o)
      [] o.op = "tamper" -> Tamper(L, o)
      [] o.op = "parts" -> Parts(L, o)
Report(L, j, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, IF L.kind = "hist" THEN L.ops[j].op ELSE L.kind, b>>)
Init == /\ l \in 1..Len(Lines) /\ k = 0 /\ bad = {} /\ mems = <<>> /\ hs = <<>> /\ calls = <<>>
        /\ ph = "open" /\ g = NoG /\ off = FALSE
Next ==
    LET L == Lines[l]
    IN /\ k < (IF L.kind = "hist" THEN Len(L.ops) ELSE 1)
       /\ k' = k + 1
       /\ l' = l
       /\ IF L.kind # "hist" THEN bad' = KernBad(L) /\ UNCHANGED <<mems, hs, calls, ph, g, off>>
          ELSE IF off \/ bad # {} THEN UNCHANGED <<mems, hs, calls, ph, g>> /\ bad' = {} /\ off' = TRUE
          ELSE Step(L, L.ops[k + 1])
       /\ Report(L, k', bad')
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, at |-> k, bad |-> bad]
=============================================================================
