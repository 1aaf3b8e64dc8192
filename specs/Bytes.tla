-------------------------------- MODULE Bytes --------------------------------
(* Written artifacts.  Enc(L, obj) says what an object is written as: a      *)
(* sequence of tokens, each a number of a fixed width, least significant     *)
(* byte first:                                                               *)
(*    <<"b", x>>  one byte             <<"w", x>>  eight bytes               *)
(*    <<"m", x>>  32 bytes (modulus)   <<"f", x>>  one field element         *)
(* Numbers of 2^31 and more are decimal strings.                             *)
(* Lines: what the code wrote and read back (D01), what it said to damaged   *)
(* and foreign bytes (D02), and the memory image of computation graphs (D03).*)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, k, bad
vars == <<l, k, bad>>
Has(r, f) == f \in DOMAIN r
Bad(b, m) == IF b THEN {} ELSE {m}

\* --- layout --------------------------------------------------------------------
B(x) == <<<<"b", x>>>>
W(x) == <<<<"w", x>>>>
F(x) == <<<<"f", x>>>>
Each(s, Op(_)) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])
Vec(s, Op(_)) == W(Len(s)) \o Each(s, Op)
Ws(s) == Vec(s, W)
KTag(c) == CASE c[1] = "c" -> B(1) \o F(c[2])
             [] c[1] = "r" -> B(2)
             [] c[1] = "p" -> B(3) \o W(c[2])
\* programs: source and hint-normalised instructions have different numbers
SrcInsn(s) ==
    CASE s.o = "lin" -> B(1) \o Ws(s.v) \o Each(s.a, F) \o F(s.c)
      [] s.o = "mul" -> B(2) \o Ws(s.v)
      [] s.o = "div" -> B(3) \o W(s.x) \o W(s.y) \o B(s.b)
      [] s.o = "bool" -> B(4) \o W(s.x) \o W(s.y) \o B(s.b)
      [] s.o = "isz" -> B(5) \o W(s.x)
      [] s.o = "commit" -> B(6) \o Ws(s.v)
      [] s.o = "hint" -> B(7) \o W(s.h) \o Ws(s.v) \o W(s.n)
      [] s.o = "const" -> B(8) \o KTag(s.f)
      [] s.o = "call" -> B(9) \o W(s.s) \o Ws(s.v) \o W(s.n)
      [] s.o = "ubin" -> B(10) \o W(s.x) \o W(s.y) \o B(s.b)
      [] s.o = "usel" -> B(11) \o Each(s.v, W)
      [] s.o = "cust" -> B(12) \o W(s.g) \o Ws(s.v)
      [] s.o = "tobin" -> B(13) \o W(s.x) \o W(s.n)
HnInsn(s) ==
    CASE s.o = "lin" -> B(1) \o Ws(s.v) \o Each(s.a, F) \o F(s.c)
      [] s.o = "mul" -> B(2) \o Ws(s.v)
      [] s.o = "hint" -> B(3) \o W(s.h) \o Ws(s.v) \o W(s.n)
      [] s.o = "const" -> B(4) \o KTag(s.f)
      [] s.o = "call" -> B(5) \o W(s.s) \o Ws(s.v) \o W(s.n)
      [] s.o = "cust" -> B(6) \o W(s.g) \o Ws(s.v)
SrcCon(c) == B(c[1]) \o W(c[2])
HnCon(c) == W(c[2])
Circ(c, Insn(_), Con(_)) == Vec(c.i, Insn) \o Vec(c.k, Con) \o Ws(c.z) \o W(c.n)
SrcEntry(e) == W(e[1]) \o Circ(e[2], SrcInsn, SrcCon)
HnEntry(e) == W(e[1]) \o Circ(e[2], HnInsn, HnCon)
\* the circuits are in increasing order of their number
Prog(L, o, Entry(_)) == W(L.cfg) \o W(o.npub) \o W(o.nz) \o Vec(o.c, Entry)

\* layered circuits; an input is <<offset>> or <<layer, offset>>
Words(s) == Each(s, W)
Gate(g) == Each(g[1], Words) \o W(g[2]) \o KTag(g[3])
Cust(g) == W(g[1]) \o Vec(g[2], Words) \o W(g[3]) \o KTag(g[4])
Alloc(kind, a) == (IF kind = "cross" THEN Ws(a[1]) ELSE W(a[1][1])) \o W(a[2])
Seg(kind, s) ==
    LET Al(a) == Alloc(kind, a)
        Ch(c) == W(c[1]) \o Vec(c[2], Al)
    IN (IF kind = "cross" THEN Ws(s.ni) ELSE W(s.ni[1])) \o W(s.no)
       \o Vec(s.ch, Ch) \o Vec(s.m, Gate) \o Vec(s.a, Gate) \o Vec(s.k, Gate) \o Vec(s.u, Cust)
Modulus(L) == <<<<"m", L.mod>>>>
Lay(L, kind, o) ==
    LET Sg(s) == Seg(kind, s)
    IN W("3914834606642317635") \o Modulus(L) \o W(o.npub) \o W(o.nact) \o W(o.nz) \o Vec(o.s, Sg) \o Ws(o.l)
Wit(L, o) == W(o.num) \o W(o.a) \o W(o.b) \o Modulus(L) \o Each(o.asg, LAMBDA x : Each(x[1], F) \o Each(x[2], F))
Ker(L, o) ==
    (IF o.hs = <<>> THEN B(0) ELSE B(1) \o Prog(L, o.hs[1], HnEntry))
    \o Lay(L, "normal", o.lc) \o Vec(o["in"], Words)
Tmpl(t) == W(t.k) \o Ws(t.ci) \o Vec(t.bo, Ws) \o W(t.pc) \o Vec(t.br, B)
Graph(L, o) == LET Kr(x) == Ker(L, x) IN Vec(o.ks, Kr) \o Ws(o.cl) \o Vec(o.pt, Tmpl)
Enc(L, o) ==
    CASE L.kind = "source" -> Prog(L, o, SrcEntry)
      [] L.kind = "hn" -> Prog(L, o, HnEntry)
      [] L.kind \in {"normal", "cross"} -> Lay(L, L.kind, o)
      [] L.kind = "wit" -> Wit(L, o)
      [] L.kind = "kernel" -> Ker(L, o)
      [] L.kind = "graph" -> Graph(L, o)

\* --- bytes ---------------------------------------------------------------------
RECURSIVE Le(_, _)
Le(n, x) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o Le(n - 1, x \div 256)
Width(fs, t) == CASE t[1] = "b" -> 1 [] t[1] = "w" -> 8 [] t[1] = "m" -> 32 [] t[1] = "f" -> fs
\* the bytes of a token whose number is a TLC integer
TokBytes(fs, t) == Le(Width(fs, t), t[2])
\* Match(p, fs, toks, hex, exact): the number of bytes toks take if hex starts with
\* them, else -1; unless exact, field elements are compared as residues of p.
\* Overridden by java/Bytes.java; the definition here is for toks of small numbers
\* and hex given as a sequence of numbers.
Match_(p, fs, toks, raw) ==
    LET b == FlattenSeq([j \in 1..Len(toks) |-> TokBytes(fs, toks[j])])
    IN IF Len(b) <= Len(raw) /\ SubSeq(raw, 1, Len(b)) = b THEN Len(b) ELSE -1
Match(p, fs, toks, hex, exact) == Match_(p, fs, toks, hex)
\* TRUE if every number of the tokens is a TLC integer (overridden)
Small(toks) == TRUE

\* --- what each line may say -------------------------------------------------------
WriteBad(L) ==
    LET t == Enc(L, L.obj)
        m == Match(L.mod, L.fs, t, L.hex, TRUE)
    IN Bad(m = L.len, "written differently from the layout")
       \cup (IF Has(L, "raw") /\ Small(t)
             THEN Bad(Match_(L.mod, L.fs, t, L.raw) = m, "(the two matchers disagree)") ELSE {})
ReadBad(L) ==
    IF L.read.said # "ok" THEN {"what was written cannot be read: " \o L.read.said}
    ELSE Bad(~Has(L.read, "obj"), "reads back as another object")
         \cup Bad(L.read.n = L.len, "reads more or less than its own bytes")
CutBad(L) ==
    Bad(L.cuts = <<>>, "accepts or panics on bytes that are cut short")
    \cup (IF Has(L, "foreign") THEN Bad(L.foreign = "err", "reads what was written for another field or configuration: " \o L.foreign) ELSE {})
FlipBad(L, f) ==
    CASE f.said = "err" -> {}
      [] f.said = "panic" -> {"panics on a changed byte"}
      [] f.said = "ok" -> Bad(Match(L.mod, L.fs, Enc(L, f.obj), f.hex, FALSE) = f.n,
                              "a changed byte is ignored or misread")
\* custom gates have no image: the graph is refused, not shipped without them
Custom(g) == \E j \in 1..Len(g.ks) : \E s \in 1..Len(g.ks[j].lc.s) : g.ks[j].lc.s[s].u # <<>>
ImageBad(L) ==
    IF Custom(L.obj) THEN Bad(L.said = "panic", "custom gates are dropped")
    ELSE IF L.said # "ok" THEN {"the memory image fails: " \o L.said}
    ELSE LET bare == [L.obj EXCEPT !.ks = [j \in 1..Len(@) |-> [@[j] EXCEPT !.hs = <<>>]]]
         IN Bad(L.got = bare, "another graph comes out of memory")
            \cup Bad(L.wrote = L.size, "writes another number of bytes than announced")
            \cup Bad(L.used = L.size, "reads another number of bytes than announced")
            \cup Bad(L.around, "touches memory around the image")

Steps(L) == IF Has(L, "flips") THEN 1 + Len(L.flips) ELSE IF L.kind = "image" THEN 1 ELSE 2
StepBad(L, n) ==
    IF L.kind = "image" THEN ImageBad(L)
    ELSE IF Has(L, "flips") THEN (IF n = 1 THEN CutBad(L) ELSE FlipBad(L, L.flips[n - 1]))
    ELSE IF n = 1 THEN WriteBad(L) ELSE ReadBad(L)

Report(L, b) == IF b = {} THEN TRUE ELSE PrintT(<<"BAD", L.id, L.kind, b>>)
Init == l \in 1..Len(Lines) /\ k = 0 /\ bad = {}
Next ==
    LET L == Lines[l]
    IN /\ k < Steps(L)
       /\ k' = k + 1
       /\ bad' = StepBad(L, k')
       /\ Report(L, bad')
       /\ l' = l
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Short == [line |-> Lines[l].id, at |-> k, bad |-> bad]
=============================================================================
