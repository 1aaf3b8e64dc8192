-------------------------------- MODULE Emu --------------------------------
(* Arithmetic modulo the primes of BLS12-381 on numbers in limbs of eight    *)
(* bits, the towers above it and the points of its curves.  A circuit is a   *)
(* program of steps; a value is a sequence of field elements: one of the     *)
(* field, two of E2 = F[u] / (u^2 + 1), six of E6 = E2[v] / (v^3 - (1 + u)), *)
(* twelve of E12 = E6[w] / (w^2 - v), two or four of a point.                *)
EXTENDS Sha

PF == "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"
RF == "52435875175126190479447740508185965837690552500527637822603658699938581184513"
\* the curve's parameter is minus this
US == "15132376222941642752"
\* multiplying by it takes every point of the twist to the subgroup of order RF
HEFF == "209869847837335686905080341498658477663839067235703451875306851526599783796572738804459333109033834234622528588876978987822447936461846631641690358257586228683615991308971558879306463436166481"

------------------------------------------------------------------------------
\* vectors
VAdd(p, x, y) == TLCEval([i \in 1..Len(x) |-> FAdd(p, x[i], y[i])])
VSub(p, x, y) == TLCEval([i \in 1..Len(x) |-> FSub(p, x[i], y[i])])
VNeg(p, x) == TLCEval([i \in 1..Len(x) |-> FNeg(p, x[i])])
VScale(p, x, c) == TLCEval([i \in 1..Len(x) |-> FMul(p, x[i], c)])
VZero(n) == [i \in 1..n |-> "0"]
VOne(n) == [i \in 1..n |-> IF i = 1 THEN "1" ELSE "0"]
IsZ(x) == \A i \in 1..Len(x) : x[i] = "0"
Odd(x) == ZMod(x, "2") = "1"
Half(p) == ZDiv(p, "2")
IsSquare(p, a) == a = "0" \/ FPow(p, a, Half(p)) = "1"
\* of a square, where p is 3 modulo 4
Root4(p, a) == FPow(p, a, ZDiv(ZAdd(p, "1"), "4"))

\* E2
Mul2(p, x, y) == <<FSub(p, FMul(p, x[1], y[1]), FMul(p, x[2], y[2])), FAdd(p, FMul(p, x[1], y[2]), FMul(p, x[2], y[1]))>>
Norm2(p, x) == FAdd(p, FMul(p, x[1], x[1]), FMul(p, x[2], x[2]))
Inv2(p, x) == LET n == FInv(p, Norm2(p, x)) IN <<FMul(p, x[1], n), FNeg(p, FMul(p, x[2], n))>>
Conj2(p, x) == <<x[1], FNeg(p, x[2])>>
Xi(p, x) == <<FSub(p, x[1], x[2]), FAdd(p, x[1], x[2])>>
\* the bits of a number, the highest first
BitsOf(e) == Reverse(IBits(HUGE, e, FBits(e)))
Pow2(p, x, e) ==
    FoldLeft(LAMBDA a, b : LET s == TLCEval(Mul2(p, a, a)) IN IF b = "1" THEN TLCEval(Mul2(p, s, x)) ELSE s, <<"1", "0">>, BitsOf(e))
\* powers of 1 + u: the k-th of its (p - 1) / 6-th power, and of its (p^2 - 1) / 6-th
Gamma1 == TLCEval(Pow2(PF, <<"1", "1">>, ZDiv(ZSub(PF, "1"), "6")))
Gamma2 == TLCEval(Mul2(PF, Gamma1, Conj2(PF, Gamma1)))
PowK(p, x, n) == FoldLeft(LAMBDA a, i : TLCEval(Mul2(p, a, x)), <<"1", "0">>, [i \in 1..n |-> i])

\* polynomials over E2 modulo X^n - (1 + u)
PMul(p, x, y) ==
    LET n == Len(x)
        c(d) == FoldLeft(LAMBDA a, i :
                    LET j == d - i
                        m == TLCEval(Mul2(p, x[i + 1], y[(IF j < 0 THEN j + n ELSE j) + 1]))
                    IN TLCEval(VAdd(p, a, IF j < 0 THEN Xi(p, m) ELSE m)), <<"0", "0">>, [i \in 1..n |-> i - 1])
    IN TLCEval([j \in 1..n |-> c(j - 1)])
Pairs(x) == TLCEval([i \in 1..(Len(x) \div 2) |-> <<x[2 * i - 1], x[2 * i]>>])
Flat(x) == TLCEval([i \in 1..(2 * Len(x)) |-> x[(i + 1) \div 2][2 - (i % 2)]])
\* E12 as polynomials in w
Order12 == <<1, 4, 2, 5, 3, 6>>
ToW(x) == LET y == Pairs(x) IN TLCEval([j \in 1..6 |-> y[Order12[j]]])
FromW(y) == LET z == [i \in 1..6 |-> y[IF i <= 3 THEN 2 * i - 1 ELSE 2 * (i - 3)]] IN Flat(z)
Mul6(p, x, y) == Flat(PMul(p, Pairs(x), Pairs(y)))
Mul12(p, x, y) == FromW(PMul(p, ToW(x), ToW(y)))
V6(p, x) == TLCEval(Xi(p, <<x[5], x[6]>>) \o Slice(x, 0, 4))
Inv6(p, x) ==
    LET a == <<x[1], x[2]>>
        b == <<x[3], x[4]>>
        c == <<x[5], x[6]>>
        m(s, t) == TLCEval(Mul2(p, s, t))
        t0 == TLCEval(VSub(p, m(a, a), Xi(p, m(b, c))))
        t1 == TLCEval(VSub(p, Xi(p, m(c, c)), m(a, b)))
        t2 == TLCEval(VSub(p, m(b, b), m(a, c)))
        d == TLCEval(Inv2(p, VAdd(p, m(a, t0), Xi(p, VAdd(p, m(c, t1), m(b, t2))))))
    IN m(t0, d) \o m(t1, d) \o m(t2, d)
Inv12(p, x) ==
    LET c0 == Slice(x, 0, 6)
        c1 == Slice(x, 6, 6)
        n == TLCEval(Inv6(p, VSub(p, Mul6(p, c0, c0), V6(p, Mul6(p, c1, c1)))))
    IN Mul6(p, c0, n) \o VNeg(p, Mul6(p, c1, n))
\* the p-th power
Frob(p, x) == FromW(LET y == ToW(x) IN [j \in 1..6 |-> TLCEval(Mul2(p, Conj2(p, y[j]), PowK(p, Gamma1, j - 1)))])
Mul(p, x, y) ==
    CASE Len(x) = 1 -> <<FMul(p, x[1], y[1])>>
      [] Len(x) = 2 -> Mul2(p, x, y)
      [] Len(x) = 6 -> Mul6(p, x, y)
      [] OTHER -> Mul12(p, x, y)
Inv(p, x) ==
    CASE Len(x) = 1 -> <<FInv(p, x[1])>>
      [] Len(x) = 2 -> Inv2(p, x)
      [] Len(x) = 6 -> Inv6(p, x)
      [] OTHER -> Inv12(p, x)
Power(p, x, e) ==
    FoldLeft(LAMBDA a, b : LET s == TLCEval(Mul(p, a, a)) IN IF b = "1" THEN TLCEval(Mul(p, s, x)) ELSE s, VOne(Len(x)), BitsOf(e))
Squares(p, x, n) == FoldLeft(LAMBDA a, i : TLCEval(Mul(p, a, a)), x, [i \in 1..n |-> i])
E2At(x, i) == <<x[2 * i + 1], x[2 * i + 2]>>
Six(b0, b1, b2) == b0 \o b1 \o b2
Z2 == <<"0", "0">>
\* the order of the cyclotomic subgroup over the order of the pairing's values
HARD == ZDiv(ZAdd(ZSub(ZMul(ZMul(PF, PF), ZMul(PF, PF)), ZMul(PF, PF)), "1"), RF)

------------------------------------------------------------------------------
\* points over the field (d = 1) or E2 (d = 2): y^2 = x^3 + b
None == <<>>
PX(P) == Slice(P, 0, Len(P) \div 2)
PY(P) == Slice(P, Len(P) \div 2, Len(P) \div 2)
B1 == <<"4">>
B2 == <<"4", "4">>
OnCurve(p, P) ==
    LET x == PX(P)
        y == PY(P)
    IN Mul(p, y, y) = VAdd(p, Mul(p, x, Mul(p, x, x)), IF Len(x) = 1 THEN B1 ELSE B2)
Chord(p, P, x2, s) ==
    LET x == TLCEval(VSub(p, VSub(p, Mul(p, s, s), PX(P)), x2))
    IN TLCEval(x \o VSub(p, Mul(p, s, VSub(p, PX(P), x)), PY(P)))
\* of different points that are not each other's negative; otherwise nothing
Add(p, P, Q) ==
    IF P = None \/ Q = None \/ PX(P) = PX(Q) THEN None
    ELSE Chord(p, P, PX(Q), TLCEval(Mul(p, VSub(p, PY(Q), PY(P)), Inv(p, VSub(p, PX(Q), PX(P))))))
Dbl(p, P) ==
    IF P = None \/ IsZ(PY(P)) THEN None
    ELSE Chord(p, P, PX(P), TLCEval(Mul(p, VScale(p, Mul(p, PX(P), PX(P)), "3"), Inv(p, VScale(p, PY(P), "2")))))
NegP(p, P) == PX(P) \o VNeg(p, PY(P))
Dbls(p, P, n) == FoldLeft(LAMBDA a, i : TLCEval(Dbl(p, a)), P, [i \in 1..n |-> i])
\* the multiple of a point of large order
Times(p, P, e) ==
    FoldLeft(LAMBDA a, b : LET s == TLCEval(Dbl(p, a)) IN IF b = "1" THEN TLCEval(Add(p, s, P)) ELSE s, P, Tail(BitsOf(e)))
G1Gen == <<"3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507",
           "1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569">>
G2Gen == <<"352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160",
           "3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758",
           "1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905",
           "927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582">>
\* its square root is 1 + u to the (p - 1) / 6
Psi(p, P) ==
    LET gi == TLCEval(Inv2(p, Gamma1))
    IN TLCEval(Mul2(p, Conj2(p, PX(P)), PowK(p, gi, 2)) \o Mul2(p, Conj2(p, PY(P)), PowK(p, gi, 3)))
\* has order RF; of two points with a common abscissa one is not reached by doubling
Ordered(p, P) == LET Q == Times(p, P, ZSub(RF, "1")) IN Q # None /\ Q = NegP(p, P)

\* square roots in E2
Square2(p, a) == IsSquare(p, Norm2(p, a))
Root2(p, a) ==
    IF a[2] = "0" THEN IF IsSquare(p, a[1]) THEN <<Root4(p, a[1]), "0">> ELSE <<"0", Root4(p, FNeg(p, a[1]))>>
    ELSE LET n == Root4(p, Norm2(p, a))
             h == FInv(p, "2")
             d1 == FMul(p, FAdd(p, a[1], n), h)
             d == IF IsSquare(p, d1) THEN d1 ELSE FMul(p, FSub(p, a[1], n), h)
             x == Root4(p, d)
         IN TLCEval(<<x, FMul(p, a[2], FInv(p, FMul(p, "2", x)))>>)
HasRoot(p, a) == IF Len(a) = 1 THEN IsSquare(p, a[1]) ELSE Square2(p, a)
RootOf(p, a) == IF Len(a) = 1 THEN <<Root4(p, a[1])>> ELSE Root2(p, a)
Sgn(x) == IF Len(x) = 1 THEN Odd(x[1]) ELSE Odd(x[1]) \/ (x[1] = "0" /\ Odd(x[2]))
Signed(p, y, s) == IF Sgn(y) = s THEN y ELSE VNeg(p, y)
Large(p, y) ==
    IF Len(y) = 1 THEN ZLt(Half(p), y[1])
    ELSE IF y[2] # "0" THEN ZLt(Half(p), y[2]) ELSE ZLt(Half(p), y[1])
\* compressed: the abscissa from the highest byte, with 100 or 101 on top (101: the larger root)
Uncompressed(p, bytes) ==
    LET top == bytes[1] \div 32
        b == TLCEval([i \in 1..Len(bytes) |-> IF i = 1 THEN bytes[1] % 32 ELSE bytes[i]])
        e(from) == ZMod(ZBig(Reverse(Slice(b, from, 48)), 8), p)
        x == IF Len(b) = 48 THEN <<e(0)>> ELSE <<e(48), e(0)>>
        g == TLCEval(VAdd(p, Mul(p, x, Mul(p, x, x)), IF Len(x) = 1 THEN B1 ELSE B2))
        y == TLCEval(RootOf(p, g))
    IN IF ~HasRoot(p, g) THEN None
       ELSE TLCEval(x \o (IF Large(p, y) = (top = 5) THEN y ELSE VNeg(p, y)))

\* RFC 9380: the simplified map to y^2 = x^3 + A x + B (isogenous to the curve)
MapA(d) == IF d = 1 THEN <<"12190336318893619529228877361869031420615612348429846051986726275283378313155663745811710833465465981901188123677">> ELSE <<"0", "240">>
MapB(d) == IF d = 1 THEN <<"2906670324641927570491258158026293881577086121416628140204402091718288198173574630967936031029026176254968826637280">> ELSE <<"1012", "1012">>
MapZ(p, d) == IF d = 1 THEN <<"11">> ELSE <<FNeg(p, "2"), FNeg(p, "1")>>
MapG(p, x) == LET d == Len(x) IN TLCEval(VAdd(p, VAdd(p, Mul(p, x, Mul(p, x, x)), Mul(p, MapA(d), x)), MapB(d)))
MapTo(p, t) ==
    LET d == Len(t)
        a == MapA(d)
        b == MapB(d)
        zu == TLCEval(Mul(p, MapZ(p, d), Mul(p, t, t)))
        den == TLCEval(VAdd(p, Mul(p, zu, zu), zu))
        x1 == TLCEval(IF IsZ(den) THEN Mul(p, b, Inv(p, Mul(p, MapZ(p, d), a)))
                      ELSE Mul(p, VNeg(p, Mul(p, b, Inv(p, a))), VAdd(p, VOne(d), Inv(p, den))))
        g1 == MapG(p, x1)
        x2 == TLCEval(Mul(p, zu, x1))
    IN IF HasRoot(p, g1) THEN TLCEval(x1 \o Signed(p, RootOf(p, g1), Sgn(t)))
       ELSE TLCEval(x2 \o Signed(p, RootOf(p, MapG(p, x2)), Sgn(t)))
\* two field elements from bytes, with the domain of the signatures
DST == <<66, 76, 83, 95, 83, 73, 71, 95, 66, 76, 83, 49, 50, 51, 56, 49, 71, 50, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 83, 87, 85, 95, 82, 79, 95, 80, 79, 80, 95>>
Bxor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Expand(msg, n) ==
    LET dst == DST \o <<Len(DST)>>
        b0 == TLCEval(BytesDigest(Zeros(64) \o msg \o <<n \div 256, n % 256, 0>> \o dst))
        b1 == TLCEval(BytesDigest(b0 \o <<1>> \o dst))
        all == FoldLeft(LAMBDA s, i : Append(s, TLCEval(BytesDigest(Bxor(b0, s[Len(s)]) \o <<i>> \o dst))), <<b1>>, [i \in 1..(n \div 32 - 1) |-> i + 1])
    IN FlattenSeq(all)
HashTo(p, msg, d) == LET b == TLCEval(Expand(msg, 128 * d)) IN TLCEval([i \in 1..(2 * d) |-> ZMod(ZBig(Reverse(Slice(b, 64 * (i - 1), 64)), 8), p)])

------------------------------------------------------------------------------
Okv(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, v |-> <<>>]
If(b) == IF b THEN Okv(<<>>) ELSE No
Pt(P) == IF P = None THEN No ELSE Okv(P)
Bit(b) == Okv(<<IF b THEN "1" ELSE "0">>)
\* the meaning of a step, of its arguments, the inputs x and (for isogenies) what was seen
Basic(p, o, A, c, n) ==
    CASE o = "zero" -> Okv(VZero(n))
      [] o = "one" -> Okv(VOne(n))
      [] o = "const" -> Okv(<<FInt(p, c)>>)
      [] o = "add" -> Okv(VAdd(p, A[1], A[2]))
      [] o = "sub" -> Okv(VSub(p, A[1], A[2]))
      [] o = "neg" -> Okv(VNeg(p, A[1]))
      [] o = "double" -> Okv(VScale(p, A[1], "2"))
      [] o \in {"mul", "kara"} -> Okv(Mul(p, A[1], A[2]))
      [] o = "square" -> Okv(Mul(p, A[1], A[1]))
      [] o = "div" -> IF IsZ(A[2]) THEN No ELSE Okv(Mul(p, A[1], Inv(p, A[2])))
      [] o \in {"inv", "invdiv"} -> IF IsZ(A[1]) THEN No ELSE Okv(Inv(p, A[1]))
      [] o = "mulc" -> Okv(VScale(p, A[1], FInt(p, c)))
      [] o \in {"reduce", "sreduce", "copy"} -> Okv(A[1])
      [] o = "select" -> Okv(IF A[3] = <<"1">> THEN A[1] ELSE A[2])
      [] o = "iszero" -> Bit(IsZ(A[1]))
      [] o = "sign" -> Bit(Sgn(A[1]))
      [] o = "eq" -> If(A[1] = A[2])
Step2(p, o, A, c) ==
    CASE o = "nr" -> Okv(<<"1", "1">>)
      [] o = "mule" -> Okv(VScale(p, A[1], A[2][1]))
      [] o = "mulnr" -> Okv(Xi(p, A[1]))
      [] o = "conj" -> Okv(Conj2(p, A[1]))
      [] o \in {"nr11", "nr12", "nr13", "nr14", "nr15"} ->
           Okv(Mul2(p, A[1], PowK(p, Gamma1, CHOOSE j \in 1..5 : o = "nr1" \o ToString(j))))
      [] o \in {"nr21", "nr22", "nr23", "nr24", "nr25"} ->
           Okv(Mul2(p, A[1], PowK(p, Gamma2, CHOOSE j \in 1..5 : o = "nr2" \o ToString(j))))
      [] OTHER -> Basic(p, o, A, c, 2)
Step6(p, o, A, c) ==
    CASE o = "mule2" -> Okv(Mul6(p, A[1], Six(A[2], Z2, Z2)))
      [] o = "mul0" -> Okv(Mul6(p, A[1], Six(A[2], Z2, Z2)))
      [] o = "mul01" -> Okv(Mul6(p, A[1], Six(A[2], A[3], Z2)))
      [] o = "mul12" -> Okv(Mul6(p, A[1], Six(Z2, A[2], A[3])))
      [] o = "mulnr" -> Okv(V6(p, A[1]))
      [] o = "div6" -> Okv(VScale(p, A[1], FInv(p, "6")))
      [] OTHER -> Basic(p, o, A, c, 6)
\* c0 + c1 v + v w
L014(c0, c1) == c0 \o c1 \o Z2 \o Z2 \o <<"1", "0">> \o Z2
Step12(p, o, A, c, n) ==
    CASE o = "conj" -> Okv(Slice(A[1], 0, 6) \o VNeg(p, Slice(A[1], 6, 6)))
      [] o = "cyc" -> Okv(Mul12(p, A[1], A[1]))
      [] o \in {"nsq", "nsqh"} -> Okv(Squares(p, A[1], n))
      [] o = "expt" -> Okv(Power(p, A[1], US))
      [] o = "frob" -> Okv(Frob(p, A[1]))
      [] o = "frob2" -> Okv(Frob(p, Frob(p, A[1])))
      [] o = "mul014" -> Okv(Mul12(p, A[1], L014(A[2], A[3])))
      [] o = "mul014014" ->
           \* the ninth and tenth element of a product are zero
           LET r == TLCEval(Mul12(p, L014(A[1], A[2]), L014(A[3], A[4])))
           IN Okv(Slice(r, 0, 6) \o Slice(r, 8, 4))
      [] o = "final" -> If(Power(p, A[1], HARD) = VOne(12))
      [] OTHER -> Basic(p, o, A, c, 12)
StepP(p, d, o, A, n, bytes, seen) ==
    CASE o = "gen" -> Okv(G1Gen)
      [] o = "add" -> Pt(Add(p, A[1], A[2]))
      [] o = "double" -> Pt(Dbl(p, A[1]))
      [] o = "doublen" -> Pt(Dbls(p, A[1], n))
      [] o = "dbladd" -> Pt(Add(p, A[1], Add(p, A[1], A[2])))
      [] o = "triple" -> Pt(Add(p, A[1], Dbl(p, A[1])))
      [] o = "neg" -> Okv(NegP(p, A[1]))
      [] o = "phi" -> Okv(VScale(p, PX(A[1]), "4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436") \o PY(A[1]))
      [] o = "psi" -> Okv(Psi(p, A[1]))
      [] o = "copy" -> Okv(A[1])
      [] o = "seed2" -> Pt(Times(p, A[1], ZMul(US, US)))
      [] o = "seed" -> LET Q == Times(p, A[1], US) IN IF Q = None THEN No ELSE Okv(NegP(p, Q))
      [] o = "clear" -> Pt(Times(p, A[1], IF d = 1 THEN ZAdd(US, "1") ELSE HEFF))
      [] o = "unc" -> Pt(Uncompressed(p, bytes))
      [] o = "map" -> Okv(MapTo(p, A[1]))
      [] o = "hash" -> Okv(HashTo(p, bytes, d))
      \* to be on the curve, and (by later steps) a homomorphism
      [] o = "iso" -> IF seen # <<>> /\ OnCurve(p, seen) THEN Okv(seen) ELSE [ok |-> seen # <<>>, v |-> VZero(2 * d)]
      [] o = "mapg" -> IF seen # <<>> /\ OnCurve(p, seen) /\ Ordered(p, seen) THEN Okv(seen) ELSE [ok |-> seen # <<>>, v |-> VZero(2 * d)]
      [] o = "eq" -> If(A[1] = A[2])
      [] o = "oncurve" -> If(OnCurve(p, A[1]) \/ IsZ(A[1]))
ZSum(s) == FoldLeft(LAMBDA a, b : ZAdd(a, b), "0", s)
StepPair(p, o, A, w) ==
    CASE o \in {"oncurve", "ontwist"} -> If(OnCurve(p, A[1]) \/ IsZ(A[1]))
      [] o \in {"ong1", "ong2"} -> If(OnCurve(p, A[1]) /\ Ordered(p, A[1]))
      \* multiples w of the generators, whose products have to add up to zero
      [] o = "check" ->
           LET n == Len(A) \div 2
               m(i) == IF w[i] = "-1" THEN NegP(p, IF i <= n THEN G1Gen ELSE G2Gen) ELSE Times(p, IF i <= n THEN G1Gen ELSE G2Gen, w[i])
               \* the driver's points are what it says
           IN IF \A i \in 1..Len(A) : A[i] = m(i)
              THEN If(ZMod(ZSum([i \in 1..n |-> ZMul(FInt(RF, w[i]), FInt(RF, w[n + i]))]), RF) = "0")
              ELSE [ok |-> TRUE, v |-> <<"driver">>]

\* of the limbs x
Elem(p, x) == ZMod(ZBig(x, 8), p)
Fits(x, n) == (\A i \in 1..Len(x) : ZLt(Z(x[i]), "256")) /\ ZLt(ZBig(x, 8), ZPow2(n))
EvStep(p, s, A, x, seen) ==
    LET o == s.o
        op == s.op
    IN CASE o = "i.in" -> IF \A i \in 1..s.n : Fits(Slice(x, s.at + 48 * (i - 1), 48), 381)
                          THEN Okv([i \in 1..s.n |-> Elem(p, Slice(x, s.at + 48 * (i - 1), 48))]) ELSE No
         [] o = "i.rin" -> IF Fits(Slice(x, s.at, 32), 255) THEN Okv(<<Elem(p, Slice(x, s.at, 32))>>) ELSE No
         [] o = "i.bit" -> Okv(<<ToString(x[s.at + 1])>>)
         [] o = "i.pack" -> Okv(FlattenSeq(A))
         [] s.lvl \in {"r", "e"} -> Basic(p, op, A, s.c, 1)
         [] s.lvl = "2" -> Step2(p, op, A, s.c)
         [] s.lvl = "6" -> Step6(p, op, A, s.c)
         [] s.lvl = "12" -> Step12(p, op, A, s.c, s.n)
         [] s.lvl \in {"p", "c"} -> StepP(p, 1, op, A, s.n, IF op = "unc" THEN Slice(x, s.at, 48) ELSE IF op = "hash" THEN Slice(x, s.at, 32) ELSE <<>>, seen)
         [] s.lvl = "q" -> StepP(p, 2, op, A, s.n, IF op = "unc" THEN Slice(x, s.at, 96) ELSE IF op = "hash" THEN Slice(x, s.at, 32) ELSE <<>>, seen)
         [] s.lvl = "P" -> StepPair(p, op, A, s.w)
\* all steps, up to the first that refuses
Eval(p, ops, x, seen) ==
    FoldLeft(LAMBDA a, i :
        IF ~a.ok THEN a
        ELSE LET s == ops[i]
                 r == TLCEval(EvStep(p, s, [j \in 1..Len(s.a) |-> a.vs[s.a[j] + 1]], x, seen[i]))
             IN [ok |-> r.ok, vs |-> Append(a.vs, TLCEval(r.v))],
        [ok |-> TRUE, vs |-> <<>>], [i \in 1..Len(ops) |-> i])

\* what a step's elements are among the outputs
SeenOf(p, note, y) == TLCEval([j \in 1..Len(note) |-> Elem(p, Slice(y, note[j][1], note[j][2]))])
Sizes(note, y) == \A j \in 1..Len(note) : \A i \in 1..note[j][2] :
    ZLt(Z(y[note[j][1] + i]), IF note[j][2] = 1 THEN "2" ELSE ZPow2(8 + note[j][3]))
EmuBad(L, C) ==
    LET p == IF L.k[1] = 0 THEN RF ELSE PF
        ops == L.ops
        D == C.dbg[1]
        acc == D.st = "ok"
        seen == TLCEval([i \in 1..Len(ops) |-> IF acc THEN SeenOf(p, L.notes[i], D.v) ELSE <<>>])
        R == TLCEval(Eval(p, ops, C.x, seen))
        names == {ops[i].o : i \in 1..Len(ops)}
        wrong == IF acc /\ R.ok THEN {ops[i].o : i \in {i \in 1..Len(ops) : R.vs[i] # seen[i] \/ ~Sizes(L.notes[i], D.v)}} ELSE {}
        \* an isogeny isn't expected when the circuit refused
        known == acc \/ names \cap {"p.iso", "q.iso", "p.mapg", "q.mapg"} = {}
        lie == L.adv % 10
        \* what is wrong with what was accepted
        wr == (IF ~acc \/ R.ok THEN {} ELSE {"accepted: " \o ToString(ops[IF Len(R.vs) = 0 THEN 1 ELSE Len(R.vs)].o)}) \cup {"wrong result of " \o o : o \in wrong}
        decided == \E o \in wrong \cup (IF R.ok THEN {} ELSE names) : o \in {"e.iszero", "r.iszero", "2.iszero", "6.iszero", "12.iszero", "e.sign", "r.sign", "2.sign"}
    IN (IF wr = {} THEN {}
        ELSE IF lie = 8 THEN {"accepted a product that is only right modulo 2^31 - 1"}
        ELSE IF lie \in {2, 6} /\ decided
             THEN {"accepted the sign or the zero test of a number that is not reduced"}
        ELSE wr)
       \cup Bad(acc \/ ~known \/ ~R.ok \/ L.adv > 0, "refused")
       \cup (IF Len(C.runs) = 0 THEN {}
             ELSE Bad(lie > 0 \/ AllTrue(C.runs[1].oks) = (acc /\ C.runs[1].y = D.v), "compiled circuit")
                  \cup UNION {Bad(~AllTrue(C.runs[j].oks), "compiled circuit accepts another result") : j \in 2..Len(C.runs)})

EExpect(L, x) == Rej
EHolds(L, x) == TRUE
ENext ==
    LET L == Lines[l]
    IN /\ k < Len(L.cases)
       /\ k' = k + 1
       /\ bad' = Bad(L.comp \in {"ok", "none"}, "compile") \cup EmuBad(L, L.cases[k + 1])
       /\ Report(L, k + 1, bad')
       /\ UNCHANGED l
ESpec == Init /\ [][ENext]_vars
=============================================================================
