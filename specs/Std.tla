-------------------------------- MODULE Std --------------------------------
(* Lookup tables, range proofs, matrix products, integers of 2048 bits and   *)
(* the small helpers of the standard circuits.                               *)
EXTENDS StdBase

------------------------------------------------------------------------------
\* a lookup argument: every row is counted as often as it is queried (modulo p)
Counted(p, table, counts, queries) ==
    LET all == ToSet(table) \cup ToSet(queries)
        num(r) == SumF(p, [i \in 1..Len(table) |-> IF table[i] = r THEN counts[i] ELSE FZero(p)])
        ask(r) == FInt(p, Cardinality({i \in 1..Len(queries) : queries[i] = r}))
    IN \A r \in all : num(r) = ask(r)
LogUp(L, x) ==
    LET kl == L.k[1]
        vl == L.k[2]
        n == L.k[3]
        q == L.k[4]
        keys == Rows(x, 0, n, kl)
        vals == Rows(x, n * kl, n, vl)
        qk == Rows(x, n * (kl + vl), q, kl)
        qv == Rows(x, n * (kl + vl) + q * kl, q, vl)
    IN Counted(L.p, [i \in 1..n |-> keys[i] \o vals[i]], Slice(x, (n + q) * (kl + vl), n), [i \in 1..q |-> qk[i] \o qv[i]])
Single(L, x) ==
    LET w == L.k[1] + 1
        n == L.k[2]
        q == L.k[3]
        t == Rows(x, 0, n, w)
        s == Rows(x, n * w, q, w)
    IN IF L.k[4] = 1 THEN Counted(L.p, t, Slice(x, (n + q) * w, n), s)
       ELSE \A i \in 1..q : \E j \in 1..n : s[i] = t[j]
\* every value is below 2^n
InRanges(L, x) == \A i \in 1..Len(x) : IFits(L.p, x[i], L.k[i + 1])
\* the same variables against several ranges
InSeveral(L, x) ==
    \A j \in 1..((Len(L.k) - 2) \div 2) : IFits(L.p, x[L.k[2 * j + 1] + 1], L.k[2 * j + 2])
InRange(L, x) ==
    LET q == L.k[2] IN
    /\ \A i \in 1..q : IFits(L.p, x[i], L.k[1])
    /\ L.k[3] = 1 =>
          \A v \in 0..(2^L.k[1] - 1) :
              x[q + v + 1] = FInt(L.p, Cardinality({i \in 1..q : x[i] = FInt(L.p, v)}))
MatMul(L, x) ==
    LET p == L.p
        m1 == L.k[1]
        n1 == L.k[2]
        m2 == L.k[3]
        n2 == L.k[4]
        a == Rows(x, 0, m1, n1)
        b == Rows(x, m1 * n1, m2, n2)
        c == Rows(x, m1 * n1 + m2 * n2, m1, n2)
    IN /\ n1 = m2
       /\ \A i \in 1..m1 : \A j \in 1..n2 : c[i][j] = SumF(p, [t \in 1..n1 |-> FMul(p, a[i][t], b[t][j])])

------------------------------------------------------------------------------
\* integers in 18 limbs of 120 bits
Wide(x, i) == ZBig(Slice(x, 18 * i, 18), 120)
WideAdd(x) ==
    LET c == Z(x[73]) IN
    /\ c \in {"0", "1"}
    /\ ZAdd(Wide(x, 0), Wide(x, 1)) = ZAdd(Wide(x, 2), ZMul(c, Wide(x, 3)))
    /\ ZLt(Wide(x, 2), Wide(x, 3))
WideMul(x) == ZMul(Wide(x, 0), Wide(x, 1)) = ZAdd(Wide(x, 2), ZMul(Wide(x, 4), Wide(x, 3)))
Limbs(p, a, w, n) == [j \in 1..n |-> FInt(p, ZLimb(a, w, j - 1))]
Flag(p, b) == <<IF b THEN FOne(p) ELSE FZero(p)>>
WideFn(L, x) ==
    LET p == L.p
        a == Wide(x, 0)
        b == Wide(x, 1)
        s == FoldLeft(LAMBDA t, v : ZAdd(t, Z(v)), "0", x)
    IN CASE L.g = "w_less" -> Flag(p, ZLt(a, b))
         [] L.g \in {"w_geq", "w_ugeq"} -> Flag(p, ZLe(b, a))
         [] L.g = "w_eq" -> Flag(p, a = b)
         [] L.g = "w_mul" -> Limbs(p, ZMul(a, b), 120, 36)
         [] L.g = "w_acc" -> <<FInt(p, ZMod(s, ZPow2(120))), FInt(p, ZDiv(s, ZPow2(120)))>>
         [] L.g = "w_bytes" -> Limbs(p, Z(x[1]), 8, 32)
         [] L.g = "w_masks" ->
               <<FInt(p, ZPow2(120)), FInt(p, ZSub(ZPow2(120), "1")), FInt(p, ZSub(ZPow2(60), "1")), FInt(p, "255")>>

\* the RSA circuit: x, n, the powers x^2, x^4, .., x^65536, x^65537, the quotients, the result
Rsa(x) ==
    LET w == TLCEval([i \in 0..36 |-> Wide(x, i)])
        Step(a, b, i) == ZMul(a, b) = ZAdd(w[2 + i], ZMul(w[19 + i], w[1]))
    IN /\ Step(w[0], w[0], 0)
       /\ \A i \in 1..15 : Step(w[1 + i], w[1 + i], i)
       /\ Step(w[0], w[17], 16)
       /\ \A j \in 1..18 : x[18 * 18 + j] = x[36 * 18 + j]
\* its arithmetic on numbers
RsaFn(L, x) ==
    LET p == L.p
        a == Wide(x, 0)
        b == Wide(x, 1)
        Two(v) == <<FInt(p, ZMod(v, ZPow2(120))), FInt(p, ZDiv(v, ZPow2(120)))>>
    IN CASE L.g = "r_add" -> Two(ZAdd(ZAdd(Z(x[1]), Z(x[2])), Z(x[3])))
         [] L.g = "r_mul" -> Two(ZAdd(ZMul(Z(x[1]), Z(x[2])), Z(x[3])))
         [] L.g = "r_mulmod" -> Limbs(p, ZMod(ZMul(a, b), Wide(x, 2)), 120, 18) \o Limbs(p, ZDiv(ZMul(a, b), Wide(x, 2)), 120, 18)
         [] L.g = "r_modmul" -> Limbs(p, ZMod(ZMul(a, b), Wide(x, 2)), 120, 18)
         [] L.g = "r_addition" -> Flag(p, ZAdd(a, b) = ZAdd(Wide(x, 2), ZMul(Wide(x, 4), Wide(x, 3))))
         [] L.g = "r_multiplication" -> Flag(p, WideMul(x))
         [] L.g = "r_hex" -> [j \in 1..540 |-> FInt(p, ZLimb(a, 4, 540 - j))] \o x
         [] L.g = "r_limbs" -> x \o x

------------------------------------------------------------------------------
\* bits and limbs: a bit decomposition of a value that does not fit is refused
Half(x) == Len(x) \div 2
AllFit(p, s, n) == \A j \in 1..Len(s) : IFits(p, s[j], n)
If(b, v) == IF b THEN Ok(v) ELSE Rej
\* bits as numbers, and back
Bit(p, v) == IF v = FZero(p) THEN 0 ELSE 1
Bits(p, x) == [j \in 1..Len(x) |-> Bit(p, x[j])]
Back(p, s) == [j \in 1..Len(s) |-> FInt(p, s[j])]
FromBits(p, x) == FoldRight(LAMBDA v, acc : FAdd(p, v, FAdd(p, acc, acc)), x, FZero(p))
P2(p, n) == FPow(p, FInt(p, 2), n)
\* words of 32 bits, least significant first
Rot(s, n) == [j \in 1..32 |-> s[((j - 1 + n) % 32) + 1]]
Shr(s, n, z) == [j \in 1..32 |-> IF j + n <= 32 THEN s[j + n] ELSE z]
Xor3(a, b, c) == [j \in 1..32 |-> (a[j] + b[j] + c[j]) % 2]
Ch(x, y, z) == [j \in 1..32 |-> IF x[j] = 1 THEN y[j] ELSE z[j]]
Maj(x, y, z) == [j \in 1..32 |-> IF x[j] + y[j] + z[j] > 1 THEN 1 ELSE 0]
\* limb by limb with carries of one bit; the limbs in where are reduced to n bits
Carry(p, a, b, n, where) ==
    FoldLeft(LAMBDA s, j :
                LET t == FAdd(p, FAdd(p, a[j], b[j]), s.c)
                    w == where[j]
                IN IF w < 0 THEN [s EXCEPT !.v = Append(@, t), !.c = FZero(p)]
                   ELSE LET c == IF IFits(p, t, w) THEN FZero(p) ELSE FOne(p)
                        IN [v |-> Append(s.v, FSub(p, t, FMul(p, c, P2(p, w)))), c |-> c, ok |-> s.ok /\ IFits(p, t, w + 1)],
             [v |-> <<>>, c |-> FZero(p), ok |-> TRUE], [j \in 1..Len(a) |-> j])
CarryOut(r) == If(r.ok, r.v)
\* the bytes of a value of n bytes, most significant first; the first takes what is left
Put(p, v, n, extra) ==
    LET q(j) == IDiv(p, v, P2(p, 8 * j))
    IN If(IFits(p, v, 30),
          [i \in 1..n |-> LET j == n - i IN IF i = 1 THEN FAdd(p, IDiv(p, v, ZPow2(8 * j)), extra) ELSE IMod(p, IDiv(p, v, ZPow2(8 * j)), FInt(p, 256))])
BigInt(p, z, w, n) == [j \in 1..n |-> FInt(p, ZLimb(z, w, j - 1))]
BitsFn(L, x) ==
    LET p == L.p
        g == L.g
        h == Half(x)
        b == Bits(p, x)
        wd(i) == Slice(b, 32 * i, 32)
        zero == FZero(p)
        lt(a, c, n) == ZLt(ZBig(a, n), ZBig(c, n))
    IN CASE g = "bytes_to_bits" ->
              If(AllFit(p, x, 8), FoldLeft(LAMBDA s, v : IBits(p, v, 8) \o s, <<>>, x))
         [] g = "right_shift" -> Ok(Shr(x, L.k[1], zero))
         [] g = "rotate_right" -> Ok(Rot(x, L.k[1]))
         [] g = "sigma0" -> Ok(Back(p, Xor3(Rot(b, 7), Rot(b, 18), Shr(b, 3, 0))))
         [] g = "sigma1" -> Ok(Back(p, Xor3(Rot(b, 17), Rot(b, 19), Shr(b, 10, 0))))
         [] g = "cap_sigma0" -> Ok(Back(p, Xor3(Rot(b, 2), Rot(b, 13), Rot(b, 22))))
         [] g = "cap_sigma1" -> Ok(Back(p, Xor3(Rot(b, 6), Rot(b, 11), Rot(b, 25))))
         [] g = "ch" -> Ok(Back(p, Ch(wd(0), wd(1), wd(2))))
         [] g = "maj" -> Ok(Back(p, Maj(wd(0), wd(1), wd(2))))
         [] g = "add_no_reduce" -> Ok([j \in 1..h |-> FAdd(p, x[j], x[h + j])])
         [] g = "add_reduce" -> CarryOut(Carry(p, Slice(x, 0, h), Slice(x, h, h), L.k[1], [j \in 1..h |-> L.k[1]]))
         [] g = "add_top" -> CarryOut(Carry(p, Slice(x, 0, h), Slice(x, h, h), L.k[1], [j \in 1..h |-> IF j < h THEN L.k[1] ELSE -1]))
         [] g = "add_26" -> CarryOut(Carry(p, Slice(x, 0, 2), Slice(x, 2, 2), 26, <<26, 6>>))
         [] g = "bits_to_30" -> Ok(<<FromBits(p, Slice(x, 0, 30)), FromBits(p, Slice(x, 30, Len(x) - 30))>>)
         [] g = "bits_to_26" -> Ok(<<FromBits(p, Slice(x, 0, 26)), FromBits(p, Slice(x, 26, Len(x) - 26))>>)
         [] g = "put32_30" -> Put(p, x[1], 4, FMul(p, x[2], FInt(p, 64)))
         [] g = "put32_26" -> Put(p, x[1], 4, FMul(p, x[2], FInt(p, 4)))
         [] g = "put64" -> Put(p, x[1], 8, zero)
         [] g = "to_bits" -> If(AllFit(p, x, 30), FoldLeft(LAMBDA s, v : s \o IBits(p, v, 30), <<>>, x))
         [] g = "to_bits_26" ->
              LET n == 7 + L.k[1]
                  high == FAdd(p, x[2], IDiv(p, x[1], FInt(p, 2^26)))
              IN If(IFits(p, x[1], 30) /\ IFits(p, high, n), IBits(p, x[1], 26) \o IBits(p, high, n))
         [] g = "from_binary" -> Ok(<<FromBits(p, x)>>)
         [] g = "big_is_zero" -> Ok(Flag(p, \A j \in 1..L.k[1] : x[j] = zero))
         [] g = "big_less_than" -> Ok(Flag(p, lt(Slice(x, 0, h), Slice(x, h, h), L.k[1])))
         [] g = "my_is_less" -> Ok(Flag(p, FLt(p, x[1], x[2])))
         [] g = "idiv_mod_bit" ->
              If(IFits(p, x[1], 30), <<IDiv(p, x[1], ZPow2(L.k[1])), IMod(p, x[1], ZPow2(L.k[1]))>>)
         [] g = "select" -> Ok(<<IF x[1] = zero THEN x[3] ELSE x[2]>>)
         [] g = "lookup2" -> Ok(<<x[3 + Bit(p, x[1]) + 2 * Bit(p, x[2])]>>)
         [] g = "bigint" -> Ok(BigInt(p, Z(L.ops), L.k[1], L.k[2]))
         [] g = "string" -> Ok(BigInt(p, Z(L.ops), L.k[1], 48))

------------------------------------------------------------------------------
SExpect(L, x) == IF L.g \in {"w_less", "w_geq", "w_ugeq", "w_eq", "w_mul", "w_acc", "w_bytes", "w_masks"} THEN Ok(WideFn(L, x))
                 ELSE IF L.g \in {"r_add", "r_mul", "r_mulmod", "r_modmul", "r_addition", "r_multiplication", "r_hex", "r_limbs"} THEN Ok(RsaFn(L, x))
                 ELSE BitsFn(L, x)
SHolds(L, x) ==
    CASE L.g = "logup" -> LogUp(L, x)
      [] L.g = "single" -> Single(L, x)
      [] L.g \in {"range", "chunk"} -> InRanges(L, x)
      [] L.g = "again" -> InSeveral(L, x)
      [] L.g = "inrange" -> InRange(L, x)
      [] L.g = "matmul" -> MatMul(L, x)
      [] L.g = "w_assert_add" -> WideAdd(x)
      [] L.g = "w_assert_mul" -> WideMul(x)
      [] L.g = "rsa" -> Rsa(x)
=============================================================================
