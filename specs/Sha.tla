-------------------------------- MODULE Sha --------------------------------
(* SHA-256 of bits, and the pieces it is made of.  A word is its two halves  *)
(* of 16 bits, the high one first.                                           *)
EXTENDS StdBase, Bitwise

H16 == 65536
Pow2_16 == [n \in 0..16 |-> 2^n]
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<H16 - 1 - a[1], H16 - 1 - a[2]>>
WAdd(a, b) ==
    LET lo == a[2] + b[2]
        hi == a[1] + b[1] + (lo \div H16)
    IN <<hi % H16, lo % H16>>
\* a half of the bits of hi over lo, shifted right by 0 < n < 16
Part(hi, lo, n) == (lo \div Pow2_16[n]) + ((hi % Pow2_16[n]) * Pow2_16[16 - n])
WRot(a, m) ==
    LET n == m % 16
        s == IF (m \div 16) % 2 = 1 THEN <<a[2], a[1]>> ELSE a
    IN IF n = 0 THEN s ELSE <<Part(s[2], s[1], n), Part(s[1], s[2], n)>>
WShr(a, m) ==
    LET n == m % 16
        s == IF m >= 32 THEN <<0, 0>> ELSE IF m >= 16 THEN <<0, a[1]>> ELSE a
    IN IF n = 0 \/ m >= 32 THEN s ELSE <<s[1] \div Pow2_16[n], Part(s[1], s[2], n)>>
Sig0(a) == WXor(WXor(WRot(a, 7), WRot(a, 18)), WShr(a, 3))
Sig1(a) == WXor(WXor(WRot(a, 17), WRot(a, 19)), WShr(a, 10))
Cap0(a) == WXor(WXor(WRot(a, 2), WRot(a, 13)), WRot(a, 22))
Cap1(a) == WXor(WXor(WRot(a, 6), WRot(a, 11)), WRot(a, 25))
WCh(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
WMaj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))

------------------------------------------------------------------------------
\* the constants: the first 32 bits of the fractional parts of the cube roots
\* of the first 64 primes, and of the square roots of the first eight
Primes == SetToSortSeq({n \in 2..311 : \A d \in 2..(n - 1) : n % d # 0}, LAMBDA a, b : a < b)
\* the largest r with r^e <= a, bit by bit
Root(a, e, bits) ==
    FoldLeft(LAMBDA r, j :
                LET t == ZAdd(r, ZPow2(j))
                IN IF ZLe(FPow(HUGE, t, e), a) THEN t ELSE r,
             "0", [j \in 1..bits |-> bits - j])
AsWord(z) ==
    LET hi == IMod(H16, ZDiv(z, Z(H16)), H16)
        lo == IMod(H16, z, H16)
    IN <<hi, lo>>
K256 == TLCEval([j \in 1..64 |-> AsWord(Root(ZMul(Z(Primes[j]), ZPow2(96)), 3, 36))])
IV256 == TLCEval([j \in 1..8 |-> AsWord(Root(ZMul(Z(Primes[j]), ZPow2(64)), 2, 36))])

Schedule(m) ==
    FoldLeft(LAMBDA w, t : Append(w, WAdd(WAdd(Sig1(w[t - 2]), w[t - 7]), WAdd(Sig0(w[t - 15]), w[t - 16]))),
             m, [j \in 1..48 |-> 16 + j])
Round(s, t, w) ==
    LET t1 == WAdd(WAdd(WAdd(s[8], Cap1(s[5])), WAdd(WCh(s[5], s[6], s[7]), K256[t])), w[t])
        t2 == WAdd(Cap0(s[1]), WMaj(s[1], s[2], s[3]))
    IN <<WAdd(t1, t2), s[1], s[2], s[3], WAdd(s[4], t1), s[5], s[6], s[7]>>
Compress(s, m) ==
    LET w == Schedule(m)
        r == FoldLeft(LAMBDA q, t : Round(q, t, w), s, [t \in 1..64 |-> t])
    IN [j \in 1..8 |-> WAdd(s[j], r[j])]

\* bits, most significant first
Val(b) == FoldLeft(LAMBDA a, v : 2 * a + v, 0, b)
Words(b) == [i \in 1..(Len(b) \div 32) |-> <<Val(Slice(b, 32 * (i - 1), 16)), Val(Slice(b, 32 * (i - 1) + 16, 16))>>]
HalfBits(h) == [j \in 1..16 |-> (h \div Pow2_16[16 - j]) % 2]
WordBits(w) == HalfBits(w[1]) \o HalfBits(w[2])
WordBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
ByteBits(v) == [j \in 1..8 |-> (v \div Pow2_16[8 - j]) % 2]
Zeros(n) == [j \in 1..n |-> 0]
\* a one, zeros, and the length in 64 bits
Padded(b) ==
    LET n == Len(b)
        z == (960 - ((n + 1) % 512)) % 512
    IN b \o <<1>> \o Zeros(z) \o Zeros(48) \o HalfBits(n)
Digest(b) ==
    LET m == Words(Padded(b))
    IN FoldLeft(LAMBDA s, i : Compress(s, Slice(m, 16 * (i - 1), 16)), IV256, [i \in 1..(Len(m) \div 16) |-> i])
DigestBytes(b) == FlattenSeq([j \in 1..8 |-> WordBytes(Digest(b)[j])])
BytesDigest(x) == LET d == TLCEval(Digest(FlattenSeq([j \in 1..Len(x) |-> ByteBits(x[j])]))) IN FlattenSeq([j \in 1..8 |-> WordBytes(d[j])])

------------------------------------------------------------------------------
\* numbers of at most 16 bits from field values, and back
Num(p, v) == IMod(H16, v, H16)
Nums(p, x) == [j \in 1..Len(x) |-> Num(p, x[j])]
Back(p, s) == [j \in 1..Len(s) |-> FInt(p, s[j])]
Ok_(p, s) == Ok(Back(p, s))
\* 37 bytes: nine words with their least significant bit first, then a byte with its most significant bit first
Unpack(b) ==
    [i \in 1..296 |-> IF i <= 288 THEN LET w == (i - 1) \div 32 IN b[32 * w + 32 - ((i - 1) % 32)] ELSE b[i]]
PackedDigest(b) == LET d == TLCEval(Digest(Unpack(b))) IN FlattenSeq([j \in 1..8 |-> WordBytes(d[j])])
HExpect(L, x) ==
    LET p == L.p
        g == L.g
        n == Nums(p, x)
        small == \A j \in 1..Len(x) : IFits(p, x[j], 8)
        w == Words(n)
        kw == <<L.k[1], L.k[2]>>
        out(v) == Ok(WordBits(v))
        batch(c) == FlattenSeq([i \in 1..c |-> PackedDigest(Slice(n, 296 * (i - 1), 296))])
        checked(d, rest) == IF Back(p, d) = rest THEN Ok_(p, d) ELSE Rej
    IN CASE g = "sha" -> Ok(LET d == TLCEval(Digest(n)) IN FlattenSeq([j \in 1..8 |-> WordBits(d[j])]))
         [] g = "compress" ->
              Ok(LET d == TLCEval(Compress(Slice(w, 0, 8), Slice(w, 8, 16))) IN FlattenSeq([j \in 1..8 |-> WordBits(d[j])]))
         [] g = "g_rotate_right" -> out(WRot(w[1], L.k[1]))
         [] g = "g_shift_right" -> out(WShr(w[1], L.k[1]))
         [] g = "g_ch" -> out(WCh(w[1], w[2], w[3]))
         [] g = "g_maj" -> out(WMaj(w[1], w[2], w[3]))
         [] g = "g_sigma0" -> out(Sig0(w[1]))
         [] g = "g_sigma1" -> out(Sig1(w[1]))
         [] g = "g_cap_sigma0" -> out(Cap0(w[1]))
         [] g = "g_cap_sigma1" -> out(Cap1(w[1]))
         [] g \in {"g_add", "g_add_brentkung", "g_add_vanilla"} -> out(WAdd(w[1], w[2]))
         [] g = "g_add_const" -> out(WAdd(w[1], kw))
         [] g = "g_sum_all" -> out(FoldLeft(LAMBDA a, b : WAdd(a, b), <<0, 0>>, w))
         [] g = "g_xor" -> out(WXor(w[1], w[2]))
         [] g = "g_and" -> out(WAnd(w[1], w[2]))
         [] g = "g_not" -> out(WNot(w[1]))
         [] g = "g_u32" -> out(kw)
         [] g = "g_u64" -> Ok(WordBits(kw) \o WordBits(<<L.k[3], L.k[4]>>))
         [] g \in {"sha_bytes", "sha_37"} -> IF small THEN Ok_(p, BytesDigest(n)) ELSE Rej
         [] g = "sha_37_bits" -> Ok_(p, PackedDigest(n))
         [] g = "sha_37_batch" -> Ok_(p, batch(L.k[1]))
         [] g = "check_37" -> checked(TLCEval(BytesDigest(Slice(n, 0, 37))), Slice(x, 37, 32))
         [] g = "check_37_bits" -> checked(TLCEval(PackedDigest(Slice(n, 0, 296))), Slice(x, 296, 32))
         [] g = "check_37_batch" -> checked(TLCEval(batch(L.k[1])), Slice(x, 296 * L.k[1], 32 * L.k[1]))
HHolds(L, x) == FALSE
=============================================================================
