------------------------------- MODULE Keccak -------------------------------
(* Keccak-256 (the original padding) of a sequence of bytes.  A lane of 64   *)
(* bits is four numbers of 16 bits, the lowest first.                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bitwise

KPow2 == TLCEval([n \in 0..16 |-> 2^n])
KXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
KZero == <<0, 0, 0, 0>>
\* rotation by n towards higher bits
KRot(a, n) ==
    LET q == n \div 16
        r == n % 16
        at(j) == a[((j - 1 - q) % 4) + 1]
    IN TLCEval([j \in 1..4 |-> ((at(j) % KPow2[16 - r]) * KPow2[r]) + (at(j - 1) \div KPow2[16 - r])])

\* lane (x, y) of a state is s[x + 5 * y + 1]
KLn(s, x, y) == s[(x % 5) + 5 * (y % 5) + 1]
KTheta(s) ==
    LET c == TLCEval([x \in 1..5 |-> KXor(KXor(KXor(KXor(s[x], s[x + 5]), s[x + 10]), s[x + 15]), s[x + 20])])
        d == TLCEval([x \in 1..5 |-> KXor(c[((x + 3) % 5) + 1], KRot(c[(x % 5) + 1], 1))])
    IN TLCEval([i \in 1..25 |-> KXor(s[i], d[((i - 1) % 5) + 1])])
\* the rotation of lane (x, y): walk (x, y) -> (y, 2x + 3y) from (1, 0)
RECURSIVE KWalk(_, _, _, _)
KWalk(x, y, t, m) ==
    IF t = 24 THEN m
    ELSE KWalk(y, (2 * x + 3 * y) % 5, t + 1, [m EXCEPT ![x + 5 * y + 1] = (((t + 1) * (t + 2)) \div 2) % 64])
KRho == TLCEval(KWalk(1, 0, 0, [i \in 1..25 |-> 0]))
\* lane (x, y) moves to (y, 2x + 3y): the lane that comes to lane i
KFrom == TLCEval([i \in 1..25 |-> CHOOSE v \in 0..4 : (2 * v + 3 * ((i - 1) % 5)) % 5 = (i - 1) \div 5])
KRhoPi(s) ==
    TLCEval([i \in 1..25 |->
       LET y == (i - 1) % 5
           x == KFrom[i]
       IN KRot(KLn(s, x, y), KRho[x + 5 * y + 1])])
KChi(s) ==
    TLCEval([i \in 1..25 |->
       LET x == (i - 1) % 5
           y == (i - 1) \div 5
           a == KLn(s, x, y)
           b == KLn(s, x + 1, y)
           c == KLn(s, x + 2, y)
       IN TLCEval([j \in 1..4 |-> a[j] ^^ ((65535 - b[j]) & c[j])])])
\* the bits of the round constants: x^t in GF(2)[x] / x^8 + x^6 + x^5 + x^4 + 1
KLfsrStep(r) == IF r < 128 THEN 2 * r ELSE ((2 * r) % 256) ^^ 113
RECURSIVE KLfsr(_, _)
KLfsr(t, acc) == IF t = 0 THEN acc ELSE KLfsr(t - 1, Append(acc, KLfsrStep(acc[Len(acc)])))
\* bit m of the constant of round k sits at 2^m - 1
KRc ==
    LET q == TLCEval(KLfsr(200, <<1>>))
        b(k, m) == q[7 * k + m + 1] % 2
    IN TLCEval([k \in 0..23 |->
         <<b(k, 0) + 2 * b(k, 1) + 8 * b(k, 2) + 128 * b(k, 3) + 32768 * b(k, 4), 32768 * b(k, 5), 0, 32768 * b(k, 6)>>])
KIota(s, k) == TLCEval([s EXCEPT ![1] = KXor(@, KRc[k])])
KPermute(s0) == FoldLeft(LAMBDA s, k : KIota(KChi(KRhoPi(KTheta(s))), k), s0, [j \in 1..24 |-> j - 1])
KPadded(bytes) ==
    LET q == 136 - (Len(bytes) % 136)
    IN bytes \o (IF q = 1 THEN <<129>> ELSE <<1>> \o [j \in 1..(q - 2) |-> 0] \o <<128>>)
\* the bytes of the hash
KeccakDef(bytes) ==
    LET m == TLCEval(KPadded(bytes))
        Lane(k, i) == LET o == 136 * k + 8 * (i - 1) IN [j \in 1..4 |-> m[o + 2 * j - 1] + 256 * m[o + 2 * j]]
        Absorb(s, k) == KPermute(TLCEval([i \in 1..25 |-> IF i <= 17 THEN KXor(s[i], Lane(k, i)) ELSE s[i]]))
        f == TLCEval(FoldLeft(Absorb, [i \in 1..25 |-> KZero], [j \in 1..(Len(m) \div 136) |-> j - 1]))
    IN TLCEval([j \in 1..32 |->
         LET h == f[((j - 1) \div 8) + 1][(((j - 1) % 8) \div 2) + 1] IN IF j % 2 = 1 THEN h % 256 ELSE h \div 256])
\* the same; computed by java/Keccak.java, which has to agree
KeccakBytes(bytes) == KeccakDef(bytes)
ASSUME KeccakBytes(<<1, 2, 3>>) = KeccakDef(<<1, 2, 3>>)
ASSUME KeccakBytes([j \in 1..140 |-> j]) = KeccakDef([j \in 1..140 |-> j])
\* the first n <= 256 bits of the hash, the least significant bit of each byte first
Keccak(bytes, n) ==
    LET h == KeccakBytes(bytes) IN [j \in 1..n |-> (h[((j - 1) \div 8) + 1] \div KPow2[(j - 1) % 8]) % 2]
=============================================================================
