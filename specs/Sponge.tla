------------------------------- MODULE Sponge -------------------------------
(* Poseidon over the field of 2^31 - 1 elements.                             *)
EXTENDS StdBase, Keccak

M31 == 2147483647
\* "poseidon_seed_Mersenne 31_"
Seed == <<112, 111, 115, 101, 105, 100, 111, 110, 95, 115, 101, 101, 100, 95, 77, 101, 114, 115, 101, 110, 110, 101, 32, 51, 49, 95>>
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
\* the first four bytes, as a number modulo p
First(b) == FAdd(M31, FMul(M31, b[4], 16777216), b[1] + 256 * b[2] + 65536 * b[3])
\* n constants: hashes of hashes of the seed
Chain(width, n) ==
    LET hs == TLCEval(FoldLeft(LAMBDA s, j : Append(s, IF s = <<>> THEN KeccakBytes(Seed \o Digits(width)) ELSE KeccakBytes(s[Len(s)])),
                               <<>>, [j \in 1..(n + 1) |-> j]))
    IN TLCEval([j \in 1..n |-> First(hs[j + 1])])
Consts == TLCEval([w \in {8, 12, 16} |-> Chain(w, w * (IF w = 16 THEN 22 ELSE 7))])
Mds == [w \in {8, 12, 16} |->
          CASE w = 8 -> <<7, 1, 3, 8, 8, 3, 4, 9>>
            [] w = 12 -> <<1, 1, 2, 1, 8, 9, 10, 7, 5, 9, 4, 10>>
            [] w = 16 -> <<1, 1, 51, 1, 11, 17, 2, 1, 101, 63, 15, 2, 67, 22, 13, 3>>]
Pow5(v) == LET q == FMul(M31, v, v) IN FMul(M31, FMul(M31, q, q), v)
Mix_row(s, w, i) == SumF(M31, [j \in 1..w |-> FMul(M31, s[j], Mds[w][((i + j - 2) % w) + 1])])
\* one round: constants, mixing, then the fifth power of one or of all
PRound(s, w, r, all) ==
    LET a == TLCEval([j \in 1..w |-> FAdd(M31, s[j], Consts[w][w * (r - 1) + j])])
        m == TLCEval([i \in 1..w |-> Mix_row(a, w, i)])
    IN TLCEval([i \in 1..w |-> IF all \/ i = 1 THEN Pow5(m[i]) ELSE m[i]])
Permute(s, w, full, part) ==
    FoldLeft(LAMBDA q, r : PRound(q, w, r, r <= full \div 2 \/ r > full \div 2 + part), s, [r \in 1..(2 * (full \div 2) + part) |-> r])
\* blocks of the rate are added to the end of the state
Absorb(x, rate, w, full, part) ==
    LET n == (Len(x) + rate - 1) \div rate
        at(i) == IF i <= Len(x) THEN x[i] ELSE 0
        Step(s, b) ==
            Permute(TLCEval([j \in 1..w |-> IF j <= w - rate THEN s[j] ELSE FAdd(M31, s[j], at(rate * (b - 1) + j - (w - rate)))]), w, full, part)
    IN FoldLeft(Step, [j \in 1..w |-> 0], [b \in 1..n |-> b])
OExpect(L, x) ==
    Ok(IF L.g = "permute" THEN Permute(x, L.k[2], L.k[3], L.k[4]) ELSE Absorb(x, L.k[1], L.k[2], L.k[3], L.k[4]))
OHolds(L, x) == FALSE
=============================================================================
