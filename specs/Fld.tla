-------------------------------- MODULE Fld --------------------------------
(* Prime-field and integer arithmetic on canonical representatives 0..p-1.   *)
(* A value of a field with p < 2^31 is a TLC integer; of a larger field, a   *)
(* decimal string.  The definitions below are the mathematical ones and are  *)
(* exact for p <= 46340 (TLC integers have 32 bits).  /verif/java/Fld.java   *)
(* overrides them with the same functions on big integers; FldCheck.tla      *)
(* compares the override with these definitions on every operand of several  *)
(* small fields.                                                             *)
EXTENDS Integers, Sequences

FZero(p) == 0
FOne(p) == 1 % p
FInt(p, n) == n % p
FAdd(p, a, b) == (a + b) % p
FSub(p, a, b) == (a + p - b) % p
FNeg(p, a) == (p - a) % p
FMul(p, a, b) == (a * b) % p
RECURSIVE FPow_(_, _, _)
FPow_(p, a, e) ==
    IF e = 0 THEN 1 % p
    ELSE LET h == FPow_(p, a, e \div 2)
         IN IF e % 2 = 0 THEN FMul(p, h, h) ELSE FMul(p, a, FMul(p, h, h))
FPow(p, a, e) == FPow_(p, a, e)
\* multiplicative inverse of a # 0
FInv(p, a) == CHOOSE x \in 0..(p - 1) : FMul(p, a, x) = 1 % p
FLt(p, a, b) == a < b
FLe(p, a, b) == a <= b
IDiv(p, a, b) == (a \div b) % p            \* b # 0
IMod(p, a, b) == (a % b) % p               \* b # 0
RECURSIVE BitOp_(_, _, _)
BitOp_(op, a, b) ==
    IF a = 0 /\ b = 0 THEN 0
    ELSE LET x == a % 2
             y == b % 2
             z == IF op = "or" THEN (IF x + y > 0 THEN 1 ELSE 0)
                  ELSE IF op = "and" THEN x * y
                  ELSE (x + y) % 2
         IN z + 2 * BitOp_(op, a \div 2, b \div 2)
IOr(p, a, b) == BitOp_("or", a, b) % p
IAnd(p, a, b) == BitOp_("and", a, b) % p
IXor(p, a, b) == BitOp_("xor", a, b) % p
RECURSIVE BitLen_(_)
BitLen_(a) == IF a = 0 THEN 0 ELSE 1 + BitLen_(a \div 2)
RECURSIVE Pow2_(_)
Pow2_(k) == IF k = 0 THEN 1 ELSE 2 * Pow2_(k - 1)
\* circom's shifts: shift amounts above p/2 shift the other way by p - k
ShL_(p, a, k) == IF k >= BitLen_(p) THEN 0 ELSE (a * Pow2_(k)) % Pow2_(BitLen_(p))
ShR_(p, a, k) == IF k >= BitLen_(p) THEN 0 ELSE a \div Pow2_(k)
IShL(p, a, k) == (IF k <= p \div 2 THEN ShL_(p, a, k) ELSE ShR_(p, a, p - k)) % p
IShR(p, a, k) == (IF k <= p \div 2 THEN ShR_(p, a, k) ELSE ShL_(p, a, p - k)) % p
\* the n low bits of a, least significant first, as field values
RECURSIVE IBits(_, _, _)
IBits(p, a, n) == IF n = 0 THEN <<>> ELSE <<(a % 2) % p>> \o IBits(p, a \div 2, n - 1)
\* a < 2^n
IFits(p, a, n) == BitLen_(a) <= n
FIsBool(p, a) == a = 0 \/ a = 1 % p
\* number of bits of the modulus
FBits(p) == BitLen_(p)
\* a pseudo-random field value (random coefficients / challenges)
RECURSIVE Mix_(_, _)
Mix_(h, xs) == IF xs = <<>> THEN h ELSE Mix_((h * h + xs[1] * 263 + 17) % 10007, Tail(xs))
Mix(h, xs) == Mix_((h * 7 + 3) % 10007, xs)
FRand(p, h) == Mix(h, <<1, 5, 11>>) % p
=============================================================================
