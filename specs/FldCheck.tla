------------------------------ MODULE FldCheck ------------------------------
(* The Java overrides of Fld agree with the definitions written in TLA+.     *)
(* D is a copy of Fld under another name, which TLC does not override.       *)
EXTENDS Fld, TLC
D == INSTANCE FldDef
Primes == {2, 3, 5, 7, 13, 97}
VARIABLES p, a
Init == p \in Primes /\ a \in 0..(p - 1)
Next == UNCHANGED <<p, a>>
Same ==
    /\ FZero(p) = D!FZero(p) /\ FOne(p) = D!FOne(p) /\ FBits(p) = D!FBits(p)
    /\ FNeg(p, a) = D!FNeg(p, a)
    /\ FInt(p, a + 1000) = D!FInt(p, a + 1000)
    /\ FIsBool(p, a) = D!FIsBool(p, a)
    /\ a # 0 => FInv(p, a) = D!FInv(p, a)
    /\ FRand(p, a) = D!FRand(p, a)
    /\ Mix(a, <<p, 7>>) = D!Mix(a, <<p, 7>>)
    /\ \A n \in 0..9 : IBits(p, a, n) = D!IBits(p, a, n) /\ IFits(p, a, n) = D!IFits(p, a, n)
    /\ \A b \in 0..(p - 1) :
        /\ FAdd(p, a, b) = D!FAdd(p, a, b) /\ FSub(p, a, b) = D!FSub(p, a, b)
        /\ FMul(p, a, b) = D!FMul(p, a, b) /\ FPow(p, a, b) = D!FPow(p, a, b)
        /\ FLt(p, a, b) = D!FLt(p, a, b) /\ FLe(p, a, b) = D!FLe(p, a, b)
        /\ b # 0 => IDiv(p, a, b) = D!IDiv(p, a, b) /\ IMod(p, a, b) = D!IMod(p, a, b)
        /\ IOr(p, a, b) = D!IOr(p, a, b) /\ IAnd(p, a, b) = D!IAnd(p, a, b)
        /\ IXor(p, a, b) = D!IXor(p, a, b)
        /\ IShL(p, a, b) = D!IShL(p, a, b) /\ IShR(p, a, b) = D!IShR(p, a, b)
=============================================================================
