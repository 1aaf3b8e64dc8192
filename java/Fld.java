import java.math.BigInteger;
import tlc2.value.impl.*;

/** Big-integer overrides for Fld.tla (loaded by TLC because of its name). */
public class Fld {
    static final BigInteger LIM = BigInteger.valueOf(2147483647L);

    static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        return new BigInteger(((StringValue) v).getVal().toString());
    }
    static boolean small(Value p) { return p instanceof IntValue; }
    static long l(Value v) { return ((IntValue) v).val; }
    static Value mk(Value p, BigInteger x) {
        if (small(p)) return IntValue.gen(x.intValueExact());
        return new StringValue(x.toString());
    }
    static Value mk(long x) { return IntValue.gen((int) x); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value FZero(final Value p) { return small(p) ? mk(0) : new StringValue("0"); }
    public static Value FOne(final Value p) { return small(p) ? mk(1 % l(p)) : new StringValue("1"); }
    public static Value FInt(final Value p, final Value n) {
        if (small(p) && small(n)) return mk(Math.floorMod(l(n), l(p)));
        return mk(p, big(n).mod(big(p)));
    }
    public static Value FAdd(final Value p, final Value a, final Value b) {
        if (small(p)) return mk((l(a) + l(b)) % l(p));
        return mk(p, big(a).add(big(b)).mod(big(p)));
    }
    public static Value FSub(final Value p, final Value a, final Value b) {
        if (small(p)) return mk((l(a) + l(p) - l(b)) % l(p));
        return mk(p, big(a).subtract(big(b)).mod(big(p)));
    }
    public static Value FNeg(final Value p, final Value a) {
        if (small(p)) return mk((l(p) - l(a)) % l(p));
        return mk(p, big(a).negate().mod(big(p)));
    }
    public static Value FMul(final Value p, final Value a, final Value b) {
        if (small(p)) return mk((l(a) * l(b)) % l(p));
        return mk(p, big(a).multiply(big(b)).mod(big(p)));
    }
    public static Value FPow(final Value p, final Value a, final Value e) {
        BigInteger E = big(e);
        if (E.signum() >= 0 && E.bitLength() <= 7) return mk(p, big(a).pow(E.intValue()).mod(big(p)));
        return mk(p, big(a).modPow(E, big(p)));
    }
    public static Value FInv(final Value p, final Value a) {
        return mk(p, big(a).modInverse(big(p)));
    }
    public static Value FLt(final Value p, final Value a, final Value b) { return bool(big(a).compareTo(big(b)) < 0); }
    public static Value FLe(final Value p, final Value a, final Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
    public static Value IDiv(final Value p, final Value a, final Value b) { return mk(p, big(a).divide(big(b)).mod(big(p))); }
    public static Value IMod(final Value p, final Value a, final Value b) { return mk(p, big(a).mod(big(b)).mod(big(p))); }
    public static Value IOr(final Value p, final Value a, final Value b) { return mk(p, big(a).or(big(b)).mod(big(p))); }
    public static Value IAnd(final Value p, final Value a, final Value b) { return mk(p, big(a).and(big(b)).mod(big(p))); }
    public static Value IXor(final Value p, final Value a, final Value b) { return mk(p, big(a).xor(big(b)).mod(big(p))); }
    static BigInteger shl(BigInteger p, BigInteger a, BigInteger k) {
        int bl = p.bitLength();
        if (k.compareTo(BigInteger.valueOf(bl)) >= 0) return BigInteger.ZERO;
        return a.shiftLeft(k.intValueExact()).mod(BigInteger.ONE.shiftLeft(bl));
    }
    static BigInteger shr(BigInteger p, BigInteger a, BigInteger k) {
        if (k.compareTo(BigInteger.valueOf(p.bitLength())) >= 0) return BigInteger.ZERO;
        return a.shiftRight(k.intValueExact());
    }
    public static Value IShL(final Value p, final Value a, final Value k) {
        BigInteger P = big(p), K = big(k);
        boolean low = K.compareTo(P.shiftRight(1)) <= 0;
        return mk(p, (low ? shl(P, big(a), K) : shr(P, big(a), P.subtract(K))).mod(P));
    }
    public static Value IShR(final Value p, final Value a, final Value k) {
        BigInteger P = big(p), K = big(k);
        boolean low = K.compareTo(P.shiftRight(1)) <= 0;
        return mk(p, (low ? shr(P, big(a), K) : shl(P, big(a), P.subtract(K))).mod(P));
    }
    public static Value IBits(final Value p, final Value a, final Value n) {
        int k = ((IntValue) n).val;
        BigInteger A = big(a), P = big(p);
        Value[] r = new Value[k];
        for (int i = 0; i < k; i++) r[i] = mk(p, (A.testBit(i) ? BigInteger.ONE : BigInteger.ZERO).mod(P));
        return new TupleValue(r);
    }
    public static Value IFits(final Value p, final Value a, final Value n) {
        return bool(big(a).bitLength() <= ((IntValue) n).val);
    }
    public static Value FIsBool(final Value p, final Value a) {
        BigInteger A = big(a);
        return bool(A.signum() == 0 || A.equals(BigInteger.ONE));
    }
    public static Value FBits(final Value p) { return IntValue.gen(big(p).bitLength()); }
    static long mix(long h, long[] xs) {
        h = (h * 7 + 3) % 10007;
        for (long x : xs) h = (h * h + x * 263 + 17) % 10007;
        return h;
    }
    public static Value Mix(final Value h, final Value xs) {
        TupleValue t = (TupleValue) xs.toTuple();
        long[] a = new long[t.elems.length];
        for (int i = 0; i < a.length; i++) a[i] = l(t.elems[i]);
        return mk(mix(l(h), a));
    }
    public static Value FRand(final Value p, final Value h) {
        long x = mix(l(h), new long[] {1, 5, 11});
        if (small(p)) return mk(x % l(p));
        return mk(p, BigInteger.valueOf(x).mod(big(p)));
    }
}
