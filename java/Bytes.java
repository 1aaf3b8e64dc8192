import java.math.BigInteger;
import tlc2.value.impl.*;

/** Overrides for Bytes.tla: matching tokens against bytes given as a hex string. */
public class Bytes {
    static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        return new BigInteger(((StringValue) v).getVal().toString());
    }
    public static Value Match(final Value p, final Value fs, final Value toks, final Value hex, final Value exact) {
        String h = ((StringValue) hex).getVal().toString();
        int f = ((IntValue) fs).val;
        boolean ex = ((BoolValue) exact).val;
        BigInteger mod = big(p);
        TupleValue t = (TupleValue) toks.toTuple();
        int at = 0;
        for (Value e : t.elems) {
            TupleValue tok = (TupleValue) e.toTuple();
            String kind = ((StringValue) tok.elems[0]).getVal().toString();
            int w = kind.equals("b") ? 1 : kind.equals("w") ? 8 : kind.equals("m") ? 32 : f;
            if ((at + w) * 2 > h.length()) return IntValue.gen(-1);
            StringBuilder s = new StringBuilder();
            for (int i = w - 1; i >= 0; i--) s.append(h, (at + i) * 2, (at + i) * 2 + 2);
            BigInteger x = new BigInteger(s.toString(), 16);
            if (kind.equals("f") && !ex) x = x.mod(mod);
            if (!x.equals(big(tok.elems[1]))) return IntValue.gen(-1);
            at += w;
        }
        return IntValue.gen(at);
    }
    public static Value Small(final Value toks) {
        TupleValue t = (TupleValue) toks.toTuple();
        for (Value e : t.elems) {
            TupleValue tok = (TupleValue) e.toTuple();
            if (!(tok.elems[1] instanceof IntValue)) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
}
