import tlc2.value.impl.*;

/** Keccak-256 as Keccak.tla defines it (KeccakDef), for speed; Keccak.tla compares the two. */
public class Keccak {
    private static final int[] RHO = new int[25];
    private static final int[] TO = new int[25];
    private static final long[] RC = new long[24];
    static {
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            RHO[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int z = (2 * x + 3 * y) % 5;
            x = y;
            y = z;
        }
        for (int i = 0; i < 25; i++) TO[i] = (i / 5) + 5 * ((2 * (i % 5) + 3 * (i / 5)) % 5);
        int r = 1;
        for (int k = 0; k < 24; k++)
            for (int m = 0; m < 7; m++) {
                if ((r & 1) == 1) RC[k] |= 1L << ((1 << m) - 1);
                r = r < 128 ? 2 * r : ((2 * r) % 256) ^ 113;
            }
    }
    public static Value KeccakBytes(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final int n = t.elems.length, q = 136 - n % 136;
        final byte[] m = new byte[n + q];
        for (int i = 0; i < n; i++) m[i] = (byte) ((IntValue) t.elems[i]).val;
        m[n] |= 1;
        m[n + q - 1] |= (byte) 128;
        long[] s = new long[25];
        for (int o = 0; o < m.length; o += 136) {
            for (int i = 0; i < 136; i++) s[i / 8] ^= (m[o + i] & 255L) << (8 * (i % 8));
            for (int k = 0; k < 24; k++) {
                final long[] c = new long[5], b = new long[25], w = new long[25];
                for (int i = 0; i < 25; i++) c[i % 5] ^= s[i];
                for (int i = 0; i < 25; i++) {
                    final long a = s[i] ^ c[(i + 4) % 5] ^ Long.rotateLeft(c[(i + 1) % 5], 1);
                    b[TO[i]] = Long.rotateLeft(a, RHO[i]);
                }
                for (int i = 0; i < 25; i++) {
                    final int r = 5 * (i / 5), x = i % 5;
                    w[i] = b[i] ^ (~b[r + (x + 1) % 5] & b[r + (x + 2) % 5]);
                }
                w[0] ^= RC[k];
                s = w;
            }
        }
        final Value[] out = new Value[32];
        for (int i = 0; i < 32; i++) out[i] = IntValue.gen((int) ((s[i / 8] >>> (8 * (i % 8))) & 255));
        return new TupleValue(out);
    }
}
