package verif;

import java.math.BigInteger;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Module override of Fr.tla: the same operators over the same representation
 * (20 little-endian limbs of 13 bits), computed with BigInteger.
 */
public final class FrOverrides implements ITLCOverrides {

    static final int NB_LIMBS = 20;
    static final int BITS = 13;
    static final int MASK = (1 << BITS) - 1;
    static final BigInteger P = new BigInteger(
            "21888242871839275222246405745257275088548364400416034343698204186575808495617");
    static final IntValue[] LIMB = new IntValue[MASK + 1];
    static {
        for (int i = 0; i <= MASK; i++) {
            LIMB[i] = IntValue.gen(i);
        }
    }

    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { FrOverrides.class };
    }

    /** A tuple of limbs that remembers the integer it stands for. */
    static final class FrValue extends TupleValue {
        final BigInteger big;

        FrValue(BigInteger b, Value[] limbs) {
            super(limbs);
            this.big = b;
        }
    }

    static FrValue make(BigInteger b) {
        long[] w = new long[5];
        BigInteger m = b;
        byte[] be = m.toByteArray();
        for (int i = 0; i < be.length; i++) {
            int pos = be.length - 1 - i; // little-endian byte position
            if ((be[i] & 0xff) != 0) {
                w[pos >> 3] |= ((long) (be[i] & 0xff)) << ((pos & 7) * 8);
            }
        }
        Value[] limbs = new Value[NB_LIMBS];
        for (int i = 0; i < NB_LIMBS; i++) {
            int bit = i * BITS;
            int word = bit >> 6, off = bit & 63;
            long v = w[word] >>> off;
            if (off + BITS > 64) {
                v |= w[word + 1] << (64 - off);
            }
            limbs[i] = LIMB[(int) (v & MASK)];
        }
        return new FrValue(b, limbs);
    }

    static BigInteger big(Value v) {
        if (v instanceof FrValue) {
            return ((FrValue) v).big;
        }
        Value t = v instanceof TupleValue ? v : v.toTuple();
        if (!(t instanceof TupleValue) || ((TupleValue) t).elems.length != NB_LIMBS) {
            throw new RuntimeException("not a field element: " + v);
        }
        Value[] e = ((TupleValue) t).elems;
        byte[] mag = new byte[33];
        long acc = 0;
        int n = 0, pos = 32;
        for (int i = 0; i < NB_LIMBS; i++) {
            acc |= ((long) ((IntValue) e[i]).val) << n;
            n += BITS;
            while (n >= 8 && pos >= 0) {
                mag[pos--] = (byte) acc;
                acc >>>= 8;
                n -= 8;
            }
        }
        if (pos >= 0) {
            mag[pos] = (byte) acc;
        }
        BigInteger b = new BigInteger(1, mag);
        if (b.compareTo(P) >= 0) {
            throw new RuntimeException("not a canonical field element: " + v);
        }
        return b;
    }

    @TLAPlusOperator(identifier = "FrAdd", module = "Fr", warn = false)
    public static Value frAdd(Value a, Value b) {
        BigInteger s = big(a).add(big(b));
        return make(s.compareTo(P) >= 0 ? s.subtract(P) : s);
    }

    @TLAPlusOperator(identifier = "FrSub", module = "Fr", warn = false)
    public static Value frSub(Value a, Value b) {
        BigInteger s = big(a).subtract(big(b));
        return make(s.signum() < 0 ? s.add(P) : s);
    }

    @TLAPlusOperator(identifier = "FrMul", module = "Fr", warn = false)
    public static Value frMul(Value a, Value b) {
        return make(big(a).multiply(big(b)).mod(P));
    }

    @TLAPlusOperator(identifier = "FrNat", module = "Fr", warn = false)
    public static Value frNat(IntValue n) {
        return make(BigInteger.valueOf(n.val));
    }

    @TLAPlusOperator(identifier = "FrInv", module = "Fr", warn = false)
    public static Value frInv(Value a) {
        return make(big(a).modPow(P.subtract(BigInteger.valueOf(2)), P));
    }

    private static volatile Value arksSeen;
    private static volatile BigInteger[] arksBig;

    @TLAPlusOperator(identifier = "FrMimcPerm", module = "FrMimc", warn = false)
    public static Value frMimcPerm(Value s, Value key, Value arks) {
        BigInteger[] a;
        synchronized (FrOverrides.class) {
            if (arksSeen != arks) {
                Value[] e = ((TupleValue) (arks instanceof TupleValue ? arks : arks.toTuple())).elems;
                a = new BigInteger[e.length];
                for (int i = 0; i < a.length; i++) {
                    a[i] = big(e[i]);
                }
                arksBig = a;
                arksSeen = arks;
            }
            a = arksBig;
        }
        BigInteger st = big(s), k = big(key);
        for (int i = 0; i < 91; i++) {
            BigInteger x = st.add(k).add(a[i]).mod(P);
            BigInteger x2 = x.multiply(x).mod(P);
            BigInteger x3 = x2.multiply(x).mod(P);
            st = x3.multiply(x3).mod(P).multiply(x).mod(P);
        }
        return make(st);
    }
}
