import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC evaluates the operators of spec/BigNum.tla with these names through this class.
 *  Each computes the function that BigNum.tla defines; spec/MCBigNum checks the agreement. */
public class BigNum {
    static final int P = 9, W = 15;
    static final BigInteger MASK = BigInteger.valueOf((1 << W) - 1);

    static int i(Value v) { return ((IntValue) v).val; }
    static Value[] t(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        return ((TupleValue) v.toTuple()).elems;
    }

    static BigInteger nat(Value m) {
        Value[] l = t(m);
        int n = l.length;
        if (n == 0) return BigInteger.ZERO;
        // 15-bit limbs -> magnitude bytes
        int bits = n * W, bytes = (bits + 7) / 8;
        byte[] b = new byte[bytes + 1];
        long acc = 0; int have = 0, pos = bytes;
        for (int k = 0; k < n; k++) {
            acc |= ((long) i(l[k])) << have; have += W;
            while (have >= 8) { b[pos--] = (byte) acc; acc >>>= 8; have -= 8; }
        }
        while (have > 0) { b[pos--] = (byte) acc; acc >>>= 8; have -= 8; }
        return new BigInteger(1, b);
    }

    static final TupleValue EMPTY = new TupleValue(new Value[0]);
    static Value zero() { return new TupleValue(new Value[]{IntValue.gen(0), IntValue.gen(0), EMPTY}); }

    static Value norm(int s, int e, BigInteger x) {
        if (s == 0 || x.signum() == 0) return zero();
        int n = (x.bitLength() + W - 1) / W;
        int drop = Math.max(0, n - P);
        int z = x.getLowestSetBit() / W;
        int cut = Math.max(drop, z);
        if (cut > 0) x = x.shiftRight(cut * W);
        if (drop > z) { // truncation may expose low zero limbs
            int z2 = x.getLowestSetBit() / W;
            if (z2 > 0) { x = x.shiftRight(z2 * W); cut += z2; }
        }
        int len = (x.bitLength() + W - 1) / W;
        Value[] l = new Value[len];
        byte[] b = x.toByteArray();
        long acc = 0; int have = 0, pos = b.length - 1;
        for (int k = 0; k < len; k++) {
            while (have < W && pos >= 0) { acc |= ((long) (b[pos--] & 0xff)) << have; have += 8; }
            l[k] = IntValue.gen((int) (acc & 0x7fff)); acc >>>= W; have -= W;
        }
        return new TupleValue(new Value[]{IntValue.gen(s), IntValue.gen(e + cut), new TupleValue(l)});
    }

    static int top(Value[] a) { return i(a[1]) + t(a[2]).length; }

    public static Value NAdd(Value va, Value vb) {
        Value[] a = t(va), b = t(vb);
        int sa = i(a[0]), sb = i(b[0]);
        if (sa == 0) return vb;
        if (sb == 0) return va;
        int ta = top(a), tb = top(b);
        if (ta > tb + P + 2) return va;
        if (tb > ta + P + 2) return vb;
        int ea = i(a[1]), eb = i(b[1]), e = Math.min(ea, eb);
        BigInteger x = nat(a[2]).shiftLeft((ea - e) * W), y = nat(b[2]).shiftLeft((eb - e) * W);
        if (sa < 0) x = x.negate();
        if (sb < 0) y = y.negate();
        BigInteger r = x.add(y);
        return norm(r.signum(), e, r.abs());
    }

    public static Value NMul(Value va, Value vb) {
        Value[] a = t(va), b = t(vb);
        int s = i(a[0]) * i(b[0]);
        if (s == 0) return zero();
        return norm(s, i(a[1]) + i(b[1]), nat(a[2]).multiply(nat(b[2])));
    }

    public static Value NDiv(Value va, Value vb) {
        Value[] a = t(va), b = t(vb);
        int sa = i(a[0]), sb = i(b[0]);
        if (sb == 0) throw new ArithmeticException("NDiv by zero");
        if (sa == 0) return zero();
        int k = Math.max(0, P + 1 + t(b[2]).length - t(a[2]).length);
        return norm(sa * sb, i(a[1]) - k - i(b[1]), nat(a[2]).shiftLeft(k * W).divide(nat(b[2])));
    }

    public static Value NSqrt(Value va) {
        Value[] a = t(va);
        if (i(a[0]) == 0) return zero();
        if (i(a[0]) < 0) throw new ArithmeticException("NSqrt of a negative number");
        int k = Math.max(0, 2 * (P + 1) - t(a[2]).length);
        if (Math.floorMod(i(a[1]) - k, 2) != 0) k++;
        return norm(1, Math.floorDiv(i(a[1]) - k, 2), nat(a[2]).shiftLeft(k * W).sqrt());
    }

    public static Value NCmp(Value va, Value vb) {
        Value[] a = t(va), b = t(vb);
        int sa = i(a[0]), sb = i(b[0]);
        int r;
        if (sa != sb) r = sa < sb ? -1 : 1;
        else if (sa == 0) r = 0;
        else {
            int ta = top(a), tb = top(b);
            if (ta != tb) r = ta < tb ? -1 : 1;
            else {
                int ea = i(a[1]), eb = i(b[1]), e = Math.min(ea, eb);
                r = nat(a[2]).shiftLeft((ea - e) * W).compareTo(nat(b[2]).shiftLeft((eb - e) * W));
            }
            r *= sa;
        }
        return IntValue.gen(r);
    }

    public static Value NFloor(Value va) {
        Value[] a = t(va);
        int s = i(a[0]), e = i(a[1]);
        if (s == 0) return IntValue.gen(0);
        BigInteger x = nat(a[2]);
        if (s < 0) x = x.negate();
        BigInteger r = e >= 0 ? x.shiftLeft(e * W) : x.shiftRight(-e * W); // arithmetic: floors
        return IntValue.gen(r.intValueExact());
    }

    public static Value NInt(Value v) {
        int x = i(v);
        return norm(Integer.signum(x), 0, BigInteger.valueOf(x).abs());
    }

    public static Value Pow2(Value v) {
        int k = i(v);
        return new TupleValue(new Value[]{IntValue.gen(1), IntValue.gen(Math.floorDiv(k, W)),
            new TupleValue(new Value[]{IntValue.gen(1 << Math.floorMod(k, W))})});
    }

    public static Value BitLen(Value v) { return IntValue.gen(32 - Integer.numberOfLeadingZeros(i(v))); }

    public static Value NPowNat(Value va, Value vn) {
        int n = i(vn);
        if (n == 0) return Pow2(IntValue.gen(0));
        Value h = NPowNat(va, IntValue.gen(n / 2)), h2 = NMul(h, h);
        return n % 2 == 0 ? h2 : NMul(h2, va);
    }
}
