import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC evaluates the iterations of spec/Elem.tla with these names through this class, step by step as they are written there;
 *  spec/MCElem checks the agreement with the text. */
public class Elem {
    static final int P = BigNum.P, W = BigNum.W;
    /** A number of BigNum.tla: sign, exponent in limbs, magnitude of at most P limbs. */
    static final class N {
        final int s, e; final BigInteger m;
        N(int s, int e, BigInteger m) { this.s = s; this.e = e; this.m = m; }
        int top() { return e + (m.bitLength() + W - 1) / W; }
    }
    static final N ZERO = new N(0, 0, BigInteger.ZERO), ONE = num(1), TWO = num(2);
    static N norm(int s, int e, BigInteger x) {
        if (s == 0 || x.signum() == 0) return ZERO;
        int n = (x.bitLength() + W - 1) / W, drop = Math.max(0, n - P);
        if (drop > 0) x = x.shiftRight(drop * W);
        int z = x.getLowestSetBit() / W;
        if (z > 0) x = x.shiftRight(z * W);
        return new N(s, e + drop + z, x);
    }
    static N num(int x) { return norm(Integer.signum(x), 0, BigInteger.valueOf(x).abs()); }
    static N in(Value v) { Value[] a = BigNum.t(v); return new N(BigNum.i(a[0]), BigNum.i(a[1]), BigNum.nat(a[2])); }
    static Value out(N x) { return BigNum.norm(x.s, x.e, x.m); }
    static N add(N a, N b) {
        if (a.s == 0) return b;
        if (b.s == 0) return a;
        int ta = a.top(), tb = b.top();
        if (ta > tb + P + 2) return a;
        if (tb > ta + P + 2) return b;
        int e = Math.min(a.e, b.e);
        BigInteger x = a.m.shiftLeft((a.e - e) * W), y = b.m.shiftLeft((b.e - e) * W);
        if (a.s < 0) x = x.negate();
        if (b.s < 0) y = y.negate();
        BigInteger r = x.add(y);
        return norm(r.signum(), e, r.abs());
    }
    static N neg(N a) { return new N(-a.s, a.e, a.m); }
    static N sub(N a, N b) { return add(a, neg(b)); }
    static N mul(N a, N b) { return a.s * b.s == 0 ? ZERO : norm(a.s * b.s, a.e + b.e, a.m.multiply(b.m)); }
    static int limbs(N a) { return (a.m.bitLength() + W - 1) / W; }
    static N div(N a, N b) {
        if (b.s == 0) throw new ArithmeticException("NDiv by zero");
        if (a.s == 0) return ZERO;
        int k = Math.max(0, P + 1 + limbs(b) - limbs(a));
        return norm(a.s * b.s, a.e - k - b.e, a.m.shiftLeft(k * W).divide(b.m));
    }
    static boolean lt(N a, N b) {
        if (a.s != b.s) return a.s < b.s;
        if (a.s == 0) return false;
        int ta = a.top(), tb = b.top(), r;
        if (ta != tb) r = ta < tb ? -1 : 1;
        else { int e = Math.min(a.e, b.e); r = a.m.shiftLeft((a.e - e) * W).compareTo(b.m.shiftLeft((b.e - e) * W)); }
        return r * a.s < 0;
    }
    static N abs(N a) { return new N(Math.abs(a.s), a.e, a.m); }
    static N pow2(int k) { return norm(1, Math.floorDiv(k, W), BigInteger.ONE.shiftLeft(Math.floorMod(k, W))); }
    static final N EPS = pow2(-96), TINY = pow2(-400000);

    public static Value IncGammaSum(Value vd, Value vx, Value vterm, Value vsum) {
        N d = in(vd), x = in(vx), t = in(vterm), s = in(vsum);
        while (true) {
            t = div(mul(t, x), d);
            s = add(s, t);
            if (lt(t, mul(s, EPS))) return out(s);
            d = add(d, ONE);
        }
    }
    public static Value IncGammaCF(Value vi, Value va, Value vb, Value vc, Value vd, Value vh) {
        int i = BigNum.i(vi);
        N a = in(va), b = in(vb), c = in(vc), d = in(vd), h = in(vh);
        while (true) {
            N ni = num(i), an = neg(mul(ni, sub(ni, a)));
            b = add(b, TWO);
            N d1 = add(mul(an, d), b);
            d = div(ONE, d1.s == 0 ? TINY : d1);
            N c1 = add(b, div(an, c));
            c = c1.s == 0 ? TINY : c1;
            N del = mul(d, c);
            h = mul(h, del);
            if (lt(abs(sub(del, ONE)), EPS) || i >= 1000000) return out(h);
            i++;
        }
    }
    public static Value ErfSum(Value vn, Value vy, Value vterm, Value vsum) {
        int n = BigNum.i(vn);
        N y = in(vy), t = in(vterm), s = in(vsum);
        while (true) {
            t = div(mul(t, y), num(2 * n + 1));
            s = add(s, t);
            if (lt(t, mul(s, EPS))) return out(s);
            n++;
        }
    }
    public static Value IncBetaCF(Value vm, Value va, Value vb, Value vx, Value vc, Value vd, Value vh) {
        int m = BigNum.i(vm);
        N a = in(va), b = in(vb), x = in(vx), c = in(vc), d = in(vd), h = in(vh);
        while (true) {
            N nm = num(m), m2 = num(2 * m), am2 = add(a, m2);
            N aa1 = div(mul(mul(nm, sub(b, nm)), x), mul(sub(am2, ONE), am2));
            N d1 = div(ONE, add(ONE, mul(aa1, d))), c1 = add(ONE, div(aa1, c));
            N h1 = mul(h, mul(d1, c1));
            N aa2 = neg(div(mul(mul(add(a, nm), add(add(a, b), nm)), x), mul(am2, add(am2, ONE))));
            N d2 = div(ONE, add(ONE, mul(aa2, d1))), c2 = add(ONE, div(aa2, c1)), del = mul(d2, c2);
            h = mul(h1, del);
            if (lt(abs(sub(del, ONE)), EPS) || m >= 1000000) return out(h);
            c = c2; d = d2; m++;
        }
    }
}
