import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.impl.Value;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.BoolValue;

/** TLC evaluates the operators of BigNum.tla with these exact integer computations. */
public class BigNum {
    static final int S = 24;                       // decimals of a fixed-point number
    static final BigInteger ONE = BigInteger.TEN.pow(S);
    static final int W = 50;                       // working decimals of ln / roots
    static final BigInteger WONE = BigInteger.TEN.pow(W);
    static final BigInteger LIFT = BigInteger.TEN.pow(W - S);

    static BigInteger g(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        return new BigInteger(((StringValue) v).val.toString());
    }
    static Value s(BigInteger b) { return new StringValue(b.toString()); }
    static BigInteger half(BigInteger n, BigInteger d) { // rounded to nearest
        int sg = n.signum() * d.signum();
        n = n.abs(); d = d.abs();
        BigInteger q = n.add(d.shiftRight(1)).divide(d);
        return sg < 0 ? q.negate() : q;
    }
    // ---- integers
    public static Value iAdd(Value a, Value b) { return s(g(a).add(g(b))); }
    public static Value iSub(Value a, Value b) { return s(g(a).subtract(g(b))); }
    public static Value iMul(Value a, Value b) { return s(g(a).multiply(g(b))); }
    public static Value iNeg(Value a) { return s(g(a).negate()); }
    public static Value iAbs(Value a) { return s(g(a).abs()); }
    public static Value iSgn(Value a) { return IntValue.gen(g(a).signum()); }
    public static Value iDiv(Value a, Value b) { return s(g(a).divide(g(b))); } // toward zero
    public static Value iDivUp(Value a, Value b) {                              // away from zero
        BigInteger x = g(a), y = g(b);
        BigInteger[] qr = x.abs().divideAndRemainder(y.abs());
        BigInteger q = qr[1].signum() == 0 ? qr[0] : qr[0].add(BigInteger.ONE);
        return s(x.signum() * y.signum() < 0 ? q.negate() : q);
    }
    public static Value iMod(Value a, Value b) { return s(g(a).remainder(g(b))); }
    public static Value iPow(Value a, Value n) { return s(g(a).pow(((IntValue) n).val)); }
    public static Value iSqrt(Value a) { return s(g(a).sqrt()); }
    public static Value iCmp(Value a, Value b) { return IntValue.gen(g(a).compareTo(g(b))); }
    public static Value iBits(Value a) { return IntValue.gen(g(a).bitLength()); }
    public static Value iStr(Value a) { return s(g(a)); }
    public static Value iInt(Value a) { return IntValue.gen(g(a).intValueExact()); }
    // ---- fixed point, 24 decimals
    public static Value nMul(Value a, Value b) { return s(half(g(a).multiply(g(b)), ONE)); }
    public static Value nDiv(Value a, Value b) { return s(half(g(a).multiply(ONE), g(b))); }
    public static Value nMulDiv(Value a, Value b, Value c) { return s(half(g(a).multiply(g(b)), g(c))); }
    public static Value nSqrt(Value a) { return s(g(a).multiply(ONE).sqrt()); }
    public static Value nInt(Value a) { return s(g(a).multiply(ONE)); }
    public static Value nSci(Value m, Value e) { // m * 10^e
        int k = S + ((IntValue) e).val;
        BigInteger b = g(m);
        return s(k >= 0 ? b.multiply(BigInteger.TEN.pow(k)) : b.divide(BigInteger.TEN.pow(-k)));
    }
    static BigInteger LN2;
    static BigInteger atanhSeries(BigInteger z) { // 2*atanh(z), z at W decimals
        BigInteger z2 = z.multiply(z).divide(WONE), t = z, sum = BigInteger.ZERO;
        int k = 1;
        while (t.signum() != 0) {
            sum = sum.add(t.divide(BigInteger.valueOf(k)));
            t = t.multiply(z2).divide(WONE);
            k += 2;
        }
        return sum.shiftLeft(1);
    }
    static BigInteger ln(BigInteger x) { // x>0 at W decimals
        if (LN2 == null) LN2 = atanhSeries(WONE.divide(BigInteger.valueOf(3)));
        int k = 0;
        BigInteger two = WONE.shiftLeft(1);
        while (x.compareTo(two) >= 0) { x = x.shiftRight(1); k++; }
        while (x.compareTo(WONE) < 0) { x = x.shiftLeft(1); k--; }
        BigInteger z = x.subtract(WONE).multiply(WONE).divide(x.add(WONE));
        return atanhSeries(z).add(LN2.multiply(BigInteger.valueOf(k)));
    }
    public static Value nLn(Value a) { return s(half(ln(g(a).multiply(LIFT)), LIFT)); }
    /** a ^ (q/4) for a positive a */
    public static Value nPow4(Value a, Value q) {
        int n = ((IntValue) q).val;
        BigInteger x = g(a).multiply(LIFT);
        int m = Math.abs(n);
        BigInteger r = WONE;
        for (int i = 0; i < m / 4; i++) r = r.multiply(x).divide(WONE);
        int rem = m % 4;
        if (rem >= 2) r = r.multiply(x.multiply(WONE).sqrt()).divide(WONE);
        if (rem % 2 == 1) r = r.multiply(x.multiply(WONE).sqrt().multiply(WONE).sqrt()).divide(WONE);
        if (n < 0) r = WONE.multiply(WONE).divide(r);
        return s(half(r, LIFT));
    }
    /** square root of 1.0001^t */
    static final java.util.HashMap<Integer, BigInteger> TP = new java.util.HashMap<>();
    public static synchronized Value nTickPrice(Value t) {
        int n = ((IntValue) t).val;
        BigInteger r = TP.get(n);
        if (r == null) {
            BigInteger w = BigInteger.TEN.pow(60);
            BigInteger base = w.add(w.divide(BigInteger.valueOf(10000)));
            BigInteger p = w, b = base;
            for (int e = Math.abs(n); e > 0; e >>= 1) {
                if ((e & 1) == 1) p = p.multiply(b).divide(w);
                b = b.multiply(b).divide(w);
            }
            if (n < 0) p = w.multiply(w).divide(p);
            r = half(p.multiply(w).sqrt(), BigInteger.TEN.pow(60 - S));
            TP.put(n, r);
        }
        return s(r);
    }
    public static Value nNum(Value a) { // is it a number at all (the harness writes "nan" otherwise)
        String t = ((StringValue) a).val.toString();
        return t.equals("nan") ? BoolValue.ValFalse : BoolValue.ValTrue;
    }
}
