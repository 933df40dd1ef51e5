import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluations of the operators of BigNum.tla (their definitions are in BigNumRef.tla). */
public class BigNumOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { BigNumOverrides.class }; }

    /** Long results are not parsed again: strings are interned, so a string's identity is its UniqueString. */
    private static final int KEPT = 1 << 13;
    private static final ThreadLocal<java.util.IdentityHashMap<UniqueString, BigInteger>> LONG =
        ThreadLocal.withInitial(java.util.IdentityHashMap::new);
    private static BigInteger b(Value v) {
        UniqueString u = ((StringValue) v).val;
        if (u.length() < 60) return new BigInteger(u.toString());
        BigInteger x = LONG.get().get(u);
        if (x == null) { x = new BigInteger(u.toString()); keep(u, x); }
        return x;
    }
    private static void keep(UniqueString u, BigInteger x) {
        java.util.IdentityHashMap<UniqueString, BigInteger> m = LONG.get();
        if (m.size() >= KEPT) m.clear();
        m.put(u, x);
    }
    private static Value s(BigInteger x) {
        StringValue v = new StringValue(x.toString());
        if (v.val.length() >= 60) keep(v.val, x);
        return v;
    }
    private static BigInteger floorDiv(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        return qr[1].signum() != 0 && (qr[1].signum() != b.signum()) ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    @TLAPlusOperator(identifier = "BAdd", module = "BigNum", warn = false)
    public static Value add(Value a, Value b) { return s(b(a).add(b(b))); }
    @TLAPlusOperator(identifier = "BSub", module = "BigNum", warn = false)
    public static Value sub(Value a, Value b) { return s(b(a).subtract(b(b))); }
    @TLAPlusOperator(identifier = "BMul", module = "BigNum", warn = false)
    public static Value mul(Value a, Value b) { return s(b(a).multiply(b(b))); }
    @TLAPlusOperator(identifier = "BDiv", module = "BigNum", warn = false)
    public static Value div(Value a, Value b) { return s(floorDiv(b(a), b(b))); }
    @TLAPlusOperator(identifier = "BMod", module = "BigNum", warn = false)
    public static Value mod(Value a, Value b) {
        BigInteger x = b(a), y = b(b);
        return s(x.subtract(y.multiply(floorDiv(x, y))));
    }
    @TLAPlusOperator(identifier = "BCmp", module = "BigNum", warn = false)
    public static Value cmp(Value a, Value b) { return IntValue.gen(b(a).compareTo(b(b))); }
    @TLAPlusOperator(identifier = "BGcd", module = "BigNum", warn = false)
    public static Value gcd(Value a, Value b) { return s(b(a).gcd(b(b))); }
    @TLAPlusOperator(identifier = "BPow", module = "BigNum", warn = false)
    public static Value pow(Value a, Value n) { return s(b(a).pow(((IntValue) n).val)); }
    @TLAPlusOperator(identifier = "BIsqrt", module = "BigNum", warn = false)
    public static Value isqrt(Value a) { return s(b(a).sqrt()); }
    @TLAPlusOperator(identifier = "BNeg", module = "BigNum", warn = false)
    public static Value neg(Value a) { return s(b(a).negate()); }
    @TLAPlusOperator(identifier = "BAbs", module = "BigNum", warn = false)
    public static Value abs(Value a) { return s(b(a).abs()); }
    @TLAPlusOperator(identifier = "BSign", module = "BigNum", warn = false)
    public static Value sign(Value a) { return IntValue.gen(b(a).signum()); }
    @TLAPlusOperator(identifier = "BToInt", module = "BigNum", warn = false)
    public static Value toInt(Value a) { return IntValue.gen(b(a).intValueExact()); }
    @TLAPlusOperator(identifier = "BHorner", module = "BigNum", warn = false)
    public static Value horner(Value p, Value x) {
        Value[] c = ((TupleValue) p.toTuple()).elems;
        BigInteger y = b(x), r = BigInteger.ZERO;
        for (int i = c.length - 1; i >= 0; i--) r = r.multiply(y).add(b(c[i]));
        return s(r);
    }
    @TLAPlusOperator(identifier = "BDot", module = "BigNum", warn = false)
    public static Value dot(Value a, Value b, Value c, Value d) { return s(b(a).multiply(b(b)).add(b(c).multiply(b(d)))); }
}
