import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Evaluates the operators of Rat.tla (see there). */
public class Rat {
    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (!d.equals(BigInteger.ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d;
        }
        Q add(Q o) {
            if (d.equals(BigInteger.ONE) && o.d.equals(BigInteger.ONE)) return new Q(n.add(o.n), BigInteger.ONE);
            return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }
        Q neg() { return new Q(n.negate(), d); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        Q abs() { return n.signum() < 0 ? neg() : this; }
        public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    }
    static final ConcurrentHashMap<String, Q> memo = new ConcurrentHashMap<>();
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

    static Q q(Value v) {
        if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a rational: " + v);
        String s = ((StringValue) v).getVal().toString();
        Q r = memo.get(s);
        if (r != null) return r;
        int i = s.indexOf('/');
        r = i < 0 ? new Q(new BigInteger(s), BigInteger.ONE)
                  : new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        if (memo.size() > 2000000) memo.clear();
        memo.put(s, r);
        return r;
    }
    static Value v(Q x) { return new StringValue(x.toString()); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int i(Value x) { return ((IntValue) x).val; }
    static Value[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
        return t.elems;
    }

    public static Value RInt(Value a) { return new StringValue(Integer.toString(i(a))); }
    public static Value RToInt(Value a) {
        Q x = q(a);
        if (!x.d.equals(BigInteger.ONE)) throw new RuntimeException("RToInt: not an integer: " + x);
        return IntValue.gen(x.n.intValueExact());
    }
    public static Value RFrac(Value a, Value c) { return v(new Q(BigInteger.valueOf(i(a)), BigInteger.valueOf(i(c)))); }
    public static Value RAdd(Value a, Value c) { return v(q(a).add(q(c))); }
    public static Value RSub(Value a, Value c) { return v(q(a).add(q(c).neg())); }
    public static Value RMul(Value a, Value c) { return v(q(a).mul(q(c))); }
    public static Value RDiv(Value a, Value c) { return v(q(a).div(q(c))); }
    public static Value RNeg(Value a) { return v(q(a).neg()); }
    public static Value RLt(Value a, Value c) { return b(q(a).cmp(q(c)) < 0); }
    public static Value RLe(Value a, Value c) { return b(q(a).cmp(q(c)) <= 0); }
    public static Value RFloor(Value a) {
        Q x = q(a);
        BigInteger[] dr = x.n.divideAndRemainder(x.d);
        BigInteger f = dr[1].signum() < 0 ? dr[0].subtract(BigInteger.ONE) : dr[0];
        return v(new Q(f, BigInteger.ONE));
    }
    public static Value RPow2(Value a) {
        int n = i(a);
        BigInteger p = BigInteger.ONE.shiftLeft(Math.abs(n));
        return v(n >= 0 ? new Q(p, BigInteger.ONE) : new Q(BigInteger.ONE, p));
    }
    public static Value RSum(Value s) {
        Q r = ZERO;
        for (Value x : seq(s)) { Q y = q(x); if (y.n.signum() != 0) r = r.add(y); }
        return v(r);
    }
    public static Value RDot(Value s, Value t) {
        Value[] x = seq(s), y = seq(t);
        if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
        Q r = ZERO;
        for (int k = 0; k < x.length; ++k) {
            Q p = q(x[k]);
            if (p.n.signum() == 0) continue;
            Q o = q(y[k]);
            if (o.n.signum() == 0) continue;
            r = r.add(p.mul(o));
        }
        return v(r);
    }
    public static Value RClose(Value a, Value c, Value digits) {
        Q x = q(a), y = q(c);
        Q one = new Q(BigInteger.ONE, BigInteger.ONE);
        Q m = one;
        if (x.abs().cmp(m) > 0) m = x.abs();
        if (y.abs().cmp(m) > 0) m = y.abs();
        Q tol = new Q(BigInteger.ONE, BigInteger.TEN.pow(i(digits))).mul(m);
        return b(x.add(y.neg()).abs().cmp(tol) <= 0);
    }
    static Value force(Value x) {
        Value v = x;
        if (v instanceof FcnLambdaValue) {
            Value t = v.toTuple();
            v = t != null ? t : v.toFcnRcd();
        }
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            Value[] r = null;
            for (int k = 0; k < e.length; ++k) {
                Value f = force(e[k]);
                if (f != e[k]) {
                    if (r == null) r = e.clone();
                    r[k] = f;
                }
            }
            return r == null ? v : new TupleValue(r);
        }
        if (v instanceof RecordValue) {
            RecordValue w = (RecordValue) v;
            for (int k = 0; k < w.values.length; ++k) w.values[k] = force(w.values[k]);
            return w;
        }
        if (v instanceof FcnRcdValue) {
            FcnRcdValue w = (FcnRcdValue) v;
            for (int k = 0; k < w.values.length; ++k) w.values[k] = force(w.values[k]);
            return w;
        }
        return v;
    }
    public static Value Force(Value x) { return force(x); }
}
