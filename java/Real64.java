package pysatl;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC module override for Real64.tla: the arithmetic of the specification's real numbers.
 * A real is the pair <<hi, lo>> of the two 32-bit halves of an IEEE-754 binary64.
 * The arithmetic and the special functions are implemented here from their textbook series and
 * continued fractions; nothing is shared with numpy/scipy, on which the code under test is built.
 */
public class Real64 implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { Real64.class }; }

    // ---------------------------------------------------------------- conversion
    static Value mk(double d) {
        long b = Double.doubleToLongBits(d);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
    }
    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t;
        if (v instanceof TupleValue) t = (TupleValue) v; else t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    /** the elements of a sequence of reals, or null for a single real */
    static Value[] vec(Value v) {
        if (v instanceof IntValue) return null;
        Value t = v instanceof TupleValue ? v : (Value) v.toTuple();
        Value[] e = ((TupleValue) t).elems;
        return e.length > 0 && e[0] instanceof IntValue && e.length == 2 && e[1] instanceof IntValue ? null : e;
    }
    interface F1 { double at(double x); }
    interface F2 { double at(double x, double y); }
    /** f elementwise */
    static Value map(Value a, F1 f) {
        Value[] e = vec(a);
        if (e == null) return mk(f.at(d(a)));
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = mk(f.at(d(e[i])));
        return new TupleValue(r);
    }
    static Value map(Value a, Value c, F2 f) {
        Value[] e = vec(a), g = vec(c);
        if (e == null && g == null) return mk(f.at(d(a), d(c)));
        int n = e == null ? g.length : e.length;
        if (e != null && g != null && g.length != n) throw new RuntimeException("Real64: sequences of lengths " + e.length + " and " + g.length);
        double x = e == null ? d(a) : 0, y = g == null ? d(c) : 0;
        Value[] r = new Value[n];
        for (int i = 0; i < n; i++) r[i] = mk(f.at(e == null ? x : d(e[i]), g == null ? y : d(g[i])));
        return new TupleValue(r);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RInt", module = "Real64", warn = false)
    public static Value rint(final Value n) { return mk(((IntValue) n).val); }
    @TLAPlusOperator(identifier = "RDec", module = "Real64", warn = false)
    public static Value rdec(final Value s) { return mk(Double.parseDouble(((StringValue) s).val.toString())); }
    @TLAPlusOperator(identifier = "RStr", module = "Real64", warn = false)
    public static Value rstr(final Value a) { return new StringValue(Double.toString(d(a))); }
    @TLAPlusOperator(identifier = "RFloor", module = "Real64", warn = false)
    public static Value rfloor(final Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "RCeil", module = "Real64", warn = false)
    public static Value rceil(final Value a) { return IntValue.gen((int) Math.ceil(d(a))); }
    @TLAPlusOperator(identifier = "RF32", module = "Real64", warn = false)
    public static Value rf32(final Value a) { return map(a, x -> (double) (float) x); }

    // ---------------------------------------------------------------- arithmetic and order
    @TLAPlusOperator(identifier = "RAdd", module = "Real64", warn = false)
    public static Value add(final Value a, final Value c) { return map(a, c, (x, y) -> x + y); }
    @TLAPlusOperator(identifier = "RSub", module = "Real64", warn = false)
    public static Value sub(final Value a, final Value c) { return map(a, c, (x, y) -> x - y); }
    @TLAPlusOperator(identifier = "RMul", module = "Real64", warn = false)
    public static Value mul(final Value a, final Value c) { return map(a, c, (x, y) -> x * y); }
    @TLAPlusOperator(identifier = "RDiv", module = "Real64", warn = false)
    public static Value div(final Value a, final Value c) { return map(a, c, (x, y) -> x / y); }
    @TLAPlusOperator(identifier = "RPow", module = "Real64", warn = false)
    public static Value pow(final Value a, final Value c) { return map(a, c, (x, y) -> Math.pow(x, y)); }
    @TLAPlusOperator(identifier = "RAbs", module = "Real64", warn = false)
    public static Value abs(final Value a) { return map(a, x -> Math.abs(x)); }
    @TLAPlusOperator(identifier = "RLt", module = "Real64", warn = false)
    public static Value lt(final Value a, final Value c) { return b(d(a) < d(c)); }
    @TLAPlusOperator(identifier = "RLe", module = "Real64", warn = false)
    public static Value le(final Value a, final Value c) { return b(d(a) <= d(c)); }
    @TLAPlusOperator(identifier = "REq", module = "Real64", warn = false)
    public static Value eq(final Value a, final Value c) { return b(d(a) == d(c)); }
    @TLAPlusOperator(identifier = "RFinite", module = "Real64", warn = false)
    public static Value fin(final Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "RIsNaN", module = "Real64", warn = false)
    public static Value isnan(final Value a) { return b(Double.isNaN(d(a))); }
    @TLAPlusOperator(identifier = "RSum", module = "Real64", warn = false)
    public static Value sum(final Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double x = 0, c = 0;                       // Neumaier: the sum of the model is order independent
        for (Value v : t.elems) {
            double y = d(v), z = x + y;
            if (Math.abs(x) >= Math.abs(y)) c += (x - z) + y; else c += (y - z) + x;
            x = z;
        }
        return mk(Double.isNaN(c) ? x : x + c);
    }
    @TLAPlusOperator(identifier = "RSort", module = "Real64", warn = false)
    public static Value sort(final Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double[] a = new double[t.elems.length];
        for (int i = 0; i < a.length; i++) a[i] = d(t.elems[i]);
        java.util.Arrays.sort(a);
        Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = mk(a[i]);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "RIota", module = "Real64", warn = false)
    public static Value iota(final Value n) {
        Value[] r = new Value[((IntValue) n).val];
        for (int i = 0; i < r.length; i++) r[i] = mk(i + 1);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "RRev", module = "Real64", warn = false)
    public static Value rev(final Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems, r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = e[e.length - 1 - i];
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "RCum", module = "Real64", warn = false)
    public static Value cum(final Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems, r = new Value[e.length];
        double x = 0;
        for (int i = 0; i < r.length; i++) r[i] = mk(x += d(e[i]));
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "RMaxOf", module = "Real64", warn = false)
    public static Value maxof(final Value s) {
        double m = Double.NEGATIVE_INFINITY;
        for (Value v : ((TupleValue) s.toTuple()).elems) m = Double.isNaN(d(v)) ? d(v) : Math.max(m, d(v));
        return mk(m);
    }
    @TLAPlusOperator(identifier = "RMinOf", module = "Real64", warn = false)
    public static Value minof(final Value s) {
        double m = Double.POSITIVE_INFINITY;
        for (Value v : ((TupleValue) s.toTuple()).elems) m = Double.isNaN(d(v)) ? d(v) : Math.min(m, d(v));
        return mk(m);
    }

    // ---------------------------------------------------------------- elementary functions
    @TLAPlusOperator(identifier = "RSqrt", module = "Real64", warn = false)
    public static Value sqrt(final Value a) { return map(a, x -> Math.sqrt(x)); }
    @TLAPlusOperator(identifier = "RLog", module = "Real64", warn = false)
    public static Value log(final Value a) { return map(a, x -> Math.log(x)); }
    @TLAPlusOperator(identifier = "RLog1p", module = "Real64", warn = false)
    public static Value log1p(final Value a) { return map(a, x -> Math.log1p(x)); }
    @TLAPlusOperator(identifier = "RExp", module = "Real64", warn = false)
    public static Value exp(final Value a) { return map(a, x -> Math.exp(x)); }
    @TLAPlusOperator(identifier = "RExpm1", module = "Real64", warn = false)
    public static Value expm1(final Value a) { return map(a, x -> Math.expm1(x)); }
    @TLAPlusOperator(identifier = "RSin", module = "Real64", warn = false)
    public static Value sin(final Value a) { return map(a, x -> Math.sin(x)); }
    @TLAPlusOperator(identifier = "RCos", module = "Real64", warn = false)
    public static Value cos(final Value a) { return map(a, x -> Math.cos(x)); }
    @TLAPlusOperator(identifier = "RAtan", module = "Real64", warn = false)
    public static Value atan(final Value a) { return map(a, x -> Math.atan(x)); }
    @TLAPlusOperator(identifier = "RAsin", module = "Real64", warn = false)
    public static Value asin(final Value a) { return map(a, x -> Math.asin(x)); }

    // ---------------------------------------------------------------- special functions
    static final double[] LG = { 0.99999999999980993, 676.5203681218851, -1259.1392167224028,
        771.32342877765313, -176.61502916214059, 12.507343278686905, -0.13857109526572012,
        9.9843695780195716e-6, 1.5056327351493116e-7 };
    static double lgamma(double x) {
        if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
        if (x >= 20) {                                 // Stirling series
            double z = 1 / (x * x);
            return (x - 0.5) * Math.log(x) - x + 0.91893853320467274178
                + (1.0 / 12 - z * (1.0 / 360 - z * (1.0 / 1260 - z * (1.0 / 1680 - z / 1188)))) / x;
        }
        double sh = 0, y = x;                          // shift up to the Stirling range
        while (y < 20) { sh += Math.log(y); y += 1; }
        return lgamma(y) - sh;
    }
    static double digamma(double x) {
        double r = 0;
        while (x < 20) { r -= 1 / x; x += 1; }
        double z = 1 / (x * x);
        return r + Math.log(x) - 0.5 / x
            - z * (1.0 / 12 - z * (1.0 / 120 - z * (1.0 / 252 - z * (1.0 / 240 - z * (1.0 / 132)))));
    }
    /** regularised lower incomplete gamma P(a,x); upper if up */
    static double gammap(double a, double x, boolean up) {
        if (Double.isNaN(a) || Double.isNaN(x)) return Double.NaN;
        if (x <= 0) return up ? 1 : 0;
        if (Double.isInfinite(x)) return up ? 0 : 1;
        double pre = Math.exp(-x + a * Math.log(x) - lgamma(a));
        if (x < a + 1) {
            double s = 1 / a, t = s;
            for (int n = 1; n < 100000; n++) { t *= x / (a + n); s += t; if (Math.abs(t) < Math.abs(s) * 1e-17) break; }
            double p = s * pre;
            return up ? 1 - p : p;
        }
        double tiny = 1e-300, bb = x + 1 - a, c = 1 / tiny, dd = 1 / bb, h = dd;
        for (int i = 1; i < 100000; i++) {
            double an = -i * (i - a); bb += 2;
            dd = an * dd + bb; if (Math.abs(dd) < tiny) dd = tiny;
            c = bb + an / c; if (Math.abs(c) < tiny) c = tiny;
            dd = 1 / dd; double del = dd * c; h *= del;
            if (Math.abs(del - 1) < 1e-16) break;
        }
        double q = pre * h;
        return up ? q : 1 - q;
    }
    static double phi(double x) {
        if (Double.isNaN(x)) return x;
        if (x == 0) return 0.5;
        double q = 0.5 * gammap(0.5, x * x / 2, true);
        return x < 0 ? q : 1 - q;
    }
    static double betacf(double a, double b, double x) {
        double tiny = 1e-300, qab = a + b, qap = a + 1, qam = a - 1, c = 1, dd = 1 - qab * x / qap;
        if (Math.abs(dd) < tiny) dd = tiny;
        dd = 1 / dd; double h = dd;
        for (int m = 1; m < 100000; m++) {
            int m2 = 2 * m;
            double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
            dd = 1 + aa * dd; if (Math.abs(dd) < tiny) dd = tiny;
            c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny;
            dd = 1 / dd; h *= dd * c;
            aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
            dd = 1 + aa * dd; if (Math.abs(dd) < tiny) dd = tiny;
            c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny;
            dd = 1 / dd; double del = dd * c; h *= del;
            if (Math.abs(del - 1) < 1e-16) break;
        }
        return h;
    }
    static double betai(double a, double b, double x) {
        if (Double.isNaN(x)) return x;
        if (x <= 0) return 0; if (x >= 1) return 1;
        double bt = Math.exp(lgamma(a + b) - lgamma(a) - lgamma(b) + a * Math.log(x) + b * Math.log1p(-x));
        if (x < (a + 1) / (a + b + 2)) return bt * betacf(a, b, x) / a;
        return 1 - bt * betacf(b, a, 1 - x) / b;
    }
    interface F { double f(double x); }
    static double invert(F f, double p, double lo, double hi) {   // f increasing on [lo,hi]
        for (int i = 0; i < 400; i++) {
            double m = lo + (hi - lo) / 2;
            if (m == lo || m == hi) break;
            if (f.f(m) < p) lo = m; else hi = m;
        }
        return lo + (hi - lo) / 2;
    }
    static double expand(F f, double p, double hi) { while (f.f(hi) < p && hi < 1e300) hi *= 2; return hi; }
    static double phiinv(double p) {
        if (p <= 0) return Double.NEGATIVE_INFINITY; if (p >= 1) return Double.POSITIVE_INFINITY;
        if (p == 0.5) return 0;
        if (p > 0.5 && 1 - (1 - p) == p) return -phiinv(1 - p);
        return invert(Real64::phi, p, -40, 40);
    }
    static double tcdf(double df, double x) {
        double q = 0.5 * betai(df / 2, 0.5, df / (df + x * x));
        return x < 0 ? q : 1 - q;
    }
    /** Rice CDF with b = nu/sigma, x in units of sigma: Poisson mixture of central chi-squares. */
    static double ricecdf(double nu, double x) {
        if (x <= 0) return 0;
        double lam = nu * nu / 2, s = 0;
        for (int j = 0; j < 2000; j++) {
            double w = Math.exp(-lam + (lam == 0 ? (j == 0 ? 0 : Double.NEGATIVE_INFINITY) : j * Math.log(lam)) - lgamma(j + 1.0));
            s += w * gammap(j + 1, x * x / 2, false);
            if (j > lam && w < 1e-18) break;
        }
        return s;
    }

    @TLAPlusOperator(identifier = "RLGamma", module = "Real64", warn = false)
    public static Value vlg(final Value a) { return map(a, x -> lgamma(x)); }
    @TLAPlusOperator(identifier = "RDigamma", module = "Real64", warn = false)
    public static Value vdg(final Value a) { return map(a, x -> digamma(x)); }
    @TLAPlusOperator(identifier = "PhiCdf", module = "Real64", warn = false)
    public static Value vphi(final Value a) { return map(a, x -> phi(x)); }
    @TLAPlusOperator(identifier = "PhiInv", module = "Real64", warn = false)
    public static Value vphiinv(final Value a) { return map(a, x -> phiinv(x)); }
    @TLAPlusOperator(identifier = "GammaP", module = "Real64", warn = false)
    public static Value vgp(final Value a, final Value x) { double p = d(a); return map(x, y -> gammap(p, y, false)); }
    @TLAPlusOperator(identifier = "GammaQ", module = "Real64", warn = false)
    public static Value vgq(final Value a, final Value x) { double p = d(a); return map(x, y -> gammap(p, y, true)); }
    @TLAPlusOperator(identifier = "GammaPInv", module = "Real64", warn = false)
    public static Value vgpi(final Value a, final Value p) {
        final double aa = d(a), pp = d(p);
        if (pp <= 0) return mk(0); if (pp >= 1) return mk(Double.POSITIVE_INFINITY);
        F f = x -> gammap(aa, x, false);
        return mk(invert(f, pp, 0, expand(f, pp, aa + 1)));
    }
    @TLAPlusOperator(identifier = "BetaI", module = "Real64", warn = false)
    public static Value vbi(final Value a, final Value c, final Value x) { double p = d(a), q = d(c); return map(x, y -> betai(p, q, y)); }
    @TLAPlusOperator(identifier = "BetaIInv", module = "Real64", warn = false)
    public static Value vbii(final Value a, final Value c, final Value p) {
        final double aa = d(a), bb = d(c);
        return mk(invert(x -> betai(aa, bb, x), d(p), 0, 1));
    }
    @TLAPlusOperator(identifier = "TCdf", module = "Real64", warn = false)
    public static Value vt(final Value df, final Value x) { double p = d(df); return map(x, y -> tcdf(p, y)); }
    @TLAPlusOperator(identifier = "TInv", module = "Real64", warn = false)
    public static Value vti(final Value df, final Value p) {
        final double n = d(df), pp = d(p);
        if (pp == 0.5) return mk(0);
        F f = x -> tcdf(n, x);
        double h = expand(f, Math.max(pp, 1 - pp), 1);
        return mk(invert(f, pp, -h, h));
    }
    @TLAPlusOperator(identifier = "RiceStdCdf", module = "Real64", warn = false)
    public static Value vrice(final Value nu, final Value x) { return mk(ricecdf(d(nu), d(x))); }
}
