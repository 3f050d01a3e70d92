// TLC module override for spec/Float64.tla: IEEE-754 binary64 arithmetic on <<hi, lo>> pairs.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

public class Float64 {
    // ---- conversions -------------------------------------------------------------------
    private static double d(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    private static Value f(final double x) {
        final long b = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static int i(final Value v) { return ((IntValue) v).val; }
    private static Value[] seq(final Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static double[] vec(final Value v) {
        final Value[] e = seq(v); final double[] r = new double[e.length];
        for (int k = 0; k < r.length; k++) r[k] = d(e[k]);
        return r;
    }
    private static Value vec(final double[] x) {
        final Value[] e = new Value[x.length];
        for (int k = 0; k < e.length; k++) e[k] = f(x[k]);
        return new TupleValue(e);
    }
    // ---- scalars -----------------------------------------------------------------------
    public static Value FInt(final Value n) { return f(i(n)); }
    public static Value FAdd(final Value x, final Value y) { return f(d(x) + d(y)); }
    public static Value FSub(final Value x, final Value y) { return f(d(x) - d(y)); }
    public static Value FMul(final Value x, final Value y) { return f(d(x) * d(y)); }
    public static Value FDiv(final Value x, final Value y) { return f(d(x) / d(y)); }
    public static Value FNeg(final Value x) { return f(-d(x)); }
    public static Value FAbs(final Value x) { return f(Math.abs(d(x))); }
    public static Value FSqrt(final Value x) { return f(Math.sqrt(d(x))); }
    public static Value FExp(final Value x) { return f(Math.exp(d(x))); }
    public static Value FLn(final Value x) { return f(Math.log(d(x))); }
    public static Value FTanh(final Value x) { return f(Math.tanh(d(x))); }
    public static Value FCos(final Value x) { return f(Math.cos(d(x))); }
    public static Value FSin(final Value x) { return f(Math.sin(d(x))); }
    public static Value FAtan2(final Value y, final Value x) { return f(Math.atan2(d(y), d(x))); }
    public static Value FPow(final Value x, final Value y) { return f(Math.pow(d(x), d(y))); }
    public static Value FLt(final Value x, final Value y) { return b(d(x) < d(y)); }
    public static Value FLe(final Value x, final Value y) { return b(d(x) <= d(y)); }
    public static Value FEq(final Value x, final Value y) { return b(d(x) == d(y)); }
    public static Value FIsNaN(final Value x) { return b(Double.isNaN(d(x))); }
    public static Value FIsInf(final Value x) { return b(Double.isInfinite(d(x))); }
    public static Value FIsFinite(final Value x) { return b(Double.isFinite(d(x))); }
    private static boolean close(final double x, final double y, final double a, final double r) {
        if (x == y || (Double.isNaN(x) && Double.isNaN(y))) return true;
        return Math.abs(x - y) <= a + r * Math.max(Math.abs(x), Math.abs(y)) && Double.isFinite(x) && Double.isFinite(y);
    }
    public static Value FClose(final Value x, final Value y, final Value a, final Value r) {
        return b(close(d(x), d(y), d(a), d(r)));
    }
    // ---- vectors and matrices (sequences of rows) ---------------------------------------
    public static Value FSum(final Value s) { double r = 0; for (double x : vec(s)) r += x; return f(r); }
    public static Value FDot(final Value s, final Value t) {
        final double[] x = vec(s), y = vec(t); double r = 0;
        for (int k = 0; k < x.length; k++) r += x[k] * y[k];
        return f(r);
    }
    public static Value VMaxAbs(final Value s) {
        double r = 0; for (double x : vec(s)) r = Math.max(r, Math.abs(x)); return f(r);
    }
    private static double[][] mat(final Value m) {
        final Value[] e = seq(m); final double[][] r = new double[e.length][];
        for (int k = 0; k < r.length; k++) r[k] = vec(e[k]);
        return r;
    }
    private static Value mat(final double[][] x) {
        final Value[] e = new Value[x.length];
        for (int k = 0; k < e.length; k++) e[k] = vec(x[k]);
        return new TupleValue(e);
    }
    public static Value MMaxAbs(final Value m) {
        double r = 0;
        for (double[] row : mat(m)) for (double x : row) r = Math.max(r, Math.abs(x));
        return f(r);
    }
    public static Value MMagn(final Value m) {
        double r = 0;
        for (double[] row : mat(m)) for (double x : row) if (Double.isFinite(x)) r = Math.max(r, Math.abs(x));
        return f(r);
    }
    public static Value MMul(final Value A, final Value B) {
        final double[][] x = mat(A), y = mat(B);
        final int n = x.length, k = y.length, p = k == 0 ? 0 : y[0].length;
        final double[][] r = new double[n][p];
        for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) {
            double s = 0; for (int l = 0; l < k; l++) s += x[i][l] * y[l][j];
            r[i][j] = s;
        }
        return mat(r);
    }
    public static Value MT(final Value A) {
        final Value[] e = seq(A);
        if (e.length == 0) return new TupleValue(new Value[0]);
        final Value[][] x = new Value[e.length][];
        for (int i = 0; i < e.length; i++) x[i] = seq(e[i]);
        final Value[] r = new Value[x[0].length];
        for (int j = 0; j < r.length; j++) {
            final Value[] row = new Value[e.length];
            for (int i = 0; i < e.length; i++) row[i] = x[i][j];
            r[j] = new TupleValue(row);
        }
        return new TupleValue(r);
    }
    private static Value zip(final Value A, final Value B, final java.util.function.DoubleBinaryOperator op) {
        final double[][] x = mat(A), y = mat(B); final double[][] r = new double[x.length][];
        for (int i = 0; i < x.length; i++) {
            r[i] = new double[x[i].length];
            for (int j = 0; j < x[i].length; j++) r[i][j] = op.applyAsDouble(x[i][j], y[i][j]);
        }
        return mat(r);
    }
    public static Value MAdd(final Value A, final Value B) { return zip(A, B, (p, q) -> p + q); }
    public static Value MSub(final Value A, final Value B) { return zip(A, B, (p, q) -> p - q); }
    public static Value MHad(final Value A, final Value B) { return zip(A, B, (p, q) -> p * q); }
    public static Value MScale(final Value A, final Value s) {
        final double[][] x = mat(A); final double c = d(s);
        for (double[] row : x) for (int j = 0; j < row.length; j++) row[j] *= c;
        return mat(x);
    }
    public static Value MClose(final Value A, final Value B, final Value a, final Value r) {
        final Value[] ea = seq(A), eb = seq(B);
        if (ea.length != eb.length) return b(false);
        final double at = d(a), rt = d(r);
        for (int i = 0; i < ea.length; i++) {
            final double[] x = vec(ea[i]), y = vec(eb[i]);
            if (x.length != y.length) return b(false);
            for (int j = 0; j < x.length; j++) if (!close(x[j], y[j], at, rt)) return b(false);
        }
        return b(true);
    }
    // ---- evaluation helper: identity, but materialises lazily evaluated functions --------
    public static Value Force(final Value v) {
        if (v instanceof IntValue || v instanceof BoolValue || v instanceof StringValue) return v;
        if (v instanceof RecordValue) {
            final RecordValue r = (RecordValue) v;
            final Value[] e = new Value[r.values.length];
            for (int k = 0; k < e.length; k++) e[k] = Force(r.values[k]);
            return new RecordValue(r.names, e, r.isNormalized());
        }
        if (v instanceof SetEnumValue || v instanceof IntervalValue) return v;
        final Value t = v.toTuple();
        if (t == null) return v;
        final Value[] e = ((TupleValue) t).elems, r = new Value[e.length];
        for (int k = 0; k < e.length; k++) r[k] = Force(e[k]);
        return new TupleValue(r);
    }
}
