// TLC module override for spec/Mat.tla: linear solve and symmetric eigenproblem, performing the same
// floating-point operations in the same order as the definitions MSolveDef and SymEigDef there
// (spec/NumModel.tla checks that the results are the same bit patterns).
import tlc2.value.impl.*;
import util.UniqueString;

public class Mat {
    private static double d(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    private static Value f(final double x) {
        final long b = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    private static Value[] seq(final Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static double[][] mat(final Value m) {
        final Value[] e = seq(m); final double[][] r = new double[e.length][];
        for (int k = 0; k < r.length; k++) {
            final Value[] row = seq(e[k]);
            r[k] = new double[row.length];
            for (int j = 0; j < row.length; j++) r[k][j] = d(row[j]);
        }
        return r;
    }
    private static Value vec(final double[] x) {
        final Value[] e = new Value[x.length];
        for (int k = 0; k < e.length; k++) e[k] = f(x[k]);
        return new TupleValue(e);
    }
    private static Value mat(final double[][] x) {
        final Value[] e = new Value[x.length];
        for (int k = 0; k < e.length; k++) e[k] = vec(x[k]);
        return new TupleValue(e);
    }
    public static Value MSolve(final Value A, final Value B) {
        final double[][] a = mat(A), b = mat(B);
        final int n = a.length, wb = b[0].length, w = n + wb;
        double[][] m = new double[n][w];
        for (int i = 0; i < n; i++) {
            System.arraycopy(a[i], 0, m[i], 0, n);
            System.arraycopy(b[i], 0, m[i], n, wb);
        }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c; i < n; i++) if (Math.abs(m[p][c]) < Math.abs(m[i][c])) p = i;
            final double[] s = m[p]; m[p] = m[c]; m[c] = s;
            final double piv = s[c], inv = 1.0 / piv;
            for (int i = 0; i < n; i++) if (i != c) {
                final double q = m[i][c] / piv;
                for (int j = 0; j < w; j++) m[i][j] = m[i][j] - q * s[j];
            }
            for (int j = 0; j < w; j++) s[j] = s[j] * inv;
        }
        final double[][] r = new double[n][wb];
        for (int i = 0; i < n; i++) System.arraycopy(m[i], n, r[i], 0, wb);
        return mat(r);
    }
    public static Value SymEig(final Value A) {
        final double[][] a = mat(A);
        final int n = a.length;
        final double[][] v = new double[n][n];
        for (int i = 0; i < n; i++) v[i][i] = 1;
        double big = 0;
        for (double[] row : a) for (double x : row) if (big < Math.abs(x)) big = Math.abs(x);
        final double tiny = Math.pow(10, -15) * big;
        for (int sweep = 1; ; sweep++) {
            for (int p = 0; p < n - 1; p++) for (int q = p + 1; q < n; q++) {
                final double apq = a[p][q];
                if (apq == 0) continue;
                final double th = (a[q][q] - a[p][p]) / (2 * apq);
                final double s0 = 1 / (Math.abs(th) + Math.sqrt(th * th + 1));
                final double t = th < 0 ? -s0 : s0, c = 1 / Math.sqrt(t * t + 1), s = t * c;
                for (double[] row : a) { final double x = row[p], y = row[q]; row[p] = c * x - s * y; row[q] = s * x + c * y; }
                for (int j = 0; j < n; j++) { final double x = a[p][j], y = a[q][j]; a[p][j] = c * x - s * y; a[q][j] = s * x + c * y; }
                for (double[] row : v) { final double x = row[p], y = row[q]; row[p] = c * x - s * y; row[q] = s * x + c * y; }
            }
            double off = 0;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && off < Math.abs(a[i][j])) off = Math.abs(a[i][j]);
            if (sweep >= 12 || off <= tiny) break;
        }
        final double[] e = new double[n];
        for (int i = 0; i < n; i++) e[i] = a[i][i];
        return new RecordValue(new UniqueString[]{UniqueString.of("d"), UniqueString.of("v")}, new Value[]{vec(e), mat(v)}, false);
    }
}
