// TLC module override: the operators of BigNat.tla on int arrays instead of recursion.
// MC_BigNat checks it against the TLA+ definitions.
import tlc2.value.impl.*;

public class BigNat {
    static final int BASE = 10000;

    static int[] in(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int[] r = new int[e.length];
        for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val;
        return r;
    }

    static Value out(int[] a) {
        int n = a.length;
        while (n > 0 && a[n - 1] == 0) n--;
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = IntValue.gen(a[i]);
        return new TupleValue(e);
    }

    static int cmp(int[] a, int[] b) {
        if (a.length != b.length) return a.length < b.length ? -1 : 1;
        for (int i = a.length - 1; i >= 0; i--)
            if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        return 0;
    }

    static int[] sub(int[] a, int[] b) {
        int[] r = new int[a.length];
        int borrow = 0;
        for (int i = 0; i < a.length; i++) {
            int s = a[i] - (i < b.length ? b[i] : 0) - borrow;
            borrow = s < 0 ? 1 : 0;
            r[i] = s < 0 ? s + BASE : s;
        }
        return r;
    }

    static int[] small(int[] a, long m) {
        int[] r = new int[a.length + 3];
        long c = 0;
        for (int i = 0; i < r.length; i++) {
            long s = (i < a.length ? a[i] * m : 0) + c;
            r[i] = (int) (s % BASE);
            c = s / BASE;
        }
        return r;
    }

    public static Value BnNorm(Value a) { return out(in(a)); }

    public static Value BnOf(Value n) {
        int v = ((IntValue) n).val;
        return out(new int[] {v % BASE, v / BASE % BASE, v / BASE / BASE});
    }

    public static Value BnAdd(Value x, Value y) {
        int[] a = in(x), b = in(y), r = new int[Math.max(a.length, b.length) + 1];
        int c = 0;
        for (int i = 0; i < r.length; i++) {
            int s = (i < a.length ? a[i] : 0) + (i < b.length ? b[i] : 0) + c;
            r[i] = s % BASE;
            c = s / BASE;
        }
        return out(r);
    }

    public static Value BnSub(Value x, Value y) { return out(sub(in(x), in(y))); }

    public static Value BnCmp(Value x, Value y) { return IntValue.gen(cmp(in(x), in(y))); }

    public static Value BnDiff(Value x, Value y) {
        int[] a = in(x), b = in(y);
        return out(cmp(a, b) >= 0 ? sub(a, b) : sub(b, a));
    }

    public static Value BnMulSmall(Value x, Value m) { return out(small(in(x), ((IntValue) m).val)); }

    public static Value BnDivSmall(Value x, Value m) {
        int[] a = in(x), r = new int[a.length];
        int d = ((IntValue) m).val;
        long rest = 0;
        for (int i = a.length - 1; i >= 0; i--) {
            long s = rest * BASE + a[i];
            r[i] = (int) (s / d);
            rest = s % d;
        }
        return out(r);
    }

    public static Value BnMul(Value x, Value y) {
        int[] a = in(x), b = in(y), r = new int[a.length + b.length + 1];
        for (int i = 0; i < a.length; i++) {
            long c = 0;
            for (int j = 0; j < b.length || c > 0; j++) {
                long s = r[i + j] + c + (j < b.length ? (long) a[i] * b[j] : 0);
                r[i + j] = (int) (s % BASE);
                c = s / BASE;
            }
        }
        return out(r);
    }

    public static Value BnMulPow2(Value x, Value e) {
        int[] a = in(x);
        int j = ((IntValue) e).val;
        if (a.length == 0) return x;
        while (j > 0) {
            int k = Math.min(j, 26);
            int[] r = small(a, 1L << k);
            int n = r.length;
            while (n > 0 && r[n - 1] == 0) n--;
            a = java.util.Arrays.copyOf(r, n);
            j -= k;
        }
        return out(a);
    }
}
