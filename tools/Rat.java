// TLC module override for spec/Rat.tla: exact rational arithmetic.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.math.BigInteger;
import java.util.HashMap;

public class Rat {
    static final class Q {
        final BigInteger n, d;      // d > 0, gcd = 1; d == 0 <=> nan
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean nan() { return d.signum() == 0; }
    }
    static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);
    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (d.equals(BigInteger.ONE)) return new Q(n, d);
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        return new Q(n, d);
    }
    static final HashMap<String, Q> cache = new HashMap<>();
    static Q parse(String s) {
        synchronized (cache) {
            Q r = cache.get(s);
            if (r == null) {
                r = parse0(s);
                if (cache.size() > 200000) cache.clear();
                cache.put(s, r);
            }
            return r;
        }
    }
    static Q parse0(String s) {
        if (s.equals("nan") || s.equals("inf") || s.equals("-inf")) return NAN;
        int p = s.indexOf('p');
        if (p >= 0) {
            BigInteger m = new BigInteger(s.substring(0, p));
            int e = Integer.parseInt(s.substring(p + 1));
            return e >= 0 ? mk(m.shiftLeft(e), BigInteger.ONE) : mk(m, BigInteger.ONE.shiftLeft(-e));
        }
        int sl = s.indexOf('/');
        if (sl >= 0) return mk(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
        int ee = s.indexOf('e');
        if (ee >= 0 || s.indexOf('.') >= 0) {
            java.math.BigDecimal bd = new java.math.BigDecimal(s);
            BigInteger u = bd.unscaledValue();
            return bd.scale() >= 0 ? mk(u, BigInteger.TEN.pow(bd.scale()))
                                   : mk(u.multiply(BigInteger.TEN.pow(-bd.scale())), BigInteger.ONE);
        }
        return mk(new BigInteger(s), BigInteger.ONE);
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("Rat: not a number: " + v);
    }
    static final BigInteger LIM = BigInteger.valueOf(1000000000L);
    static Value v(Q x) {
        if (x.nan()) return new StringValue("nan");
        if (x.d.equals(BigInteger.ONE)) {
            if (x.n.abs().compareTo(LIM) < 0) return IntValue.gen(x.n.intValue());
            return new StringValue(x.n.toString());
        }
        return new StringValue(x.n.toString() + "/" + x.d.toString());
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q add(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return a.nan() ? a : new Q(a.n.negate(), a.d); }
    static Q sub(Q a, Q b) { return add(a, neg(b)); }
    static Q mul(Q a, Q b) { return a.nan() || b.nan() ? NAN : mk(a.n.multiply(b.n), a.d.multiply(b.d)); }
    static Q div(Q a, Q b) { return a.nan() || b.nan() || b.n.signum() == 0 ? NAN : mk(a.n.multiply(b.d), a.d.multiply(b.n)); }
    static Q abs(Q a) { return a.nan() ? a : new Q(a.n.abs(), a.d); }
    static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
    static boolean lt(Q a, Q b) { return !a.nan() && !b.nan() && cmp(a, b) < 0; }
    static boolean le(Q a, Q b) { return !a.nan() && !b.nan() && cmp(a, b) <= 0; }
    static boolean eq(Q a, Q b) { return !a.nan() && !b.nan() && cmp(a, b) == 0; }
    static Q max(Q a, Q b) { return a.nan() || b.nan() ? NAN : cmp(a, b) < 0 ? b : a; }
    static Q min(Q a, Q b) { return a.nan() || b.nan() ? NAN : cmp(a, b) < 0 ? a : b; }
    static Q trim(Q a, int bits) {
        if (a.nan() || a.n.signum() == 0) return a;
        int e = a.n.abs().bitLength() - a.d.bitLength();     // |a| ~ 2^e
        int sh = bits - e;                                     // scale by 2^sh
        BigInteger num = a.n, den = a.d;
        if (sh >= 0) num = num.shiftLeft(sh); else den = den.shiftLeft(-sh);
        BigInteger two = BigInteger.TWO;
        BigInteger r = num.multiply(two).add(num.signum() >= 0 ? den : den.negate()).divide(den.multiply(two));
        return sh >= 0 ? mk(r, BigInteger.ONE.shiftLeft(sh)) : mk(r.shiftLeft(-sh), BigInteger.ONE);
    }
    static boolean close(Q a, Q b, Q ta, Q tr) {
        return le(abs(sub(a, b)), add(ta, mul(tr, max(abs(a), abs(b)))));
    }

    public static Value RAdd(Value a, Value b) { return v(add(q(a), q(b))); }
    public static Value RSub(Value a, Value b) { return v(sub(q(a), q(b))); }
    public static Value RMul(Value a, Value b) { return v(mul(q(a), q(b))); }
    public static Value RDiv(Value a, Value b) { return v(div(q(a), q(b))); }
    public static Value RNeg(Value a) { return v(neg(q(a))); }
    public static Value RAbs(Value a) { return v(abs(q(a))); }
    public static Value RPow(Value a, Value n) {
        Q x = q(a); int k = ((IntValue) n).val;
        if (x.nan()) return v(x);
        return v(mk(x.n.pow(k), x.d.pow(k)));
    }
    public static Value REq(Value a, Value b) { return b(eq(q(a), q(b))); }
    public static Value RLt(Value a, Value b) { return b(lt(q(a), q(b))); }
    public static Value RLe(Value a, Value b) { return b(le(q(a), q(b))); }
    public static Value RGt(Value a, Value b) { return b(lt(q(b), q(a))); }
    public static Value RGe(Value a, Value b) { return b(le(q(b), q(a))); }
    public static Value RSgn(Value a) { return IntValue.gen(q(a).n.signum()); }
    public static Value RMax(Value a, Value b) { return v(max(q(a), q(b))); }
    public static Value RMin(Value a, Value b) { return v(min(q(a), q(b))); }
    public static Value RIsNum(Value a) { return b(!q(a).nan()); }
    public static Value RNum(Value a) { return v(q(a)); }
    public static Value RFloor(Value a) {
        Q x = q(a);
        if (x.nan()) return v(x);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        return v(new Q(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0], BigInteger.ONE));
    }
    public static Value RTrim(Value a, Value n) { return v(trim(q(a), ((IntValue) n).val)); }
    public static Value RSqrt(Value a) {
        Q x = q(a);
        if (x.nan() || x.n.signum() < 0) return v(NAN);
        if (x.n.signum() == 0) return v(ZERO);
        int e = x.n.bitLength() - x.d.bitLength();
        int sh = 420 - e; if ((sh & 1) != 0) sh++;
        BigInteger num = x.n, den = x.d;
        if (sh >= 0) num = num.shiftLeft(sh); else den = den.shiftLeft(-sh);
        BigInteger r = num.divide(den).sqrt();
        int hs = sh / 2;
        return v(hs >= 0 ? mk(r, BigInteger.ONE.shiftLeft(hs)) : mk(r.shiftLeft(-hs), BigInteger.ONE));
    }
    public static Value RFmt(Value a) {
        Q x = q(a);
        if (x.nan()) return new StringValue("nan");
        return new StringValue(new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), new java.math.MathContext(17)).toString());
    }
    public static Value RClose(Value a, Value b, Value ta, Value tr) { return b(close(q(a), q(b), q(ta), q(tr))); }

    static Q[] vec(Value a) {
        Value t = a.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a vector: " + a);
        Value[] e = ((TupleValue) t).elems;
        Q[] r = new Q[e.length];
        for (int i = 0; i < r.length; ++i) r[i] = q(e[i]);
        return r;
    }
    static Value vv(Q[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; ++i) e[i] = v(a[i]);
        return new TupleValue(e);
    }
    static Q[][] mat(Value a) {
        Value t = a.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a matrix: " + a);
        Value[] e = ((TupleValue) t).elems;
        Q[][] r = new Q[e.length][];
        for (int i = 0; i < r.length; ++i) r[i] = vec(e[i]);
        return r;
    }
    static Value mm(Q[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; ++i) e[i] = vv(a[i]);
        return new TupleValue(e);
    }
    static void same(Q[] a, Q[] b) {
        if (a.length != b.length) throw new RuntimeException("Rat: vector lengths differ: " + a.length + ", " + b.length);
    }
    static Q dot(Q[] a, Q[] b) {
        same(a, b);
        Q s = ZERO;
        for (int i = 0; i < a.length; ++i) if (a[i].n.signum() != 0 || a[i].nan()) s = add(s, mul(a[i], b[i]));
        return s;
    }
    static Q norm(Q[] a) {
        Q s = ZERO;
        for (Q x : a) s = max(s, abs(x));
        return s;
    }
    public static Value VAdd(Value a, Value b) {
        Q[] x = vec(a), y = vec(b); same(x, y);
        Q[] r = new Q[x.length];
        for (int i = 0; i < r.length; ++i) r[i] = add(x[i], y[i]);
        return vv(r);
    }
    public static Value VSub(Value a, Value b) {
        Q[] x = vec(a), y = vec(b); same(x, y);
        Q[] r = new Q[x.length];
        for (int i = 0; i < r.length; ++i) r[i] = sub(x[i], y[i]);
        return vv(r);
    }
    public static Value VScale(Value s, Value a) {
        Q k = q(s); Q[] x = vec(a);
        Q[] r = new Q[x.length];
        for (int i = 0; i < r.length; ++i) r[i] = mul(k, x[i]);
        return vv(r);
    }
    public static Value VAxpy(Value s, Value a, Value b) {
        Q k = q(s); Q[] x = vec(a), y = vec(b); same(x, y);
        Q[] r = new Q[x.length];
        for (int i = 0; i < r.length; ++i) r[i] = add(mul(k, x[i]), y[i]);
        return vv(r);
    }
    public static Value VTrim(Value a, Value n) {
        Q[] x = vec(a); int k = ((IntValue) n).val;
        for (int i = 0; i < x.length; ++i) x[i] = trim(x[i], k);
        return vv(x);
    }
    public static Value VNum(Value a) { return vv(vec(a)); }
    public static Value VDot(Value a, Value b) { return v(dot(vec(a), vec(b))); }
    public static Value VSum(Value a) { Q s = ZERO; for (Q x : vec(a)) s = add(s, x); return v(s); }
    public static Value VInfNorm(Value a) { return v(norm(vec(a))); }
    public static Value VEq(Value a, Value b) {
        Q[] x = vec(a), y = vec(b);
        if (x.length != y.length) return b(false);
        for (int i = 0; i < x.length; ++i) if (!eq(x[i], y[i])) return b(false);
        return b(true);
    }
    public static Value VAllNum(Value a) { for (Q x : vec(a)) if (x.nan()) return b(false); return b(true); }
    public static Value VZero(Value n) {
        Q[] r = new Q[((IntValue) n).val];
        java.util.Arrays.fill(r, ZERO);
        return vv(r);
    }
    public static Value VClose(Value a, Value b, Value ta, Value tr) {
        Q[] x = vec(a), y = vec(b);
        if (x.length != y.length) return b(false);
        Q lim = add(q(ta), mul(q(tr), max(norm(x), norm(y))));
        for (int i = 0; i < x.length; ++i) if (!le(abs(sub(x[i], y[i])), lim)) return b(false);
        return b(true);
    }
    public static Value MVec(Value m, Value a) {
        Q[][] x = mat(m); Q[] y = vec(a);
        Q[] r = new Q[x.length];
        for (int i = 0; i < r.length; ++i) r[i] = dot(x[i], y);
        return vv(r);
    }
    public static Value MMul(Value a, Value b) {
        Q[][] x = mat(a), y = mat(b);
        int n = x.length, k = y.length, m = k == 0 ? 0 : y[0].length;
        Q[][] r = new Q[n][m];
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < m; ++j) {
                Q s = ZERO;
                for (int l = 0; l < k; ++l) if (x[i][l].n.signum() != 0) s = add(s, mul(x[i][l], y[l][j]));
                r[i][j] = s;
            }
        return mm(r);
    }
    public static Value MTrans(Value a) {
        Q[][] x = mat(a);
        int n = x.length, m = n == 0 ? 0 : x[0].length;
        Q[][] r = new Q[m][n];
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) r[j][i] = x[i][j];
        return mm(r);
    }
    // Gauss elimination; returns null if singular. det[0] receives the determinant.
    static Q[] solve(Q[][] a, Q[] b, Q[] det) {
        int n = a.length;
        Q d = ONE;
        for (int c = 0; c < n; ++c) {
            int p = -1;
            for (int i = c; i < n; ++i) if (a[i][c].nan()) { det[0] = NAN; return null; }
                else if (p < 0 && a[i][c].n.signum() != 0) p = i;
            if (p < 0) { det[0] = ZERO; return null; }
            if (p != c) {
                Q[] t = a[p]; a[p] = a[c]; a[c] = t;
                Q s = b[p]; b[p] = b[c]; b[c] = s;
                d = neg(d);
            }
            d = mul(d, a[c][c]);
            for (int i = c + 1; i < n; ++i) {
                if (a[i][c].n.signum() == 0 && !a[i][c].nan()) continue;
                Q f = div(a[i][c], a[c][c]);
                for (int j = c; j < n; ++j) a[i][j] = sub(a[i][j], mul(f, a[c][j]));
                b[i] = sub(b[i], mul(f, b[c]));
            }
        }
        det[0] = d;
        for (int i = n - 1; i >= 0; --i) {
            Q s = b[i];
            for (int j = i + 1; j < n; ++j) s = sub(s, mul(a[i][j], b[j]));
            b[i] = div(s, a[i][i]);
        }
        return b;
    }
    public static Value MSolve(Value m, Value a) {
        Q[] r = solve(mat(m), vec(a), new Q[1]);
        return r == null ? new TupleValue(new Value[0]) : vv(r);
    }
    public static Value MDet(Value m) {
        Q[][] x = mat(m); Q[] z = new Q[x.length]; java.util.Arrays.fill(z, ZERO);
        Q[] det = { ONE };
        solve(x, z, det);
        return v(det[0]);
    }
    static final UniqueString UC = UniqueString.uniqueStringOf("c"), UP = UniqueString.uniqueStringOf("p");
    public static Value PolyEval(Value poly, Value x) {
        Q[] p = vec(x);
        Value[] terms = ((TupleValue) poly.toTuple()).elems;
        Q s = ZERO;
        for (Value t0 : terms) {
            RecordValue t = (RecordValue) t0.toRcd();
            Q c = q((Value) t.apply(new StringValue(UC), 0));
            Value[] ex = ((TupleValue) ((Value) t.apply(new StringValue(UP), 0)).toTuple()).elems;
            for (int i = 0; i < ex.length; ++i) {
                int k = ((IntValue) ex[i]).val;
                if (k != 0) c = mul(c, p[i].nan() ? NAN : mk(p[i].n.pow(k), p[i].d.pow(k)));
            }
            s = add(s, c);
        }
        return v(s);
    }
    static Q poly(Value poly, Q[] p) {
        Value[] terms = ((TupleValue) poly.toTuple()).elems;
        Q s = ZERO;
        for (Value t0 : terms) {
            RecordValue t = (RecordValue) t0.toRcd();
            Q c = q((Value) t.apply(new StringValue(UC), 0));
            Value[] ex = ((TupleValue) ((Value) t.apply(new StringValue(UP), 0)).toTuple()).elems;
            for (int i = 0; i < ex.length; ++i) {
                int k = ((IntValue) ex[i]).val;
                if (k != 0) c = mul(c, p[i].nan() ? NAN : mk(p[i].n.pow(k), p[i].d.pow(k)));
            }
            s = add(s, c);
        }
        return s;
    }
    public static Value PolyMap(Value polys, Value t, Value x, Value bits) {
        Q[] xv = vec(x);
        Q[] pt = new Q[xv.length + 1];
        pt[0] = q(t);
        System.arraycopy(xv, 0, pt, 1, xv.length);
        Value[] ps = ((TupleValue) polys.toTuple()).elems;
        Q[] r = new Q[ps.length];
        int n = ((IntValue) bits).val;
        for (int i = 0; i < r.length; ++i) r[i] = trim(poly(ps[i], pt), n);
        return vv(r);
    }
    public static Value VComb(Value x0, Value coefs, Value vecs) {
        Q[] r = vec(x0).clone();
        Q[] c = vec(coefs);
        Value[] vs = ((TupleValue) vecs.toTuple()).elems;
        for (int k = 0; k < c.length; ++k) {
            if (c[k].n.signum() == 0 && !c[k].nan()) continue;
            Q[] w = vec(vs[k]);
            for (int i = 0; i < r.length; ++i) r[i] = add(r[i], mul(c[k], w[i]));
        }
        return vv(r);
    }
    public static Value RRoot(Value a, Value n) {
        Q x = q(a);
        int k = ((IntValue) n).val;
        if (x.nan() || x.n.signum() < 0) return v(NAN);
        if (x.n.signum() == 0) return v(ZERO);
        int e = x.n.bitLength() - x.d.bitLength();
        int hs = 200 - (int) Math.floor((double) e / k);
        int sh = hs * k;
        BigInteger num = x.n, den = x.d;
        if (sh >= 0) num = num.shiftLeft(sh); else den = den.shiftLeft(-sh);
        BigInteger y = num.divide(den);
        // integer k-th root by Newton's method from above
        BigInteger r = BigInteger.ONE.shiftLeft(y.bitLength() / k + 1);
        while (true) {
            BigInteger z = r.multiply(BigInteger.valueOf(k - 1)).add(y.divide(r.pow(k - 1))).divide(BigInteger.valueOf(k));
            if (z.compareTo(r) >= 0) break;
            r = z;
        }
        return v(hs >= 0 ? mk(r, BigInteger.ONE.shiftLeft(hs)) : mk(r.shiftLeft(-hs), BigInteger.ONE));
    }
    static Value str(Q x) { return new StringValue(x.nan() ? "nan" : x.d.equals(BigInteger.ONE) ? x.n.toString() : x.n + "/" + x.d); }
    public static Value RStr(Value a) { return str(q(a)); }
    public static Value VStr(Value a) {
        Q[] x = vec(a);
        Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; ++i) e[i] = str(x[i]);
        return new TupleValue(e);
    }
}
