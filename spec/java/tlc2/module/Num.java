package tlc2.module;
// Accelerators for the operators DEFINED in spec/Num.tla (TLC "module override").
// Semantics are those of Num.tla; spec/NumSelf.tla (run by ./check setup) compares
// every operator below with its TLA+ definition.
import tlc2.value.impl.*;

public class Num {
  static final long LIM = 1000000000L;
  static final long P0 = 30011L;
  private static RuntimeException err(String s) { return new RuntimeException("Num: " + s); }
  private static IntValue iv(long x) {
    if (x > Integer.MAX_VALUE || x < Integer.MIN_VALUE) throw err("integer overflow " + x);
    return IntValue.gen((int) x);
  }
  private static long in(Value v) { return ((IntValue) v).val; }
  private static long in(long x) { return x; }
  private static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw err("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  private static TupleValue tup(Value[] e) { return new TupleValue(e); }
  private static long gcd(long a, long b) { while (b != 0) { long t = Math.floorMod(a, b); a = b; b = t; } return a; }
  private static long chk(long x) { if (x > Integer.MAX_VALUE || x < Integer.MIN_VALUE) throw err("integer overflow " + x); return x; }

  // ---- rationals as long[2]
  private static long[] q(Value v) { Value[] e = seq(v); return new long[]{in(e[0]), in(e[1])}; }
  private static Value qv(long[] a) { return tup(new Value[]{iv(a[0]), iv(a[1])}); }
  private static final long[] BAD = {0, 0};
  private static long[] rat(long n, long d) {
    if (d == 0) return BAD;
    long s = d < 0 ? -1 : 1;
    long g = gcd(Math.abs(n), Math.abs(d));
    long nn = s * (n / g), dd = s * (d / g);
    if (nn > LIM || nn < -LIM || dd > LIM) return BAD;
    return new long[]{nn, dd};
  }
  private static long[] mk(long n) { return (n > LIM || n < -LIM) ? BAD : new long[]{n, 1}; }
  private static long[] neg(long[] a) { return new long[]{-a[0], a[1]}; }
  private static long[] add(long[] a, long[] b) {
    if (a[1] == 0 || b[1] == 0) return BAD;
    if (a[1] == 1 && b[1] == 1) return mk(a[0] + b[0]);
    long g = gcd(a[1], b[1]), e = b[1] / g, f = a[1] / g;
    if (a[1] > 1000000000L / e) return BAD;
    return rat(a[0] * e + b[0] * f, a[1] * e);
  }
  private static long[] sub(long[] a, long[] b) { return add(a, neg(b)); }
  private static long[] mul(long[] a, long[] b) {
    if (a[1] == 0 || b[1] == 0) return BAD;
    long g1 = Math.max(gcd(Math.abs(a[0]), b[1]), 1), g2 = Math.max(gcd(Math.abs(b[0]), a[1]), 1);
    return rat((a[0] / g1) * (b[0] / g2), (a[1] / g2) * (b[1] / g1));
  }
  private static long[] inv(long[] a) {
    if (a[0] == 0 || a[1] == 0) return BAD;
    return a[0] < 0 ? new long[]{-a[1], -a[0]} : new long[]{a[1], a[0]};
  }
  private static long[] div(long[] a, long[] b) { return mul(a, inv(b)); }
  private static boolean le(long[] a, long[] b) { return a[0] * b[1] <= b[0] * a[1]; }
  private static long[][] qs(Value v) { Value[] e = seq(v); long[][] r = new long[e.length][]; for (int i = 0; i < e.length; i++) r[i] = q(e[i]); return r; }
  private static long[][][] qm(Value v) { Value[] e = seq(v); long[][][] r = new long[e.length][][]; for (int i = 0; i < e.length; i++) r[i] = qs(e[i]); return r; }
  private static Value qsv(long[][] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = qv(a[i]); return tup(e); }
  private static Value qmv(long[][][] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = qsv(a[i]); return tup(e); }
  private static long[] is(Value v) { Value[] e = seq(v); long[] r = new long[e.length]; for (int i = 0; i < e.length; i++) r[i] = in(e[i]); return r; }
  private static long[][] im(Value v) { Value[] e = seq(v); long[][] r = new long[e.length][]; for (int i = 0; i < e.length; i++) r[i] = is(e[i]); return r; }
  private static Value isv(long[] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = iv(a[i]); return tup(e); }
  private static Value imv(long[][] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = isv(a[i]); return tup(e); }

  public static Value GCD(Value a, Value b) { return iv(gcd(in(a), in(b))); }
  public static Value IPow(Value x, Value k) { long r = 1; for (long i = in(k); i > 0; i--) r = chk(in(x) * r); return iv(r); }
  public static Value SumTo(Value f, Value k) { Value[] e = seq(f); long s = 0; for (int i = 0; i < in(k); i++) s = chk(s + in(e[i])); return iv(s); }
  public static Value ISqrt(Value n) { return iv(isq(in(n))); }
  private static long isq(long x) {           // floor, for 0 <= x; smaller than 0 gives 0 (as the bisection does)
    if (x <= 0) return 0;
    long r = (long) Math.sqrt((double) x); while (r * r > x) r--; while ((r + 1) * (r + 1) <= x) r++;
    return Math.min(r, 46340);
  }
  public static Value Rat(Value n, Value d) { return qv(rat(in(n), in(d))); }
  public static Value I(Value n) { return qv(mk(in(n))); }
  public static Value RNeg(Value a) { return qv(neg(q(a))); }
  public static Value RAdd(Value a, Value b) { return qv(add(q(a), q(b))); }
  public static Value RSub(Value a, Value b) { return qv(sub(q(a), q(b))); }
  public static Value RMul(Value a, Value b) { return qv(mul(q(a), q(b))); }
  public static Value RInv(Value a) { return qv(inv(q(a))); }
  public static Value RDiv(Value a, Value b) { return qv(div(q(a), q(b))); }
  public static Value RLt(Value a, Value b) { long[] x = q(a), y = q(b); return x[0] * y[1] < y[0] * x[1] ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLe(Value a, Value b) { return le(q(a), q(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RPow(Value a, Value k) {
    long[] x = q(a); long n = in(k);
    long[] r = {1, 1};
    for (long i = Math.abs(n); i > 0; i--) r = mul(x, r);
    return qv(n < 0 ? inv(r) : r);
  }
  public static Value RSumTo(Value f, Value k) {
    Value[] e = seq(f); long n = in(k);
    if (n == 0) return qv(new long[]{0, 1});
    long[] s = q(e[0]);
    for (int i = 1; i < n; i++) s = add(s, q(e[i]));
    return qv(s);
  }
  public static Value RMaxTo(Value f, Value k) { Value[] e = seq(f); long[] s = q(e[0]); for (int i = 1; i < in(k); i++) { long[] y = q(e[i]); if (le(s, y)) s = y; } return qv(s); }
  public static Value RMinTo(Value f, Value k) { Value[] e = seq(f); long[] s = q(e[0]); for (int i = 1; i < in(k); i++) { long[] y = q(e[i]); if (!le(s, y)) s = y; } return qv(s); }
  public static Value BadV(Value v) { Value[] e = seq(v); for (Value x : e) if (q(x)[1] == 0) return BoolValue.ValTrue; return BoolValue.ValFalse; }
  public static Value BadM(Value v) { Value[] e = seq(v); for (Value x : e) if (BadV(x) == BoolValue.ValTrue) return BoolValue.ValTrue; return BoolValue.ValFalse; }

  public static Value T(Value M) {
    Value[] r = seq(M); Value[][] m = new Value[r.length][];
    for (int i = 0; i < r.length; i++) m[i] = seq(r[i]);
    int nc = m[0].length; Value[] o = new Value[nc];
    for (int j = 0; j < nc; j++) { Value[] c = new Value[r.length]; for (int i = 0; i < r.length; i++) c[i] = m[i][j]; o[j] = tup(c); }
    return tup(o);
  }
  public static Value FromCols(Value C) { return T(C); }
  public static Value Flatten(Value ss) {
    Value[] r = seq(ss); java.util.ArrayList<Value> o = new java.util.ArrayList<>();
    for (Value x : r) for (Value y : seq(x)) o.add(y);
    return tup(o.toArray(new Value[0]));
  }
  private static long idot(long[] u, long[] v) { long s = 0; for (int i = 0; i < u.length; i++) s = chk(s + chk(u[i] * v[i])); return s; }
  public static Value IDot(Value u, Value v) { return iv(idot(is(u), is(v))); }
  public static Value IMulV(Value A, Value x) { long[][] a = im(A); long[] v = is(x), r = new long[a.length]; for (int i = 0; i < r.length; i++) r[i] = idot(a[i], v); return isv(r); }
  public static Value IMul(Value A, Value B) {
    long[][] a = im(A), b = im(T(B)); long[][] r = new long[a.length][b.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < b.length; j++) r[i][j] = idot(a[i], b[j]);
    return imv(r);
  }
  private static long[] rdot(long[][] u, long[][] v) {
    if (u.length == 0) return new long[]{0, 1};
    long[] s = mul(u[0], v[0]);
    for (int i = 1; i < u.length; i++) s = add(s, mul(u[i], v[i]));
    return s;
  }
  public static Value RDot(Value u, Value v) { return qv(rdot(qs(u), qs(v))); }
  public static Value RMulV(Value A, Value x) { long[][][] a = qm(A); long[][] v = qs(x), r = new long[a.length][]; for (int i = 0; i < r.length; i++) r[i] = rdot(a[i], v); return qsv(r); }
  public static Value RMatMul(Value A, Value B) {
    long[][][] a = qm(A), b = qm(T(B)); long[][][] r = new long[a.length][b.length][];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < b.length; j++) r[i][j] = rdot(a[i], b[j]);
    return qmv(r);
  }
  public static Value RMatAdd(Value A, Value B) { long[][][] a = qm(A), b = qm(B); for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] = add(a[i][j], b[i][j]); return qmv(a); }
  public static Value RMatSub(Value A, Value B) { long[][][] a = qm(A), b = qm(B); for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] = sub(a[i][j], b[i][j]); return qmv(a); }
  public static Value RMatScale(Value s, Value A) { long[] k = q(s); long[][][] a = qm(A); for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] = mul(k, a[i][j]); return qmv(a); }
  public static Value RVAdd(Value u, Value v) { long[][] a = qs(u), b = qs(v); for (int i = 0; i < a.length; i++) a[i] = add(a[i], b[i]); return qsv(a); }
  public static Value RVSub(Value u, Value v) { long[][] a = qs(u), b = qs(v); for (int i = 0; i < a.length; i++) a[i] = sub(a[i], b[i]); return qsv(a); }
  public static Value RVScale(Value s, Value v) { long[] k = q(s); long[][] a = qs(v); for (int i = 0; i < a.length; i++) a[i] = mul(k, a[i]); return qsv(a); }
  private static long det(long[][] m) {
    int n = m.length;
    if (n == 0) return 1;
    if (n == 1) return m[0][0];
    if (n == 2) return chk(chk(m[0][0] * m[1][1]) - chk(m[0][1] * m[1][0]));
    long s = 0;
    for (int j = 0; j < n; j++) s = chk(s + chk((j % 2 == 0 ? 1 : -1) * m[0][j] * det(minor(m, 0, j))));
    return s;
  }
  private static long[][] minor(long[][] m, int i, int j) {
    int n = m.length; long[][] r = new long[n - 1][n - 1];
    for (int a = 0; a < n - 1; a++) for (int b = 0; b < n - 1; b++) r[a][b] = m[a < i ? a : a + 1][b < j ? b : b + 1];
    return r;
  }
  public static Value Det(Value M) { return iv(det(im(M))); }
  private static long[][][] gauss(long[][][] a, long[][][] b) {
    int n = a.length;
    for (int k = 0; k < n; k++) {
      int p = -1;
      for (int i = k; i < n; i++) if (a[i][k][0] != 0) { p = i; break; }
      if (p < 0) throw err("singular or overflowing system in RSolve");
      long[][] t = a[k]; a[k] = a[p]; a[p] = t; t = b[k]; b[k] = b[p]; b[p] = t;
      long[] pv = inv(a[k][k]);
      for (int j = 0; j < a[k].length; j++) a[k][j] = mul(pv, a[k][j]);
      for (int j = 0; j < b[k].length; j++) b[k][j] = mul(pv, b[k][j]);
      for (int i = 0; i < n; i++) {
        if (i == k || (a[i][k][0] == 0 && a[i][k][1] != 0)) continue;
        long[] f = a[i][k];
        for (int j = 0; j < a[i].length; j++) if (j != k) a[i][j] = sub(a[i][j], mul(f, a[k][j]));
        for (int j = 0; j < b[i].length; j++) b[i][j] = sub(b[i][j], mul(f, b[k][j]));
        a[i][k] = sub(a[i][k], mul(f, a[k][k]));
      }
    }
    return b;
  }
  public static Value RSolve(Value A, Value B) { return qmv(gauss(qm(A), qm(B))); }
  private static long modpow(long a, long e) { long r = 1; a %= P0; while (e > 0) { if ((e & 1) == 1) r = r * a % P0; a = a * a % P0; e >>= 1; } return r; }
  public static Value RankLB(Value M) {
    long[][] m = im(M); int nr = m.length, nc = m[0].length, r = 0;
    for (long[] row : m) for (int j = 0; j < nc; j++) row[j] = Math.floorMod(row[j], P0);
    for (int c = 0; c < nc && r < nr; c++) {
      int p = -1; for (int i = r; i < nr; i++) if (m[i][c] != 0) { p = i; break; }
      if (p < 0) continue;
      long[] t = m[r]; m[r] = m[p]; m[p] = t;
      long v = modpow(m[r][c], P0 - 2);
      for (int i = r + 1; i < nr; i++) if (m[i][c] != 0) {
        long f = m[i][c] * v % P0;
        for (int j = 0; j < nc; j++) m[i][j] = Math.floorMod(m[i][j] - f * m[r][j], P0);
      }
      r++;
    }
    return iv(r);
  }
  private static long mix(long a) { long b = Math.floorMod(a * 1103 + 12345, 32749L); return Math.floorMod(b * b + 7919 * (b / 128), 32749L); }
  private static long h2(long s, long i) { return mix(Math.floorMod(mix(Math.floorMod(s, 32749L)) + i * 7919, 32749L)); }
  private static long h3(long s, long i, long j) { return mix(Math.floorMod(h2(s, i) + j * 6007, 32749L)); }
  private static long pick(long s, long i, long j, long lo, long hi) { return lo + (h3(s, i, j) / 7) % (hi - lo + 1); }
  public static Value Hash2(Value s, Value i) { return iv(h2(in(s), in(i))); }
  public static Value Hash3(Value s, Value i, Value j) { return iv(h3(in(s), in(i), in(j))); }
  public static Value Pick(Value s, Value i, Value j, Value lo, Value hi) { return iv(pick(in(s), in(i), in(j), in(lo), in(hi))); }
  public static Value RandMat(Value s, Value m, Value n, Value lo, Value hi) {
    long[][] r = new long[(int) in(m)][(int) in(n)];
    for (int i = 0; i < r.length; i++) for (int j = 0; j < r[i].length; j++) r[i][j] = pick(in(s), i + 1, j + 1, in(lo), in(hi));
    return imv(r);
  }
  public static Value RandVec(Value s, Value n, Value lo, Value hi) {
    long[] r = new long[(int) in(n)];
    for (int i = 0; i < r.length; i++) r[i] = pick(in(s), 97, i + 1, in(lo), in(hi));
    return isv(r);
  }
  public static Value ToR(Value M) { long[][] a = im(M); long[][][] r = new long[a.length][][]; for (int i = 0; i < a.length; i++) { r[i] = new long[a[i].length][]; for (int j = 0; j < a[i].length; j++) r[i][j] = mk(a[i][j]); } return qmv(r); }
}
