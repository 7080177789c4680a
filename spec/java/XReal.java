// TLC override of the operators of module XReal.tla: exact extended reals
// (rationals n/d*2^e, +oo, -oo, nan) written as canonical strings, rounding to
// floating-point formats, and exact comparison with elementary functions.
import java.math.BigInteger;
import java.util.*;
import java.util.concurrent.*;
import java.io.*;
import java.nio.file.*;
import tlc2.value.impl.*;
import util.UniqueString;

public final class XReal {
  static final BigInteger B0 = BigInteger.ZERO, B1 = BigInteger.ONE;

  // ---------------------------------------------------------------- numbers
  static final class X {
    final int k;             // 0 finite, 1 +oo, -1 -oo, 2 nan
    final BigInteger n, d;   // odd (or n = 0), d > 0, coprime
    final int e;
    volatile StringValue sv;
    X(int k) { this.k = k; n = B0; d = B1; e = 0; }
    X(BigInteger n, BigInteger d, int e) { k = 0; this.n = n; this.d = d; this.e = e; }
    int sgn() { return k == 0 ? n.signum() : k == 2 ? 0 : k; }
    boolean fin() { return k == 0; }
    public String toString() {
      if (k == 1) return "+oo"; if (k == -1) return "-oo"; if (k == 2) return "nan";
      if (n.signum() == 0) return "0";
      String s = n.toString(16);
      if (!d.equals(B1)) s += "/" + d.toString(16);
      return s + "p" + e;
    }
    StringValue v() { StringValue s = sv; if (s == null) { s = new StringValue(toString()); sv = s; cache.putIfAbsent(s.val, this); } return s; }
  }
  static final X PINF = new X(1), NINF = new X(-1), NAN = new X(2), ZERO = new X(B0, B1, 0);
  static final X ONE = mk(B1, B1, 0), TWO = mk(B1, B1, 1);
  static final ConcurrentHashMap<UniqueString, X> cache = new ConcurrentHashMap<>();

  static X mk(BigInteger n, BigInteger d, int e) {
    if (n.signum() == 0) return ZERO;
    int t = n.getLowestSetBit();
    if (t > 0) { n = n.shiftRight(t); e += t; }
    if (!d.equals(B1)) {
      int s = d.getLowestSetBit();
      if (s > 0) { d = d.shiftRight(s); e -= s; }
      if (d.signum() < 0) { d = d.negate(); n = n.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(B1)) { n = n.divide(g); d = d.divide(g); }
    }
    return new X(n, d, e);
  }
  static X of(long v) { return mk(BigInteger.valueOf(v), B1, 0); }
  static X parse(String s) {
    if (s.equals("0")) return ZERO; if (s.equals("+oo")) return PINF; if (s.equals("-oo")) return NINF; if (s.equals("nan")) return NAN;
    int p = s.indexOf('p');
    if (p < 0) throw new RuntimeException("XReal: bad number '" + s + "'");
    int e = Integer.parseInt(s.substring(p + 1));
    int q = s.indexOf('/');
    if (q < 0) return mk(new BigInteger(s.substring(0, p), 16), B1, e);
    return mk(new BigInteger(s.substring(0, q), 16), new BigInteger(s.substring(q + 1, p), 16), e);
  }
  static X x(Value v) {
    UniqueString u = ((StringValue) v).val;
    X r = cache.get(u);
    if (r == null) {
      if (cache.size() > 4000000) cache.clear();
      r = parse(u.toString()); cache.put(u, r);
      StringValue c = r.v();
      if (!c.val.equals(u)) throw new RuntimeException("XReal: non-canonical number '" + u + "' for '" + c.val + "'");
    }
    return r;
  }
  static X neg(X a) { return a.k == 0 ? (a.n.signum() == 0 ? a : new X(a.n.negate(), a.d, a.e)) : a.k == 2 ? a : a.k == 1 ? NINF : PINF; }
  static X abs(X a) { return a.sgn() < 0 ? neg(a) : a; }
  static X add(X a, X b) {
    if (a.k == 2 || b.k == 2) return NAN;
    if (a.k != 0) return b.k != 0 && b.k != a.k ? NAN : a;
    if (b.k != 0) return b;
    if (a.n.signum() == 0) return b; if (b.n.signum() == 0) return a;
    int e = Math.min(a.e, b.e);
    BigInteger an = a.n.shiftLeft(a.e - e), bn = b.n.shiftLeft(b.e - e);
    if (a.d.equals(b.d)) return mk(an.add(bn), a.d, e);
    return mk(an.multiply(b.d).add(bn.multiply(a.d)), a.d.multiply(b.d), e);
  }
  static X sub(X a, X b) { return add(a, neg(b)); }
  static X mul(X a, X b) { // 0 * oo = 0: the set-theoretic convention for interval bounds
    if (a.k == 2 || b.k == 2) return NAN;
    if (a.k != 0 || b.k != 0) { int s = a.sgn() * b.sgn(); return s == 0 ? ZERO : s > 0 ? PINF : NINF; }
    return mk(a.n.multiply(b.n), a.d.multiply(b.d), a.e + b.e);
  }
  static X div(X a, X b) { // x / 0 and oo / oo undefined; x / oo = 0
    if (a.k == 2 || b.k == 2 || b.sgn() == 0) return NAN;
    if (b.k != 0) return a.k != 0 ? NAN : ZERO;
    if (a.k != 0) return a.k * b.sgn() > 0 ? PINF : NINF;
    return mk(b.n.signum() < 0 ? a.n.multiply(b.d).negate() : a.n.multiply(b.d), a.d.multiply(b.n.abs()), a.e - b.e);
  }
  static int cmp(X a, X b) {
    if (a.k == 2 || b.k == 2) throw new RuntimeException("XReal: comparison with nan");
    if (a == b) return 0;
    if (a.k != 0 || b.k != 0) return Integer.compare(a.k, b.k);
    int sa = a.n.signum(), sb = b.n.signum();
    if (sa != sb) return Integer.compare(sa, sb);
    if (sa == 0) return 0;
    long la = (long)a.n.bitLength() - a.d.bitLength() + a.e, lb = (long)b.n.bitLength() - b.d.bitLength() + b.e;
    if (la > lb + 1) return sa; if (lb > la + 1) return -sa;
    int e = Math.min(a.e, b.e);
    BigInteger l = a.n.shiftLeft(a.e - e).multiply(b.d), r = b.n.shiftLeft(b.e - e).multiply(a.d);
    return l.compareTo(r);
  }
  static X floor(X a) {
    if (a.k != 0) return a;
    if (a.e >= 0 && a.d.equals(B1)) return a;
    BigInteger n = a.n, d = a.d;
    if (a.e >= 0) n = n.shiftLeft(a.e); else d = d.shiftLeft(-a.e);
    BigInteger[] q = n.divideAndRemainder(d);
    BigInteger f = q[1].signum() < 0 ? q[0].subtract(B1) : q[0];
    return mk(f, B1, 0);
  }
  static X pow(X a, int k) { // k >= 0
    if (k == 0) return ONE;
    if (a.k == 2) return NAN;
    if (a.k != 0) return a.k > 0 || (k & 1) == 0 ? PINF : NINF;
    if (a.n.signum() == 0) return ZERO;
    return new X(a.n.pow(k), a.d.pow(k), Math.multiplyExact(a.e, k));
  }

  // ---------------------------------------------------------------- formats
  static final class Fmt {
    final int p, qmin, qmax; final boolean exact, integer; final X max;
    Fmt(int p, int qmin, int qmax) { this.p = p; this.qmin = qmin; this.qmax = qmax; exact = integer = false;
      max = mk(B1.shiftLeft(p).subtract(B1), B1, qmax); }
    Fmt(boolean integer) { p = qmin = qmax = 0; exact = true; this.integer = integer; max = PINF; }
  }
  static final ConcurrentHashMap<String, Fmt> fmts = new ConcurrentHashMap<>();
  static Fmt fmt(String s) {
    Fmt f = fmts.get(s); if (f != null) return f;
    if (s.equals("f32")) f = new Fmt(24, -149, 104);
    else if (s.equals("f64")) f = new Fmt(53, -1074, 971);
    else if (s.equals("f80")) f = new Fmt(64, -16445, 16320);
    else if (s.equals("q")) f = new Fmt(false);
    else if (s.equals("z")) f = new Fmt(true);
    else if (s.startsWith("m:")) { String[] t = s.split(":"); f = new Fmt(Integer.parseInt(t[1]), Integer.parseInt(t[2]), Integer.parseInt(t[3])); }
    else throw new RuntimeException("XReal: unknown format " + s);
    fmts.put(s, f); return f;
  }
  static Fmt fmt(Value v) { return fmt(((StringValue) v).val.toString()); }
  static int floorLog2(X a) { // a finite > 0
    int l = a.n.bitLength() - a.d.bitLength();
    // n/d in (2^(l-1), 2^(l+1))
    int c = l >= 0 ? a.n.compareTo(a.d.shiftLeft(l)) : a.n.shiftLeft(-l).compareTo(a.d);
    return (c >= 0 ? l : l - 1) + a.e;
  }
  // dir: 'D','U','N','Z'
  static X round(Fmt f, char dir, X a) {
    if (a.k != 0 || a.n.signum() == 0) return a;
    if (f.exact) {
      if (!f.integer) return a;
      switch (dir) { case 'D': return floor(a); case 'U': return neg(floor(neg(a)));
        case 'Z': return a.sgn() > 0 ? floor(a) : neg(floor(neg(a)));
        default: throw new RuntimeException("XReal: nearest integer format"); }
    }
    boolean ng = a.n.signum() < 0;
    X m = ng ? neg(a) : a;
    boolean up; boolean near = dir == 'N';
    if (dir == 'D') up = ng; else if (dir == 'U') up = !ng; else up = false;
    int L = floorLog2(m);
    int q = Math.max(L - f.p + 1, f.qmin);
    if (q > f.qmax) { X r = near || up ? PINF : f.max; return ng ? neg(r) : r; }
    BigInteger num = m.n, den = m.d; int s = m.e - q;
    if (s >= 0) num = num.shiftLeft(s); else if (-s > num.bitLength() + 4 && den.equals(B1)) { num = B0; den = null; } else den = den.shiftLeft(-s);
    BigInteger M; int rem; // rem: 0 exact, 1 below half, 2 half, 3 above half
    if (den == null) { M = B0; rem = 1; }
    else if (den.equals(B1)) { M = num; rem = 0; }
    else {
      BigInteger[] qr = num.divideAndRemainder(den); M = qr[0];
      if (qr[1].signum() == 0) rem = 0; else { int c = qr[1].shiftLeft(1).compareTo(den); rem = c < 0 ? 1 : c == 0 ? 2 : 3; }
    }
    if (rem != 0) { if (near) { if (rem == 3 || rem == 2 && M.testBit(0)) M = M.add(B1); } else if (up) M = M.add(B1); }
    if (M.signum() == 0) return ZERO;
    if (q > f.qmax || (q == f.qmax && M.bitLength() > f.p)) { // overflow
      boolean toInf = near || up;
      X r = toInf ? PINF : f.max; return ng ? neg(r) : r;
    }
    X r = mk(M, B1, q); return ng ? neg(r) : r;
  }
  static boolean rep(Fmt f, X a) { return a.k != 0 ? a.k != 2 && !f.exact : cmp(round(f, 'D', a), a) == 0; }
  static X next(Fmt f, X a, boolean up) { // next representable value strictly above / below
    if (a.k == 2) return a;
    if (a.k == 1) return up ? a : f.max; if (a.k == -1) return up ? neg(f.max) : a;
    X tiny = mk(B1, B1, Math.min(f.qmin, a.n.signum() == 0 ? f.qmin : floorLog2(abs(a)) - f.p) - 2);
    return up ? round(f, 'U', add(a, tiny)) : round(f, 'D', sub(a, tiny));
  }
  // ordinal of a representable value in the format (0 -> 0, successive values differ by one)
  static BigInteger ord(Fmt f, X a) {
    if (a.k != 0) { BigInteger o = ord(f, f.max).add(B1); return a.k > 0 ? o : o.negate(); }
    if (a.n.signum() == 0) return B0;
    X m = abs(a); int L = floorLog2(m); int q = Math.max(L - f.p + 1, f.qmin);
    BigInteger M = m.n.shiftLeft(m.e - q); // representable => integer
    BigInteger o = M.add(B1.shiftLeft(f.p - 1).multiply(BigInteger.valueOf(q - f.qmin)));
    return a.n.signum() < 0 ? o.negate() : o;
  }

  // ------------------------------------------ multi-precision enclosures
  // I: closed enclosure by dyadic/rational X values, re-rounded to 'prec' bits after each step
  static final class I { final X lo, hi; I(X lo, X hi) { this.lo = lo; this.hi = hi; } }
  static X rp(X a, int prec, boolean up) { // round to prec bits, unbounded exponent
    if (a.k != 0 || a.n.signum() == 0) return a;
    if (a.d.equals(B1) && a.n.bitLength() <= prec) return a;
    boolean ng = a.n.signum() < 0; X m = ng ? neg(a) : a; boolean away = up != ng;
    int L = floorLog2(m); int q = L - prec + 1; int s = m.e - q;
    BigInteger num = m.n, den = m.d;
    if (s >= 0) num = num.shiftLeft(s); else den = den.shiftLeft(-s);
    BigInteger[] qr = num.divideAndRemainder(den); BigInteger M = qr[0];
    if (qr[1].signum() != 0 && away) M = M.add(B1);
    X r = mk(M, B1, q); return ng ? neg(r) : r;
  }
  static I iv(X lo, X hi, int p) { return new I(rp(lo, p, false), rp(hi, p, true)); }
  static I pt(X a) { return new I(a, a); }
  static I iadd(I a, I b, int p) { return iv(add(a.lo, b.lo), add(a.hi, b.hi), p); }
  static I isub(I a, I b, int p) { return iv(sub(a.lo, b.hi), sub(a.hi, b.lo), p); }
  static I ineg(I a) { return new I(neg(a.hi), neg(a.lo)); }
  static X min(X a, X b) { return cmp(a, b) <= 0 ? a : b; }
  static X max(X a, X b) { return cmp(a, b) >= 0 ? a : b; }
  static I imul(I a, I b, int p) {
    X w = mul(a.lo, b.lo), x = mul(a.lo, b.hi), y = mul(a.hi, b.lo), z = mul(a.hi, b.hi);
    return iv(min(min(w, x), min(y, z)), max(max(w, x), max(y, z)), p);
  }
  static I idiv(I a, I b, int p) { // b not containing 0
    if (b.lo.sgn() <= 0 && b.hi.sgn() >= 0) throw new ArithmeticException("idiv");
    X w = div(a.lo, b.lo), x = div(a.lo, b.hi), y = div(a.hi, b.lo), z = div(a.hi, b.hi);
    return iv(min(min(w, x), min(y, z)), max(max(w, x), max(y, z)), p);
  }
  static X sqrtLo(X a, int p) { // a >= 0, floor-type lower bound with p bits
    if (a.n.signum() == 0) return ZERO;
    X b = rp(a, 2 * p + 8, false);
    int e = b.e; BigInteger n = b.n; int sh = 2 * p + 8 - n.bitLength(); if (sh < 0) sh = 0; if (((e - sh) & 1) != 0) sh++;
    return mk(n.shiftLeft(sh).sqrt(), B1, (e - sh) / 2);
  }
  static X sqrtHi(X a, int p) {
    if (a.n.signum() == 0) return ZERO;
    X b = rp(a, 2 * p + 8, true);
    int e = b.e; BigInteger n = b.n; int sh = 2 * p + 8 - n.bitLength(); if (sh < 0) sh = 0; if (((e - sh) & 1) != 0) sh++;
    BigInteger m = n.shiftLeft(sh); BigInteger r = m.sqrt(); if (r.multiply(r).compareTo(m) < 0) r = r.add(B1);
    return mk(r, B1, (e - sh) / 2);
  }
  static I isqrt(I a, int p) { return iv(sqrtLo(a.lo.sgn() < 0 ? ZERO : a.lo, p), sqrtHi(a.hi, p), p); }

  // pi by Machin: fixed point with guard bits
  static volatile int piBits = 0; static volatile BigInteger piFix; // floor-ish pi * 2^piBits, error < 4
  static synchronized void needPi(int bits) {
    if (piBits >= bits) return;
    int b = bits + 64;
    BigInteger one = B1.shiftLeft(b);
    BigInteger r = atanInv(5, one).multiply(BigInteger.valueOf(16)).subtract(atanInv(239, one).multiply(BigInteger.valueOf(4)));
    piFix = r.shiftRight(64 - 8); // error of the sum is far below 2^-(bits+8) relative to one
    piBits = bits + 8;
  }
  static BigInteger atanInv(int k, BigInteger one) {
    BigInteger t = one.divide(BigInteger.valueOf(k)), s = t, k2 = BigInteger.valueOf((long) k * k); int n = 1; boolean ng = true;
    while (t.signum() != 0) { t = t.divide(k2); n += 2; BigInteger u = t.divide(BigInteger.valueOf(n)); s = ng ? s.subtract(u) : s.add(u); ng = !ng; }
    return s;
  }
  static I pi(int p) {
    needPi(p + 16); BigInteger f; int b; synchronized (XReal.class) { f = piFix; b = piBits; }
    return iv(mk(f.subtract(BigInteger.valueOf(4)), B1, -b), mk(f.add(BigInteger.valueOf(4)), B1, -b), p);
  }
  static X half(X a) { return a.n.signum() == 0 ? a : new X(a.n, a.d, a.e - 1); }
  static X shl(X a, int s) { return a.k != 0 || a.n.signum() == 0 ? a : new X(a.n, a.d, a.e + s); }
  static I ishl(I a, int s) { return new I(shl(a.lo, s), shl(a.hi, s)); }
  static final X HUGE = new X(B1, B1, 40000), TINY = new X(B1, B1, -60000);

  static I iexp(I a, int p) {
    X lo = exp1(a.lo, p).lo, hi = a.lo == a.hi ? exp1(a.hi, p).hi : exp1(a.hi, p).hi; return new I(lo, hi);
  }
  static I exp1(X a, int p) {
    if (a.n.signum() == 0) return pt(ONE);
    X lim = of(20000);
    if (cmp(a, lim) > 0) return new I(new X(B1, B1, 28000), HUGE);
    if (cmp(a, neg(lim)) < 0) return new I(TINY, new X(B1, B1, -28000));
    int L = floorLog2(abs(a));
    if (L < -40 && p <= -2 * L) { // 1 + a + a^2/4 < exp a < 1 + a + a^2
      X a2 = mul(a, a); return new I(add(add(ONE, a), shl(a2, -2)), add(add(ONE, a), a2));
    }
    int s = Math.max(0, L + 9); int w = p + s + 24;
    I r = iv(shl(a, -s), shl(a, -s), w), sum = pt(ONE), t = pt(ONE);
    for (int n = 1; ; n++) { // |r| < 2^-8
      t = idivInt(imul(t, r, w), n, w); sum = iadd(sum, t, w);
      X m = max(abs(t.lo), abs(t.hi));
      if (m.n.signum() == 0 || floorLog2(m) < -w) { X em = shl(m, 1); sum = iv(sub(sum.lo, em), add(sum.hi, em), w); break; }
    }
    for (int i = 0; i < s; i++) sum = imul(sum, sum, w);
    return sum;
  }
  static I idivInt(I a, int n, int p) { X d = of(n); return iv(div(a.lo, d), div(a.hi, d), p); }
  // atanh(z), |z| <= 1/2, exact point or enclosure
  static I atanhSmall(I z, int p) {
    if (z.lo.sgn() == 0 && z.hi.sgn() == 0) return pt(ZERO);
    int w = p + 16; I z2 = imul(z, z, w), t = z, sum = z;
    int base = floorLog2(max(abs(z.lo), abs(z.hi)));
    for (int n = 3; ; n += 2) {
      t = imul(t, z2, w); I u = idivInt(t, n, w); sum = iadd(sum, u, w);
      X m = max(abs(u.lo), abs(u.hi));
      if (m.n.signum() == 0 || floorLog2(m) < base - w) { X em = shl(m, 1); return iv(sub(sum.lo, em), add(sum.hi, em), w); }
    }
  }
  static final ConcurrentHashMap<Integer, I> ln2c = new ConcurrentHashMap<>();
  static I ln2(int p) { return ln2c.computeIfAbsent(p, q -> ishl(atanhSmall(pt(div(ONE, of(3))), q + 8), 1)); }
  // log1p(y) for y > -1/2 small, relative precision
  static I log1pSmall(I y, int p) { // |y| <= 1/2
    I z = new I(idiv(pt(y.lo), pt(add(TWO, y.lo)), p + 16).lo, idiv(pt(y.hi), pt(add(TWO, y.hi)), p + 16).hi);
    return ishl(atanhSmall(z, p + 8), 1);
  }
  static I log1(X a, int p) { // a > 0
    int L = floorLog2(a); X m = shl(a, -L); // [1,2)
    if (cmp(m, mk(BigInteger.valueOf(3), B1, -1)) > 0) { m = half(m); L++; } // (0.75,1.5]
    X y = sub(m, ONE);
    I r = y.n.signum() == 0 ? pt(ZERO) : log1pSmall(pt(y), p + 24);
    if (L == 0) return r;
    return iadd(imul(pt(of(L)), ln2(p + 40), p + 32), r, p + 24);
  }
  static I ilog(I a, int p) { return new I(log1(a.lo, p).lo, log1(a.hi, p).hi); }
  static I log1p(I y, int p) { // y > -1
    X h = mk(B1, B1, -1);
    if (cmp(y.lo, neg(h)) >= 0 && cmp(y.hi, h) <= 0) return log1pSmall(y, p);
    return ilog(iadd(pt(ONE), y, p + 32), p);
  }
  static I atan1(I x, int p) { // relative precision; x of one sign
    int w = p + 48; I z = x; int s = 0;
    while (floorLog2(max(max(abs(z.lo), abs(z.hi)), TINY)) > -8 && s < 12) { // atan x = 2 atan( x / (1+sqrt(1+x^2)) )
      z = idiv(z, iadd(pt(ONE), isqrt(iadd(pt(ONE), imul(z, z, w), w), w), w), w); s++;
    }
    I z2 = imul(z, z, w), t = z, sum = z; int base = floorLog2(max(max(abs(z.lo), abs(z.hi)), TINY));
    for (int n = 3; ; n += 2) {
      t = ineg(imul(t, z2, w)); I u = idivInt(t, n, w); sum = iadd(sum, u, w);
      X m = max(abs(u.lo), abs(u.hi));
      if (m.n.signum() == 0 || floorLog2(m) < base - w) { X em = shl(m, 1); sum = iv(sub(sum.lo, em), add(sum.hi, em), w); break; }
    }
    return ishl(sum, s);
  }
  static I sinSmall(I r, int p) { int w = p + 16; // |r| <= 1
    I r2 = imul(r, r, w), t = r, sum = r; int base = floorLog2(max(max(abs(r.lo), abs(r.hi)), TINY));
    for (int n = 2; ; n += 2) { t = ineg(idivInt(imul(t, r2, w), n * (n + 1), w)); sum = iadd(sum, t, w);
      X m = max(abs(t.lo), abs(t.hi)); if (m.n.signum() == 0 || floorLog2(m) < base - w) { X em = shl(m, 1); return iv(sub(sum.lo, em), add(sum.hi, em), w); } } }
  static I cosSmall(I r, int p) { int w = p + 16;
    I r2 = imul(r, r, w), t = pt(ONE), sum = pt(ONE);
    for (int n = 1; ; n += 2) { t = ineg(idivInt(imul(t, r2, w), n * (n + 1), w)); sum = iadd(sum, t, w);
      X m = max(abs(t.lo), abs(t.hi)); if (m.n.signum() == 0 || floorLog2(m) < -w) { X em = shl(m, 1); return iv(sub(sum.lo, em), add(sum.hi, em), w); } } }
  // x = q*(pi/2) + r, |r| <= pi/4 (+eps); returns {q mod 4, r}
  static Object[] redPi2(X x, int p) {
    int L = Math.max(0, floorLog2(abs(x))); int w = p + 2 * L + 64;
    I h = ishl(pi(w), -1);
    X qq = floor(add(div(x, h.lo), mk(B1, B1, -1)));
    I r = isub(pt(x), imul(pt(qq), h, w), w);
    BigInteger qi = qq.n.shiftLeft(qq.e);
    return new Object[]{qi.mod(BigInteger.valueOf(4)).intValue(), r};
  }
  static I sincos(X x, boolean cos, int p) {
    Object[] o = redPi2(x, p); int q = ((Integer) o[0] + (cos ? 1 : 0)) & 3; I r = (I) o[1];
    I v = (q & 1) == 0 ? sinSmall(r, p) : cosSmall(r, p);
    return q >= 2 ? ineg(v) : v;
  }
  // enclosure of fn(a); a finite, in the open domain, not an exact case
  static I encl(String fn, X a, int p) {
    int s = a.sgn(); int L = s == 0 ? 0 : floorLog2(abs(a));
    boolean tiny = s != 0 && L < -40 && p <= -2 * L;
    X a3 = tiny ? mul(a, mul(a, a)) : null;
    if (tiny && s < 0 && (fn.equals("sin") || fn.equals("tan") || fn.equals("asin") || fn.equals("atan") || fn.equals("sinh") || fn.equals("tanh") || fn.equals("asinh") || fn.equals("atanh")))
      return ineg(encl(fn, neg(a), p));
    switch (fn) {
      case "exp": return exp1(a, p);
      case "log": return log1(a, p);
      case "sin": if (tiny) return new I(sub(a, a3), sub(a, shl(a3, -3))); return sincos(a, false, p);
      case "cos": if (tiny) { X a2 = mul(a, a); return new I(sub(ONE, half(a2)), sub(ONE, shl(a2, -2))); } return sincos(a, true, p);
      case "tan": if (tiny) return new I(add(a, shl(a3, -2)), add(a, a3)); return idiv(sincos(a, false, p + 8), sincos(a, true, p + 8), p);
      case "atan": if (tiny) return new I(sub(a, a3), sub(a, shl(a3, -2)));
        return atan1(pt(a), p);
      case "asin": { if (tiny) return new I(add(a, shl(a3, -3)), add(a, a3));
        if (cmp(abs(a), ONE) == 0) { I h = ishl(pi(p), -1); return s > 0 ? h : ineg(h); }
        return atan1(idiv(pt(a), isqrt(pt(mul(sub(ONE, a), add(ONE, a))), p + 32), p + 32), p); }
      case "acos": { // 2 atan( sqrt((1-a)/(1+a)) )
        if (cmp(a, neg(ONE)) == 0) return pi(p);
        if (tiny || s == 0) { I h = ishl(pi(Math.max(p, 2 * 64)), -1); I as = s == 0 ? pt(ZERO) : encl("asin", a, p); return new I(sub(h.lo, as.hi), sub(h.hi, as.lo)); }
        return ishl(atan1(isqrt(idiv(pt(sub(ONE, a)), pt(add(ONE, a)), 2 * p + 32), p + 32), p), 1); }
      case "sinh": { if (tiny) return new I(add(a, shl(a3, -3)), add(a, a3));
        if (s < 0) return ineg(encl(fn, neg(a), p));
        int w = p + 64; I e = exp1(a, w); if (cmp(e.hi, HUGE) == 0) return new I(shl(e.lo, -1), shl(e.hi, -1));
        return ishl(isub(e, idiv(pt(ONE), e, w), w), -1); }
      case "cosh": { if (tiny) { X a2 = mul(a, a); return new I(add(ONE, half(a2)), add(ONE, a2)); }
        int w = p + 64; I e = exp1(abs(a), w); if (cmp(e.hi, HUGE) == 0) return new I(shl(e.lo, -1), shl(e.hi, -1));
        return ishl(iadd(e, idiv(pt(ONE), e, w), w), -1); }
      case "tanh": { if (tiny) return new I(sub(a, a3), sub(a, shl(a3, -2)));
        if (s < 0) return ineg(encl(fn, neg(a), p));
        if (cmp(a, of(5000)) > 0) return new I(sub(ONE, new X(B1, B1, -9000)), sub(ONE, new X(B1, B1, -60000)));
        int w = p + 64; I e = exp1(neg(shl(a, 1)), w + 2 * Math.max(0, -L)); // (1-e)/(1+e)
        int ww = w + 4 * (1 << Math.max(0, Math.min(L, 13)));
        return idiv(isub(pt(ONE), e, ww), iadd(pt(ONE), e, ww), ww); }
      case "asinh": { if (tiny) return new I(sub(a, a3), sub(a, shl(a3, -3)));
        if (s < 0) return ineg(encl(fn, neg(a), p));
        int w = p + 64; if (L > 40) w += 0; X a2 = mul(a, a);
        I den = iadd(pt(ONE), isqrt(pt(add(ONE, a2)), w), w);
        return log1p(iadd(pt(a), idiv(pt(a2), den, w), w), p + 32); }
      case "acosh": { int w = p + 64; X y = sub(a, ONE); // log1p( y + sqrt(y^2+2y) )
        return log1p(iadd(pt(y), isqrt(pt(add(mul(y, y), shl(y, 1))), w), w), p + 32); }
      case "atanh": { if (tiny) return new I(add(a, shl(a3, -2)), add(a, a3));
        if (s < 0) return ineg(encl(fn, neg(a), p));
        if (L < -2) return atanhSmall(pt(a), p + 16);
        return ishl(log1(div(add(ONE, a), sub(ONE, a)), p + 32), -1); }
      default: throw new RuntimeException("XReal: unknown function " + fn);
    }
  }
  // exact or limit value of fn at a, or null; NAN outside the domain
  static X special(String fn, X a) {
    boolean z = a.k == 0 && a.n.signum() == 0;
    if (a.k == 2) return NAN;
    switch (fn) {
      case "exp": return z ? ONE : a.k == 1 ? PINF : a.k == -1 ? ZERO : null;
      case "log": return a.sgn() < 0 ? NAN : z ? NINF : a.k == 1 ? PINF : cmp(a, ONE) == 0 ? ZERO : null;
      case "sin": case "tan": return z ? ZERO : a.k != 0 ? NAN : null;
      case "cos": return z ? ONE : a.k != 0 ? NAN : null;
      case "asin": return z ? ZERO : cmp(abs(a), ONE) > 0 ? NAN : null;
      case "acos": return cmp(abs(a), ONE) > 0 ? NAN : cmp(a, ONE) == 0 ? ZERO : null;
      case "atan": return z ? ZERO : null;                 // +-oo handled by atanInf
      case "sinh": case "asinh": return z ? ZERO : a.k != 0 ? a : null;
      case "cosh": return z ? ONE : a.k != 0 ? PINF : null;
      case "tanh": return z ? ZERO : a.k == 1 ? ONE : a.k == -1 ? neg(ONE) : null;
      case "acosh": return a.k == 1 ? PINF : cmp(a, ONE) < 0 ? NAN : cmp(a, ONE) == 0 ? ZERO : null;
      case "atanh": { int c = cmp(abs(a), ONE); return z ? ZERO : c > 0 ? NAN : c == 0 ? (a.sgn() > 0 ? PINF : NINF) : null; }
      default: throw new RuntimeException("XReal: unknown function " + fn);
    }
  }
  static final ConcurrentHashMap<String, I> fnc = new ConcurrentHashMap<>();
  static I enclC(String fn, X a, int p) {
    String key = fn + " " + a + " " + p;
    I r = fnc.get(key); if (r != null) return r;
    if (fnc.size() > 1000000) fnc.clear();
    if (fn.equals("atan") && a.k != 0) { I h = ishl(pi(p), -1); r = a.k > 0 ? h : ineg(h); }
    else r = encl(fn, a, p);
    fnc.put(key, r); return r;
  }
  static int fnCmp(String fn, X a, X v) { // sign of fn(a) - v
    X s = special(fn, a); if (s != null) return cmp(s, v);
    if (v.k != 0) return -v.k;
    for (int p = 96; p <= 16384; p *= 2) { I e = enclC(fn, a, p); if (cmp(e.lo, v) > 0) return 1; if (cmp(e.hi, v) < 0) return -1; }
    throw new RuntimeException("XReal: undecided " + fn + " " + a + " " + v);
  }
  static X fnRound(String fn, Fmt f, char dir, X a) {
    X s = special(fn, a); if (s != null) return round(f, dir, s);
    for (int p = 96; p <= 16384; p *= 2) { I e = enclC(fn, a, p); X l = round(f, dir, e.lo), h = round(f, dir, e.hi);
      if (cmp(l, h) == 0 ) { if (cmp(e.lo, l) == 0 || cmp(e.hi, l) == 0) continue; return l; } }
    throw new RuntimeException("XReal: undecided rounding " + fn + " " + a);
  }
  static X rootRound(Fmt f, boolean up, X a, int k) { // a >= 0 : largest v in f with v^k <= a / smallest with v^k >= a
    if (a.k != 0 || a.n.signum() == 0) return a;
    int L = floorLog2(a);
    int w = (f.p == 0 ? 64 : f.p) + 4;
    // integer k-th root of a * 2^(k*t), t so that the result has >= w bits
    int t = w - Math.floorDiv(L, k) + 1;
    X b = floor(shl(a, k * t)); BigInteger N = b.n.shiftLeft(b.e);
    BigInteger r = iroot(N, k);
    boolean exact = r.pow(k).equals(N) && cmp(b, shl(a, k * t)) == 0;
    // root in [r, r+1) * 2^-t; r has more bits than the format, so rounding a sticky point decides
    X v = exact ? mk(r, B1, -t) : mk(r.shiftLeft(1).add(B1), B1, -t - 1);
    return round(f, up ? 'U' : 'D', v);
  }
  static BigInteger iroot(BigInteger n, int k) {
    if (k == 2) return n.sqrt();
    if (n.signum() == 0) return n;
    int bl = (n.bitLength() + k - 1) / k; BigInteger x = B1.shiftLeft(bl), kk = BigInteger.valueOf(k);
    for (;;) { BigInteger y = x.multiply(BigInteger.valueOf(k - 1)).add(n.divide(x.pow(k - 1))).divide(kk); if (y.compareTo(x) >= 0) break; x = y; }
    while (x.pow(k).compareTo(n) > 0) x = x.subtract(B1);
    return x;
  }
  static X piFloor(X a, X q) { // floor( a / (q*pi) ), q > 0 rational; a rational
    if (a.k != 0) return a; if (a.n.signum() == 0) return ZERO;
    int L = Math.max(0, floorLog2(abs(div(a, q))));
    for (int p = 128 + L; ; p *= 2) { I d = imul(pt(q), pi(p), p); I r = idiv(pt(a), d, p); X l = floor(r.lo), h = floor(r.hi); if (cmp(l, h) == 0) return l;
      if (p > 200000) throw new RuntimeException("XReal: piFloor undecided"); }
  }
  static X piRound(Fmt f, char dir, X q) {
    for (int p = 128; ; p *= 2) { I d = imul(pt(q), pi(p), p); X l = round(f, dir, d.lo), h = round(f, dir, d.hi); if (cmp(l, h) == 0) return l; }
  }

  // -------------------------------------------------------- TLA+ operators
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static int in(Value v) { return ((IntValue) v).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value XInt(Value n) { return of(in(n)).v(); }
  public static Value XRat(Value n, Value d) { return div(of(in(n)), of(in(d))).v(); }
  public static Value XNeg(Value a) { return neg(x(a)).v(); }
  public static Value XAbs(Value a) { return abs(x(a)).v(); }
  public static Value XAdd(Value a, Value b) { return add(x(a), x(b)).v(); }
  public static Value XSub(Value a, Value b) { return sub(x(a), x(b)).v(); }
  public static Value XMul(Value a, Value b) { return mul(x(a), x(b)).v(); }
  public static Value XDiv(Value a, Value b) { return div(x(a), x(b)).v(); }
  public static Value XPow(Value a, Value k) { return pow(x(a), in(k)).v(); }
  public static Value XShl(Value a, Value k) { return shl(x(a), in(k)).v(); }
  public static Value XFloor(Value a) { return floor(x(a)).v(); }
  public static Value XCeil(Value a) { return neg(floor(neg(x(a)))).v(); }
  public static Value XSgn(Value a) { return IntValue.gen(x(a).sgn()); }
  public static Value XCmp(Value a, Value b) { return IntValue.gen(cmp(x(a), x(b))); }
  public static Value XLe(Value a, Value b) { X p = x(a), q = x(b); return bool(p.k != 2 && q.k != 2 && cmp(p, q) <= 0); }
  public static Value XLt(Value a, Value b) { X p = x(a), q = x(b); return bool(p.k != 2 && q.k != 2 && cmp(p, q) < 0); }
  public static Value XMin(Value a, Value b) { return cmp(x(a), x(b)) <= 0 ? a : b; }
  public static Value XMax(Value a, Value b) { return cmp(x(a), x(b)) >= 0 ? a : b; }
  public static Value XIsNum(Value a) { return bool(x(a).k != 2); }
  public static Value XIsFin(Value a) { return bool(x(a).k == 0); }
  public static Value XRound(Value f, Value d, Value a) { return round(fmt(f), str(d).charAt(0), x(a)).v(); }
  public static Value XRep(Value f, Value a) { return bool(rep(fmt(f), x(a))); }
  public static Value XMaxFin(Value f) { return fmt(f).max.v(); }
  public static Value XNextUp(Value f, Value a) { return next(fmt(f), x(a), true).v(); }
  public static Value XNextDn(Value f, Value a) { return next(fmt(f), x(a), false).v(); }
  public static Value XBits(Value a) { X v = x(a); return IntValue.gen(v.k != 0 ? 0 : v.n.bitLength() + v.d.bitLength() + Math.abs(v.e)); }
  public static Value XSteps(Value f, Value a, Value b) { // ordinal distance b - a in the format, saturated
    BigInteger o = ord(fmt(f), x(b)).subtract(ord(fmt(f), x(a)));
    return IntValue.gen(o.bitLength() > 30 ? (o.signum() > 0 ? 1 << 30 : -(1 << 30)) : o.intValue()); }
  public static Value XRootRound(Value f, Value d, Value a, Value k) { return rootRound(fmt(f), str(d).charAt(0) == 'U', x(a), in(k)).v(); }
  public static Value XFnDef(Value fn, Value a) { X s = special(str(fn), x(a)); return bool(s == null || s.k == 0); }
  public static Value XFnCmp(Value fn, Value a, Value v) { return IntValue.gen(fnCmp(str(fn), x(a), x(v))); }
  public static Value XFnRound(Value fn, Value f, Value d, Value a) { return fnRound(str(fn), fmt(f), str(d).charAt(0), x(a)).v(); }
  public static Value XPiFloor(Value a, Value q) { return piFloor(x(a), x(q)).v(); }
  public static Value XPiRound(Value f, Value d, Value q) { return piRound(fmt(f), str(d).charAt(0), x(q)).v(); }
  public static Value XOdd(Value a) { X v = x(a); return bool(v.k == 0 && v.n.signum() != 0 && v.e == 0 && v.d.equals(B1)); }

  public static void main(String[] a) { // debugging aid: fn value comparison from the command line
    for (int p = 64; p <= 256; p *= 2) { I e = encl(a[0], parse(a[1]), p); System.out.println(toD(e.lo) + " " + toD(e.hi) + "  rel bits " + (e.lo.n.signum()==0?0: floorLog2(abs(e.hi)) - floorLog2(max(sub(e.hi, e.lo), new X(B1,B1,-70000))))); }
  }
  static double toD(X a) { X r = round(fmt("f64"), 'N', a); return r.k == 1 ? Double.POSITIVE_INFINITY : r.k == -1 ? Double.NEGATIVE_INFINITY : Math.scalb(r.n.doubleValue(), 0) * Math.pow(2, r.e); }
}
