package vp;

import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;

/**
 * An opaque real number for TLC.  Finite values are 40-digit decimals, so that IEEE doubles
 * recorded from the implementation enter the specification exactly and rounding of the
 * specification's own arithmetic is ~24 orders of magnitude below double precision.
 */
public final class Num extends UserObj {
    public static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    public static final MathContext IN = new MathContext(80, RoundingMode.HALF_EVEN);
    public static final Num NAN = new Num(0), PINF = new Num(1), NINF = new Num(-1);
    public static final Num ZERO = new Num(BigDecimal.ZERO), ONE = new Num(BigDecimal.ONE);

    public final BigDecimal v;   // null for NaN and the infinities
    public final int sp;         // meaningful only when v == null: 0 NaN, +1 / -1 infinities

    private Num(int sp) { this.v = null; this.sp = sp; }
    public Num(BigDecimal v) { this.v = v; this.sp = 0; }

    public static Num ofDouble(double d) {
        if (Double.isNaN(d)) return NAN;
        if (Double.isInfinite(d)) return d > 0 ? PINF : NINF;
        if (d == 0) return ZERO;
        return new Num(new BigDecimal(d).round(IN));
    }

    public static Num ofDecimal(String s) {
        switch (s) {
            case "nan": case "NaN": return NAN;
            case "inf": case "Infinity": return PINF;
            case "-inf": case "-Infinity": return NINF;
            default: return new Num(new BigDecimal(s));
        }
    }

    public static Num of(Value x) {
        if (x instanceof UserValue && ((UserValue) x).userObj instanceof Num) return (Num) ((UserValue) x).userObj;
        if (x instanceof IntValue) return new Num(BigDecimal.valueOf(((IntValue) x).val));
        if (x instanceof StringValue) return ofDecimal(((StringValue) x).val.toString());
        throw new RuntimeException("Reals: not a number: " + x);
    }

    public UserValue val() { return new UserValue(this); }
    public boolean fin() { return v != null; }
    public boolean nan() { return v == null && sp == 0; }
    public int sign() { return v == null ? sp : v.signum(); }

    /** Total order on non-NaN values. */
    public static int cmp(Num a, Num b) {
        if (a.v != null && b.v != null) return a.v.compareTo(b.v);
        int x = a.v == null ? a.sp * 2 : 0, y = b.v == null ? b.sp * 2 : 0;
        return Integer.compare(x, y);
    }

    public static Num add(Num a, Num b) {
        if (a.v != null && b.v != null) return new Num(a.v.add(b.v, MC));
        if (a.nan() || b.nan()) return NAN;
        if (a.v == null && b.v == null) return a.sp == b.sp ? a : NAN;
        return a.v == null ? a : b;
    }
    public static Num neg(Num a) {
        if (a.v != null) return new Num(a.v.negate());
        return a.sp == 0 ? NAN : (a.sp > 0 ? NINF : PINF);
    }
    public static Num sub(Num a, Num b) { return add(a, neg(b)); }
    public static Num mul(Num a, Num b) {
        if (a.v != null && b.v != null) return new Num(a.v.multiply(b.v, MC));
        if (a.nan() || b.nan()) return NAN;
        int s = a.sign() * b.sign();
        return s == 0 ? NAN : (s > 0 ? PINF : NINF);
    }
    public static Num div(Num a, Num b) {
        if (a.nan() || b.nan()) return NAN;
        if (b.v == null) return a.v == null ? NAN : ZERO;
        if (b.v.signum() == 0) { int s = a.sign(); return s == 0 ? NAN : (s > 0 ? PINF : NINF); }
        if (a.v == null) return a.sp * b.sign() > 0 ? PINF : NINF;
        return new Num(a.v.divide(b.v, MC));
    }
    public static Num abs(Num a) { return a.sign() < 0 ? neg(a) : a; }

    @Override public int compareTo(Value o) {
        if (!(o instanceof UserValue) && !(o instanceof IntValue)) return -1;
        Num b = of(o);
        if (nan() || b.nan()) return Boolean.compare(nan(), b.nan());
        return cmp(this, b);
    }
    @Override public boolean member(Value x) { throw new RuntimeException("Reals: a number is not a set"); }
    @Override public boolean isFinite() { return true; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(show()); }
    public String show() {
        if (v == null) return sp == 0 ? "nan" : (sp > 0 ? "inf" : "-inf");
        return v.round(new MathContext(17)).stripTrailingZeros().toString();
    }
}
