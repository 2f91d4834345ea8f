package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Native implementation of the operators declared in Reals.tla. */
public final class RealsOverrides {
    private static Num n(Value v) { return Num.of(v); }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Reals: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    private static Num fin1(Num a, java.util.function.UnaryOperator<BigDecimal> f) {
        return a.v == null ? Num.NAN : new Num(f.apply(a.v).round(Num.MC));
    }

    @TLAPlusOperator(identifier = "RNum", module = "Reals", warn = false)
    public static Value rnum(Value x) { return n(x).val(); }
    @TLAPlusOperator(identifier = "RAdd", module = "Reals", warn = false)
    public static Value add(Value x, Value y) { return Num.add(n(x), n(y)).val(); }
    @TLAPlusOperator(identifier = "RSub", module = "Reals", warn = false)
    public static Value sub(Value x, Value y) { return Num.sub(n(x), n(y)).val(); }
    @TLAPlusOperator(identifier = "RMul", module = "Reals", warn = false)
    public static Value mul(Value x, Value y) { return Num.mul(n(x), n(y)).val(); }
    @TLAPlusOperator(identifier = "RDiv", module = "Reals", warn = false)
    public static Value div(Value x, Value y) { return Num.div(n(x), n(y)).val(); }
    @TLAPlusOperator(identifier = "RNeg", module = "Reals", warn = false)
    public static Value neg(Value x) { return Num.neg(n(x)).val(); }
    @TLAPlusOperator(identifier = "RAbs", module = "Reals", warn = false)
    public static Value abs(Value x) { return Num.abs(n(x)).val(); }
    @TLAPlusOperator(identifier = "RLt", module = "Reals", warn = false)
    public static Value lt(Value x, Value y) { Num a = n(x), c = n(y); return b(!a.nan() && !c.nan() && Num.cmp(a, c) < 0); }
    @TLAPlusOperator(identifier = "RLe", module = "Reals", warn = false)
    public static Value le(Value x, Value y) { Num a = n(x), c = n(y); return b(!a.nan() && !c.nan() && Num.cmp(a, c) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = "Reals", warn = false)
    public static Value eq(Value x, Value y) { Num a = n(x), c = n(y); return b(!a.nan() && !c.nan() && Num.cmp(a, c) == 0); }
    @TLAPlusOperator(identifier = "RIsNaN", module = "Reals", warn = false)
    public static Value isnan(Value x) { return b(n(x).nan()); }
    @TLAPlusOperator(identifier = "RIsFinite", module = "Reals", warn = false)
    public static Value isfin(Value x) { return b(n(x).fin()); }
    @TLAPlusOperator(identifier = "RMin", module = "Reals", warn = false)
    public static Value min(Value x, Value y) { Num a = n(x), c = n(y); return (a.nan() || c.nan() ? Num.NAN : Num.cmp(a, c) <= 0 ? a : c).val(); }
    @TLAPlusOperator(identifier = "RMax", module = "Reals", warn = false)
    public static Value max(Value x, Value y) { Num a = n(x), c = n(y); return (a.nan() || c.nan() ? Num.NAN : Num.cmp(a, c) >= 0 ? a : c).val(); }
    @TLAPlusOperator(identifier = "RFloor", module = "Reals", warn = false)
    public static Value floor(Value x) { return IntValue.gen(n(x).v.setScale(0, RoundingMode.FLOOR).intValueExact()); }
    @TLAPlusOperator(identifier = "RCeil", module = "Reals", warn = false)
    public static Value ceil(Value x) { return IntValue.gen(n(x).v.setScale(0, RoundingMode.CEILING).intValueExact()); }
    @TLAPlusOperator(identifier = "RSqrt", module = "Reals", warn = false)
    public static Value sqrt(Value x) { Num a = n(x); return (a.v == null || a.v.signum() < 0 ? (a.sp > 0 ? a : Num.NAN) : a.v.signum() == 0 ? Num.ZERO : new Num(a.v.sqrt(Num.MC))).val(); }
    @TLAPlusOperator(identifier = "RExp", module = "Reals", warn = false)
    public static Value exp(Value x) { return fin1(n(x), Fn::exp).val(); }
    @TLAPlusOperator(identifier = "RLn", module = "Reals", warn = false)
    public static Value ln(Value x) { Num a = n(x); return (a.v == null || a.v.signum() < 0 ? (a.sp > 0 ? a : Num.NAN) : a.v.signum() == 0 ? Num.NINF : fin1(a, Fn::ln)).val(); }
    @TLAPlusOperator(identifier = "RSin", module = "Reals", warn = false)
    public static Value sin(Value x) { return fin1(n(x), a -> Fn.sincos(a)[0]).val(); }
    @TLAPlusOperator(identifier = "RCos", module = "Reals", warn = false)
    public static Value cos(Value x) { return fin1(n(x), a -> Fn.sincos(a)[1]).val(); }
    @TLAPlusOperator(identifier = "RTan", module = "Reals", warn = false)
    public static Value tan(Value x) { return fin1(n(x), a -> { BigDecimal[] s = Fn.sincos(a); return s[0].divide(s[1], Fn.W); }).val(); }
    @TLAPlusOperator(identifier = "RAtan", module = "Reals", warn = false)
    public static Value atan(Value x) { return fin1(n(x), Fn::atan).val(); }
    @TLAPlusOperator(identifier = "RAtan2", module = "Reals", warn = false)
    public static Value atan2(Value y, Value x) { Num a = n(y), c = n(x); return (a.v == null || c.v == null ? Num.NAN : new Num(Fn.atan2(a.v, c.v).round(Num.MC))).val(); }
    @TLAPlusOperator(identifier = "RAsin", module = "Reals", warn = false)
    public static Value asin(Value x) { Num a = n(x); return (a.v == null || a.v.abs().compareTo(BigDecimal.ONE) > 0 ? Num.NAN : fin1(a, Fn::asin)).val(); }
    @TLAPlusOperator(identifier = "RAcos", module = "Reals", warn = false)
    public static Value acos(Value x) { Num a = n(x); return (a.v == null || a.v.abs().compareTo(BigDecimal.ONE) > 0 ? Num.NAN : fin1(a, Fn::acos)).val(); }
    @TLAPlusOperator(identifier = "RNaN", module = "Reals", warn = false)
    public static Value rnan() { return Num.NAN.val(); }
    @TLAPlusOperator(identifier = "RPi", module = "Reals", warn = false)
    public static Value pi() { return new Num(Fn.PI.round(Num.MC)).val(); }
    @TLAPlusOperator(identifier = "RPow", module = "Reals", warn = false)
    public static Value pow(Value x, Value k) {
        Num a = n(x); Num e = n(k);
        if (a.v == null || e.v == null) return Num.NAN.val();
        try {
            int i = e.v.intValueExact();
            if (i >= 0) return new Num(a.v.pow(i, Fn.W).round(Num.MC)).val();
            return Num.div(Num.ONE, new Num(a.v.pow(-i, Fn.W))).val();
        } catch (ArithmeticException ex) {
            if (a.v.signum() < 0) return Num.NAN.val();
            if (a.v.signum() == 0) return Num.ZERO.val();
            return new Num(Fn.exp(e.v.multiply(Fn.ln(a.v), Fn.W)).round(Num.MC)).val();
        }
    }
    @TLAPlusOperator(identifier = "RSum", module = "Reals", warn = false)
    public static Value sum(Value s) { Num t = Num.ZERO; for (Value x : seq(s)) t = Num.add(t, n(x)); return t.val(); }
    @TLAPlusOperator(identifier = "RDot", module = "Reals", warn = false)
    public static Value dot(Value s, Value u) {
        Value[] a = seq(s), c = seq(u);
        if (a.length != c.length) throw new RuntimeException("Reals: RDot of sequences of different lengths");
        Num t = Num.ZERO;
        for (int i = 0; i < a.length; i++) t = Num.add(t, Num.mul(n(a[i]), n(c[i])));
        return t.val();
    }
    @TLAPlusOperator(identifier = "RMaxAbs", module = "Reals", warn = false)
    public static Value maxabs(Value s) {
        Num t = Num.ZERO;
        for (Value x : seq(s)) { Num a = Num.abs(n(x)); if (a.fin() && Num.cmp(a, t) > 0) t = a; }
        return t.val();
    }
    /** Horner evaluation of c[1] + c[2] x + c[3] x^2 + ... */
    @TLAPlusOperator(identifier = "RPoly", module = "Reals", warn = false)
    public static Value poly(Value c, Value x) {
        Value[] a = seq(c); Num t = Num.ZERO, y = n(x);
        for (int i = a.length - 1; i >= 0; i--) t = Num.add(Num.mul(t, y), n(a[i]));
        return t.val();
    }
    /** A real as a string (TLC does not fingerprint user values), with all its digits. */
    @TLAPlusOperator(identifier = "RKeep", module = "Reals", warn = false)
    public static Value keep(Value x) { Num a = n(x); return new StringValue(a.v == null ? a.show() : a.v.toString()); }
    @TLAPlusOperator(identifier = "RShow", module = "Reals", warn = false)
    public static Value show(Value x) { return new StringValue(n(x).show()); }
    /** The IEEE double nearest to x. */
    @TLAPlusOperator(identifier = "RDouble", module = "Reals", warn = false)
    public static Value dbl(Value x) { Num a = n(x); return a.v == null ? a.val() : Num.ofDouble(a.v.doubleValue()).val(); }
}
