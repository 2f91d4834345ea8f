package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

/** Elementary functions on 40-digit decimals (argument reduction + Taylor series). */
final class Fn {
    static final MathContext W = new MathContext(56, RoundingMode.HALF_EVEN);
    static final BigDecimal TWO = BigDecimal.valueOf(2), ONE = BigDecimal.ONE, HALF = new BigDecimal("0.5");
    static final BigDecimal EPS = new BigDecimal("1e-58");
    static final BigDecimal PI = pi();
    static final BigDecimal LN2 = lnSmall(TWO);
    static final BigDecimal LN10 = lnSmall(new BigDecimal("1.25")).add(LN2.multiply(BigDecimal.valueOf(3)), W);

    private static BigDecimal pi() {  // Machin
        return atanInv(5).multiply(BigDecimal.valueOf(16)).subtract(atanInv(239).multiply(BigDecimal.valueOf(4))).round(W);
    }
    private static BigDecimal atanInv(int n) {
        MathContext m = new MathContext(64);
        BigDecimal x = ONE.divide(BigDecimal.valueOf(n), m), x2 = x.multiply(x, m), t = x, s = x;
        for (int k = 1; t.compareTo(new BigDecimal("1e-66")) > 0; k++) {
            t = t.multiply(x2, m);
            BigDecimal q = t.divide(BigDecimal.valueOf(2L * k + 1), m);
            s = (k % 2 == 1) ? s.subtract(q, m) : s.add(q, m);
        }
        return s;
    }
    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return ONE;
        if (x.abs().compareTo(BigDecimal.valueOf(200000)) > 0)
            throw new ArithmeticException("Reals: exp argument out of range");
        BigInteger k = x.divide(LN2, W).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        BigDecimal r = x.subtract(LN2.multiply(new BigDecimal(k)), W).divide(BigDecimal.valueOf(256), W);
        BigDecimal t = ONE, s = ONE;
        for (int i = 1; t.abs().compareTo(EPS) > 0; i++) {
            t = t.multiply(r, W).divide(BigDecimal.valueOf(i), W);
            s = s.add(t, W);
        }
        for (int i = 0; i < 8; i++) s = s.multiply(s, W);
        int n = k.intValueExact();
        return n >= 0 ? s.multiply(TWO.pow(n, W), W) : s.divide(TWO.pow(-n, W), W);
    }
    /** ln for arguments in about [0.5, 2]. */
    private static BigDecimal lnSmall(BigDecimal x) {
        int h = 0;
        while (x.subtract(ONE).abs().compareTo(new BigDecimal("0.02")) > 0) { x = x.sqrt(new MathContext(64)); h++; }
        BigDecimal y = x.subtract(ONE).divide(x.add(ONE), W), y2 = y.multiply(y, W), t = y, s = y;
        for (int k = 1; t.abs().compareTo(EPS) > 0; k++) {
            t = t.multiply(y2, W);
            s = s.add(t.divide(BigDecimal.valueOf(2L * k + 1), W), W);
        }
        return s.multiply(TWO.pow(h + 1), W);
    }
    static BigDecimal ln(BigDecimal x) {
        if (x.signum() <= 0) throw new ArithmeticException("Reals: ln of a non-positive number");
        int e = x.precision() - x.scale() - 1;              // x = m * 10^e, 1 <= m < 10
        BigDecimal m = x.movePointLeft(e);
        int b = 0;
        while (m.compareTo(new BigDecimal("1.5")) > 0) { m = m.divide(TWO, W); b++; }
        return lnSmall(m).add(LN2.multiply(BigDecimal.valueOf(b)), W).add(LN10.multiply(BigDecimal.valueOf(e)), W);
    }
    static BigDecimal[] sincos(BigDecimal x) {
        BigDecimal twoPi = PI.multiply(TWO);
        BigDecimal k = x.divide(twoPi, W).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(twoPi.multiply(k), W).divide(BigDecimal.valueOf(64), W);
        BigDecimal r2 = r.multiply(r, W), t = r, s = r;
        for (int i = 1; t.abs().compareTo(EPS) > 0; i++) {
            t = t.multiply(r2, W).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), W).negate();
            s = s.add(t, W);
        }
        BigDecimal c = ONE; t = ONE;
        for (int i = 1; t.abs().compareTo(EPS) > 0; i++) {
            t = t.multiply(r2, W).divide(BigDecimal.valueOf((2L * i - 1) * (2L * i)), W).negate();
            c = c.add(t, W);
        }
        for (int i = 0; i < 6; i++) {
            BigDecimal s2 = TWO.multiply(s).multiply(c, W), c2 = c.multiply(c, W).subtract(s.multiply(s, W), W);
            s = s2; c = c2;
        }
        return new BigDecimal[] { s, c };
    }
    static BigDecimal atan(BigDecimal x) {
        if (x.signum() < 0) return atan(x.negate()).negate();
        if (x.compareTo(ONE) > 0) return PI.divide(TWO).subtract(atan(ONE.divide(x, W)), W);
        int h = 0;
        while (x.compareTo(new BigDecimal("0.05")) > 0) {
            x = x.divide(ONE.add(ONE.add(x.multiply(x, W), W).sqrt(W), W), W); h++;
        }
        BigDecimal x2 = x.multiply(x, W), t = x, s = x;
        for (int k = 1; t.abs().compareTo(EPS) > 0; k++) {
            t = t.multiply(x2, W).negate();
            s = s.add(t.divide(BigDecimal.valueOf(2L * k + 1), W), W);
        }
        return s.multiply(TWO.pow(h), W);
    }
    static BigDecimal atan2(BigDecimal y, BigDecimal x) {
        if (x.signum() > 0) return atan(y.divide(x, W));
        if (x.signum() < 0) {
            BigDecimal a = atan(y.divide(x, W));
            return y.signum() >= 0 ? a.add(PI, W) : a.subtract(PI, W);
        }
        return y.signum() == 0 ? BigDecimal.ZERO : (y.signum() > 0 ? PI.multiply(HALF) : PI.multiply(HALF).negate());
    }
    static BigDecimal asin(BigDecimal x) {
        BigDecimal c2 = ONE.subtract(x.multiply(x, W), W);
        if (c2.signum() < 0) throw new ArithmeticException("Reals: asin out of range");
        return atan2(x, c2.sqrt(W));
    }
    static BigDecimal acos(BigDecimal x) { return PI.multiply(HALF).subtract(asin(x), W); }
}
