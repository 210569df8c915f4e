import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC override of module Float64. Floats are strings of 16 hex digits. */
public class Float64 {
    private static double d(Value v) {
        return Double.longBitsToDouble(Long.parseUnsignedLong(((StringValue) v).getVal().toString(), 16));
    }

    private static Value w(double x) {
        return new StringValue(String.format("%016x", Double.doubleToLongBits(x)));
    }

    private static String text(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        StringBuilder sb = new StringBuilder();
        for (Value e : t.elems) {
            sb.append((char) ((IntValue) e).val);
        }
        return sb.toString();
    }

    private static Value bytes(String s) {
        Value[] a = new Value[s.length()];
        for (int i = 0; i < a.length; i++) {
            a[i] = IntValue.gen(s.charAt(i));
        }
        return new TupleValue(a);
    }

    private static Value bool(boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value FAdd(Value a, Value b) { return w(d(a) + d(b)); }
    public static Value FSub(Value a, Value b) { return w(d(a) - d(b)); }
    public static Value FMul(Value a, Value b) { return w(d(a) * d(b)); }
    public static Value FDiv(Value a, Value b) { return w(d(a) / d(b)); }
    public static Value FNeg(Value a) { return w(-d(a)); }
    public static Value FAbs(Value a) { return w(Math.abs(d(a))); }
    public static Value FLt(Value a, Value b) { return bool(d(a) < d(b)); }
    public static Value FEq(Value a, Value b) { return bool(d(a) == d(b)); }

    public static Value FParse(Value s) {
        double x = new BigDecimal(text(s)).doubleValue();
        return Double.isInfinite(x) ? new StringValue("ERR") : w(x);
    }

    /** the shortest decimal that reads back as x (x finite) */
    static BigDecimal shortest(double x) {
        if (x == 0) {
            return BigDecimal.ZERO;
        }
        BigDecimal exact = new BigDecimal(x);
        for (int p = 1; p <= 17; p++) {
            BigDecimal best = null;
            for (RoundingMode m : new RoundingMode[] {RoundingMode.DOWN, RoundingMode.UP}) {
                BigDecimal c = exact.round(new MathContext(p, m));
                if (c.doubleValue() != x) {
                    continue;
                }
                // the nearest one; of two at the same distance the even one
                int cmp = best == null ? -1 : c.subtract(exact).abs().compareTo(best.subtract(exact).abs());
                if (cmp < 0 || cmp == 0 && best.unscaledValue().testBit(0)) {
                    best = c;
                }
            }
            if (best != null) {
                return best.stripTrailingZeros();
            }
        }
        return exact;
    }

    private static String str(double x) {
        if (Double.isNaN(x)) {
            return "NaN";
        }
        if (Double.isInfinite(x)) {
            return x > 0 ? "+Inf" : "-Inf";
        }
        if (x == 0) {
            return 1 / x < 0 ? "-0" : "0";
        }
        return shortest(x).toPlainString();
    }

    public static Value FStr(Value a) { return bytes(str(d(a))); }

    public static Value FExactStr(Value a) {
        double x = d(a);
        return Double.isNaN(x) || Double.isInfinite(x) || x == 0 ? FStr(a) : bytes(new BigDecimal(x).toPlainString());
    }

    public static Value FIsIntegral(Value a) {
        double x = d(a);
        return bool(!Double.isNaN(x) && Math.abs(x) < 9223372036854775808.0 && x == Math.rint(x));
    }

    public static Value FOfInt(Value s) { return w(new BigDecimal(text(s)).doubleValue()); }

    public static Value FToInt(Value a, Value mode) {
        double x = d(a);
        if (Double.isNaN(x) || Double.isInfinite(x)) {
            return bytes("");
        }
        BigDecimal v = new BigDecimal(x);
        RoundingMode m;
        switch (((StringValue) mode).getVal().toString()) {
        case "trunc": m = RoundingMode.DOWN; break;
        case "ceil": m = RoundingMode.CEILING; break;
        case "floor": m = RoundingMode.FLOOR; break;
        default: m = RoundingMode.HALF_UP; break;
        }
        BigInteger i = v.setScale(0, m).toBigInteger();
        return bytes(i.bitLength() > 63 ? "" : i.toString());
    }

    public static Value FDecMinusOne(Value a) {
        double x = d(a);
        if (Double.isNaN(x) || Double.isInfinite(x)) {
            return w(x);
        }
        return w(shortest(x).subtract(BigDecimal.ONE).doubleValue());
    }
}
