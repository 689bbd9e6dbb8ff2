// TLC evaluation of the operators declared in FReal.tla.
//
// A real number is written in the specification as a string holding a decimal
// (or "NaN", "Infinity", "-Infinity").  TLC has no reals of its own, so the
// primitive operations are evaluated here in IEEE-754 double precision; every
// formula built out of them is written in TLA+.
import tlc2.value.impl.*;

public class FReal {
    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        String s = ((StringValue) v).val.toString();
        switch (s) {
        case "nan": case "NaN": case "-nan": return Double.NaN;
        case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
        case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
        }
        return Double.parseDouble(s);
    }
    static Value r(double x) { return new StringValue(Double.toString(x)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
    public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
    public static Value RMod(Value a, Value c) { return r(d(a) % d(c)); }
    public static Value RNeg(Value a) { return r(-d(a)); }
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value RSin(Value a) { return r(Math.sin(d(a))); }
    public static Value RCos(Value a) { return r(Math.cos(d(a))); }
    public static Value RTan(Value a) { return r(Math.tan(d(a))); }
    public static Value RAsin(Value a) { return r(Math.asin(d(a))); }
    public static Value RAcos(Value a) { return r(Math.acos(d(a))); }
    public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
    public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
    public static Value RExp(Value a) { return r(Math.exp(d(a))); }
    public static Value RLn(Value a) { return r(Math.log(d(a))); }
    public static Value RLog10(Value a) { return r(Math.log10(d(a))); }
    public static Value RFloorR(Value a) { return r(Math.floor(d(a))); }
    public static Value RCeilR(Value a) { return r(Math.ceil(d(a))); }
    public static Value RRoundR(Value a) {
        double x = d(a);
        return r(x < 0 ? -Math.floor(-x + 0.5) : Math.floor(x + 0.5));
    }
    public static Value RTruncR(Value a) { double x = d(a); return r(x < 0 ? Math.ceil(x) : Math.floor(x)); }
    public static Value RToInt(Value a) {
        double x = d(a);
        if (!(Math.abs(x) <= Integer.MAX_VALUE) || x != Math.rint(x))
            throw new RuntimeException("RToInt: not a TLC integer: " + x);
        return IntValue.gen((int) x);
    }
    public static Value RSingle(Value a) { return r((double) (float) d(a)); }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value RIsFinite(Value a) { return b(Double.isFinite(d(a))); }
    public static Value RNorm(Value a) { return r(d(a) + 0.0); }
    public static Value RIsNumeral(Value a) {
        try { d(a); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; }
    }
}
