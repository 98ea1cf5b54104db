import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluates the operators of spec/Fl.tla: real numbers as IEEE doubles.
 *  A double is represented by the pair of its two 32-bit halves. */
public class Fl {
    static Value v(double d) {
        if (d == 0) d = 0.0;                     // no negative zero
        long l = Double.doubleToLongBits(d);
        return new TupleValue(new Value[] { IntValue.gen((int) (l >>> 32)), IntValue.gen((int) l) });
    }
    static double d(Value x) {
        if (x instanceof IntValue) return ((IntValue) x).val;
        if (x instanceof StringValue) return Double.parseDouble(((StringValue) x).val.toString());
        TupleValue t = (TupleValue) x.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "F", module = "Fl", warn = false) public static Value F(Value a) { return v(d(a)); }
    @TLAPlusOperator(identifier = "FBits", module = "Fl", warn = false) public static Value bits(Value a) { return v(Float.intBitsToFloat(((IntValue) a).val)); }
    @TLAPlusOperator(identifier = "FToBits", module = "Fl", warn = false) public static Value tobits(Value a) { return IntValue.gen(Float.floatToIntBits((float) d(a))); }
    @TLAPlusOperator(identifier = "F32", module = "Fl", warn = false) public static Value f32(Value a) { return v((float) d(a)); }
    @TLAPlusOperator(identifier = "FAdd", module = "Fl", warn = false) public static Value add(Value a, Value b) { return v(d(a) + d(b)); }
    @TLAPlusOperator(identifier = "FSub", module = "Fl", warn = false) public static Value sub(Value a, Value b) { return v(d(a) - d(b)); }
    @TLAPlusOperator(identifier = "FMul", module = "Fl", warn = false) public static Value mul(Value a, Value b) { return v(d(a) * d(b)); }
    @TLAPlusOperator(identifier = "FDiv", module = "Fl", warn = false) public static Value div(Value a, Value b) { return v(d(a) / d(b)); }
    @TLAPlusOperator(identifier = "FMin", module = "Fl", warn = false) public static Value min(Value a, Value b) { return v(Math.min(d(a), d(b))); }
    @TLAPlusOperator(identifier = "FMax", module = "Fl", warn = false) public static Value max(Value a, Value b) { return v(Math.max(d(a), d(b))); }
    @TLAPlusOperator(identifier = "FAbs", module = "Fl", warn = false) public static Value abs(Value a) { return v(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "FFloor", module = "Fl", warn = false) public static Value floor(Value a) { return v(Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "FExp", module = "Fl", warn = false) public static Value exp(Value a) { return v(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "FLog", module = "Fl", warn = false) public static Value log(Value a) { return v(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "FPow", module = "Fl", warn = false) public static Value pow(Value a, Value b) { return v(Math.pow(d(a), d(b))); }
    @TLAPlusOperator(identifier = "FSqrt", module = "Fl", warn = false) public static Value sqrt(Value a) { return v(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "FSinDeg", module = "Fl", warn = false) public static Value sin(Value a) { return v(Math.sin(Math.toRadians(d(a)))); }
    @TLAPlusOperator(identifier = "FCosDeg", module = "Fl", warn = false) public static Value cos(Value a) { return v(Math.cos(Math.toRadians(d(a)))); }
    @TLAPlusOperator(identifier = "FAtan2Deg", module = "Fl", warn = false) public static Value atan2(Value a, Value b) { return v(Math.toDegrees(Math.atan2(d(a), d(b)))); }
    @TLAPlusOperator(identifier = "FHypot", module = "Fl", warn = false) public static Value hypot(Value a, Value b) { return v(Math.hypot(d(a), d(b))); }
    @TLAPlusOperator(identifier = "FRem", module = "Fl", warn = false) public static Value rem(Value a, Value b) { return v(d(a) % d(b)); }
    @TLAPlusOperator(identifier = "FLt", module = "Fl", warn = false) public static Value lt(Value a, Value b) { return b(d(a) < d(b)); }
    @TLAPlusOperator(identifier = "FLe", module = "Fl", warn = false) public static Value le(Value a, Value b) { return b(d(a) <= d(b)); }
    @TLAPlusOperator(identifier = "FEq", module = "Fl", warn = false) public static Value eq(Value a, Value b) { return b(d(a) == d(b)); }
    @TLAPlusOperator(identifier = "FFinite", module = "Fl", warn = false) public static Value finite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "FNear", module = "Fl", warn = false) public static Value near(Value a, Value b, Value abs, Value rel) {
        double x = d(a), y = d(b);
        return b(x == y || Math.abs(x - y) <= d(abs) + d(rel) * Math.max(Math.abs(x), Math.abs(y)));
    }
    @TLAPlusOperator(identifier = "FRound", module = "Fl", warn = false) public static Value round(Value a) { double x = d(a); return IntValue.gen((int) (x < 0 ? Math.ceil(x - 0.5) : Math.floor(x + 0.5))); }
    @TLAPlusOperator(identifier = "FTrunc", module = "Fl", warn = false) public static Value trunc(Value a) { return IntValue.gen((int) d(a)); }
    @TLAPlusOperator(identifier = "FStr", module = "Fl", warn = false) public static Value str(Value a) { return new StringValue(Double.toString(d(a))); }
    @TLAPlusOperator(identifier = "FDot", module = "Fl", warn = false) public static Value dot(Value a, Value b) {
        Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
        double s = 0; for (int i = 0; i < x.length; i++) s += d(x[i]) * d(y[i]); return v(s);
    }
}
