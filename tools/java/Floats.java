import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** What TLC does for the operators of spec/Floats.tla: a double is the pair of its halves. */
public class Floats {
    static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value f(double x) {
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    static Value b(boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value FOf(IntValue n, IntValue m) { return f((double) n.val / m.val); }
    public static Value FAdd(Value a, Value b) { return f(d(a) + d(b)); }
    public static Value FSub(Value a, Value b) { return f(d(a) - d(b)); }
    public static Value FMul(Value a, Value b) { return f(d(a) * d(b)); }
    public static Value FDiv(Value a, Value b) { return f(d(a) / d(b)); }
    public static Value FNeg(Value a) { return f(-d(a)); }
    public static Value FAbs(Value a) { return f(Math.abs(d(a))); }
    public static Value FMax(Value a, Value b) { return f(Math.max(d(a), d(b))); }
    public static Value FPow(Value a, Value b) { return f(StrictMath.pow(d(a), d(b))); }
    public static Value FLog10(Value a) { return f(StrictMath.log10(d(a))); }
    public static Value FLn(Value a) { return f(StrictMath.log(d(a))); }
    public static Value FExp(Value a) { return f(StrictMath.exp(d(a))); }
    public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value FLeq(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value FFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
    public static Value FNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value FWhole(Value a) { return b(d(a) == Math.rint(d(a))); }
    public static Value FFloor(Value a) { return f(Math.floor(d(a))); }
    public static Value FHalves(Value a) {
        int n = (int) d(a);
        return new TupleValue(IntValue.gen(n >>> 16), IntValue.gen(n & 0xffff));
    }
    public static Value FOfWord(Value w) {
        Value[] e = ((TupleValue) w.toTuple()).elems;
        double x = ((IntValue) e[0]).val >= 32768 ? -65536.0 : 0.0;
        double unit = 1;
        for (int i = 0; i < e.length; i++) { x += ((IntValue) e[i]).val * unit; unit /= 65536; }
        return f(x);
    }
    public static Value FShow(Value a) { return new StringValue(Double.toString(d(a))); }
}
