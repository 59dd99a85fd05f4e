package slav;

import java.util.concurrent.ConcurrentHashMap;
import tlc2.output.EC;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.EvalException;
import tlc2.value.impl.*;

/**
 * TLC evaluation of the operators declared in Num.tla: a small numeric tower (32-bit integers and IEEE doubles) with
 * the ordinary infix notation. Every operator is total: numeric failures give NaN, an integer result beyond 32 bits becomes a real, so that
 * an odd result recorded from the implementation makes a comparison FALSE instead of ending TLC with an error.
 */
public final class Num {
    private Num() {}
    static final int BADINT = Integer.MIN_VALUE;

    static double d(Value v) { return RealValue.of(v); }
    static Value r(double x) { return new RealValue(x); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value i(long x, String what) {
        if (x < Integer.MIN_VALUE || x > Integer.MAX_VALUE) return r((double) x);
        return IntValue.gen((int) x);
    }
    static boolean ii(Value a, Value b) { return a instanceof IntValue && b instanceof IntValue; }
    static long l(Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "+", module = "Num", warn = false)
    public static Value plus(Value a, Value b) { return ii(a, b) ? i(l(a) + l(b), "+") : r(d(a) + d(b)); }
    @TLAPlusOperator(identifier = "-", module = "Num", warn = false)
    public static Value minus(Value a, Value b) { return ii(a, b) ? i(l(a) - l(b), "-") : r(d(a) - d(b)); }
    @TLAPlusOperator(identifier = "*", module = "Num", warn = false)
    public static Value times(Value a, Value b) { return ii(a, b) ? i(l(a) * l(b), "*") : r(d(a) * d(b)); }
    @TLAPlusOperator(identifier = "/", module = "Num", warn = false)
    public static Value div(Value a, Value b) { return r(d(a) / d(b)); }
    @TLAPlusOperator(identifier = "-.", module = "Num", warn = false)
    public static Value neg(Value a) { return a instanceof IntValue ? i(-l(a), "-.") : r(-d(a)); }
    @TLAPlusOperator(identifier = "\\div", module = "Num", warn = false)
    public static Value idiv(Value a, Value b) { return ii(a, b) ? i(Math.floorDiv(l(a), l(b)), "div") : r(Math.floor(d(a) / d(b))); }
    @TLAPlusOperator(identifier = "%", module = "Num", warn = false)
    public static Value mod(Value a, Value b) { return ii(a, b) ? i(Math.floorMod(l(a), l(b)), "%") : r(d(a) - d(b) * Math.floor(d(a) / d(b))); }
    @TLAPlusOperator(identifier = "<", module = "Num", warn = false)
    public static Value lt(Value a, Value b) { return b(d(a) < d(b)); }
    @TLAPlusOperator(identifier = "\\leq", module = "Num", warn = false)
    public static Value le(Value a, Value b) { return b(d(a) <= d(b)); }
    @TLAPlusOperator(identifier = ">", module = "Num", warn = false)
    public static Value gt(Value a, Value b) { return b(d(a) > d(b)); }
    @TLAPlusOperator(identifier = "\\geq", module = "Num", warn = false)
    public static Value ge(Value a, Value b) { return b(d(a) >= d(b)); }
    @TLAPlusOperator(identifier = "\\doteq", module = "Num", warn = false)
    public static Value eq(Value a, Value b) { return b(d(a) == d(b)); }
    @TLAPlusOperator(identifier = "..", module = "Num", warn = false)
    public static Value dots(Value a, Value b) { return new IntervalValue(((IntValue) a).val, ((IntValue) b).val); }

    private static final ConcurrentHashMap<Integer, RealValue> LIT = new ConcurrentHashMap<>();
    @TLAPlusOperator(identifier = "R", module = "Num", warn = false)
    public static Value lit(Value s) {
        if (!(s instanceof StringValue)) return r(d(s));
        StringValue sv = (StringValue) s;
        int tok = sv.val.getTok();
        RealValue v = LIT.get(tok);
        if (v == null) { v = new RealValue(Double.parseDouble(sv.val.toString())); LIT.put(tok, v); }
        return v;
    }
    @TLAPlusOperator(identifier = "Sin", module = "Num", warn = false)
    public static Value sin(Value a) { return r(Math.sin(d(a))); }
    @TLAPlusOperator(identifier = "Cos", module = "Num", warn = false)
    public static Value cos(Value a) { return r(Math.cos(d(a))); }
    @TLAPlusOperator(identifier = "Tan", module = "Num", warn = false)
    public static Value tan(Value a) { return r(Math.tan(d(a))); }
    @TLAPlusOperator(identifier = "Asin", module = "Num", warn = false)
    public static Value asin(Value a) { return r(Math.asin(d(a))); }
    @TLAPlusOperator(identifier = "Acos", module = "Num", warn = false)
    public static Value acos(Value a) { return r(Math.acos(d(a))); }
    @TLAPlusOperator(identifier = "Atan2", module = "Num", warn = false)
    public static Value atan2(Value y, Value x) { return r(Math.atan2(d(y), d(x))); }
    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value sqrt(Value a) { return r(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "Exp", module = "Num", warn = false)
    public static Value exp(Value a) { return r(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "Ln", module = "Num", warn = false)
    public static Value ln(Value a) { return r(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "Pow", module = "Num", warn = false)
    public static Value pow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
    @TLAPlusOperator(identifier = "Floor", module = "Num", warn = false)
    public static Value floor(Value a) { return r(Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "Trunc", module = "Num", warn = false)
    public static Value trunc(Value a) { double x = d(a); return r(x < 0 ? Math.ceil(x) : Math.floor(x)); }
    @TLAPlusOperator(identifier = "Round", module = "Num", warn = false)
    public static Value round(Value a) { double x = d(a); double t = Math.floor(Math.abs(x)); if (Math.abs(x) - t >= 0.5) t += 1; return r(Math.copySign(t, x)); }
    @TLAPlusOperator(identifier = "Fmod", module = "Num", warn = false)
    public static Value fmod(Value a, Value b) { return r(d(a) % d(b)); }
    @TLAPlusOperator(identifier = "Abs", module = "Num", warn = false)
    public static Value abs(Value a) { return a instanceof IntValue ? i(Math.abs(l(a)), "Abs") : r(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "Max", module = "Num", warn = false)
    public static Value max(Value a, Value b) { return ii(a, b) ? (l(a) >= l(b) ? a : b) : r(Math.max(d(a), d(b))); }
    @TLAPlusOperator(identifier = "Min", module = "Num", warn = false)
    public static Value min(Value a, Value b) { return ii(a, b) ? (l(a) <= l(b) ? a : b) : r(Math.min(d(a), d(b))); }
    @TLAPlusOperator(identifier = "F32", module = "Num", warn = false)
    public static Value f32(Value a) { return r((double) (float) d(a)); }
    @TLAPlusOperator(identifier = "Finite", module = "Num", warn = false)
    public static Value finite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "IsNaN", module = "Num", warn = false)
    public static Value isnan(Value a) { return b(Double.isNaN(d(a))); }
    @TLAPlusOperator(identifier = "Ulp", module = "Num", warn = false)
    public static Value ulp(Value a) { return r(Math.ulp(d(a))); }
    @TLAPlusOperator(identifier = "NextUp", module = "Num", warn = false)
    public static Value nextUp(Value a) { return r(Math.nextUp(d(a))); }
    @TLAPlusOperator(identifier = "NextDown", module = "Num", warn = false)
    public static Value nextDown(Value a) { return r(Math.nextDown(d(a))); }
    /** integral real to integer; NaN / out of range / not integral gives BADINT */
    @TLAPlusOperator(identifier = "Int", module = "Num", warn = false)
    public static Value toInt(Value a) {
        if (a instanceof IntValue) return a;
        double x = d(a);
        if (!(x >= -2147483647.0 && x <= 2147483647.0) || x != Math.rint(x)) return IntValue.gen(BADINT);
        return IntValue.gen((int) x);
    }
    @TLAPlusOperator(identifier = "IsInt", module = "Num", warn = false)
    public static Value isInt(Value a) { return b(a instanceof IntValue); }
    @TLAPlusOperator(identifier = "IsReal", module = "Num", warn = false)
    public static Value isReal(Value a) { return b(a instanceof RealValue); }
    /** compensated sum of a function or tuple of numbers */
    @TLAPlusOperator(identifier = "Sum", module = "Num", warn = false)
    public static Value sum(Value f) {
        Value[] e = elems(f);
        double s = 0, c = 0;
        for (Value v : e) {
            double x = d(v), t = s + x;
            c += Math.abs(s) >= Math.abs(x) ? (s - t) + x : (x - t) + s;
            s = t;
        }
        double z = s + c;
        return r(Double.isNaN(z) ? s : z);
    }
    /** greatest absolute value in a function or tuple of numbers (0 if empty, NaN if any is NaN) */
    @TLAPlusOperator(identifier = "MaxAbs", module = "Num", warn = false)
    public static Value maxAbs(Value f) {
        double m = 0;
        for (Value v : elems(f)) m = Math.max(m, Math.abs(d(v)));
        return r(m);
    }
    static Value[] elems(Value f) {
        Value t = f.toTuple();
        if (t instanceof TupleValue) return ((TupleValue) t).elems;
        Value g = f.toFcnRcd();
        return ((FcnRcdValue) g).values;
    }
    /** evaluates a lazily represented function into a tuple, so that each element is computed once */
    @TLAPlusOperator(identifier = "Tup", module = "Num", warn = false)
    public static Value tup(Value f) {
        Value t = f.toTuple();
        if (t instanceof TupleValue) { t.deepNormalize(); return t; }
        throw new EvalException(EC.GENERAL, "Tup: not a sequence");
    }

    /** op(...op(op(base, seq[1]), seq[2])..., seq[n]) */
    @TLAPlusOperator(identifier = "Fold", module = "Num", warn = false)
    public static Value fold(OpValue op, Value base, Value seq) {
        Value[] args = new Value[2];
        args[0] = base;
        for (Value e : elems(seq)) {
            args[1] = e;
            args[0] = op.eval(args, tlc2.tool.EvalControl.Clear);
            args[0].deepNormalize();
        }
        return args[0];
    }

    static long mix(long z) {
        z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
        z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
        return z ^ (z >>> 31);
    }
    static long hash(long a, long b, long c) {
        return mix(mix(mix(Io.SEED * 0x9e3779b97f4a7c15L + 1) + a * 0x9e3779b97f4a7c15L) + b * 0xd1b54a32d192ed03L) * 0x9e3779b97f4a7c15L + c * 0x8cb92ba72f3d8dd7L;
    }
    /** counter-based pseudo-random real in [0,1), a function of the run's seed and three integers */
    @TLAPlusOperator(identifier = "Rnd", module = "Num", warn = false)
    public static Value rnd(Value a, Value b, Value c) {
        return r((mix(hash(l(a), l(b), l(c))) >>> 11) * 0x1.0p-53);
    }
    /** pseudo-random integer in 0..n-1 */
    @TLAPlusOperator(identifier = "RndInt", module = "Num", warn = false)
    public static Value rndInt(Value a, Value b, Value c, Value n) {
        return IntValue.gen((int) Math.floorMod(mix(hash(l(a), l(b), l(c)) ^ 0x5bf03635L) >>> 3, l(n)));
    }
    /** the same value down to the bits: NaN is the same as NaN, zeros of either sign are the same */
    @TLAPlusOperator(identifier = "Same", module = "Num", warn = false)
    public static Value same(Value a, Value b) { return same_(a, b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static boolean same_(Value a, Value b) {
        if (a instanceof RealValue || b instanceof RealValue) {
            if (!(a instanceof RealValue && b instanceof RealValue)) return false;
            double x = ((RealValue) a).val, y = ((RealValue) b).val;
            return x == y || (x != x && y != y);
        }
        if (a instanceof TupleValue && b instanceof TupleValue) {
            Value[] x = ((TupleValue) a).elems, y = ((TupleValue) b).elems;
            if (x.length != y.length) return false;
            for (int k = 0; k < x.length; k++) if (!same_(x[k], y[k])) return false;
            return true;
        }
        return a.getClass() == b.getClass() && a.equals(b);
    }
}
