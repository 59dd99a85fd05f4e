package slav;

import tlc2.tool.EvalException;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/** An IEEE-754 double as a TLC value (TLC itself has no real numbers). Immutable atom. */
public final class RealValue extends Value {
    private static final long serialVersionUID = 1L;
    public final double val;

    public RealValue(double v) { this.val = v; }

    public static double of(Object v) {
        if (v instanceof RealValue) return ((RealValue) v).val;
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new EvalException(tlc2.output.EC.GENERAL, "Num: not a number: " + v);
    }

    @Override public byte getKind() { return REALVALUE; }
    @Override public int compareTo(Object o) { return Double.compare(val, of(o)); }
    @Override public boolean equals(Object o) {
        return (o instanceof RealValue || o instanceof IntValue) && val == of(o);
    }
    @Override public boolean member(Value v) { throw new EvalException(tlc2.output.EC.GENERAL, "\\in a real"); }
    @Override public boolean isFinite() { throw new EvalException(tlc2.output.EC.GENERAL, "IsFiniteSet(real)"); }
    @Override public Value takeExcept(ValueExcept ex) {
        if (ex.idx < ex.path.length) throw new EvalException(tlc2.output.EC.GENERAL, "EXCEPT inside a real");
        return ex.value;
    }
    @Override public Value takeExcept(ValueExcept[] ex) { Value r = this; for (ValueExcept e : ex) r = takeExcept(e); return r; }
    @Override public int size() { throw new EvalException(tlc2.output.EC.GENERAL, "size of a real"); }
    @Override public boolean mutates() { return false; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, REALVALUE), Double.doubleToLongBits(val)); }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        return sb.append("R(\"").append(val).append("\")");
    }
}
