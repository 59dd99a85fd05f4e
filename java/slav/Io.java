package slav;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.output.EC;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.EvalException;
import tlc2.value.impl.*;
import util.UniqueString;

/** Trace input, call output and data tables. */
public final class Io {
    private Io() {}
    static final long SEED = Long.getLong("slav.seed", 1L);

    static Value token(String t) {
        char c = t.charAt(0);
        String s = t.substring(1);
        switch (c) {
            case 'd': return new RealValue(Double.longBitsToDouble(Long.parseUnsignedLong(s, 16)));
            case 'f': return new RealValue((double) Float.intBitsToFloat((int) Long.parseLong(s, 16)));
            case 'i': return IntValue.gen(Integer.parseInt(s));
            case 's': return new StringValue(java.net.URLDecoder.decode(s, StandardCharsets.UTF_8));
            case 'b': return s.equals("1") ? BoolValue.ValTrue : BoolValue.ValFalse;
            default: throw new EvalException(EC.GENERAL, "Io: bad token " + t);
        }
    }
    static final UniqueString OP = UniqueString.uniqueStringOf("op"), A = UniqueString.uniqueStringOf("a"),
        RES = UniqueString.uniqueStringOf("r"), OK = UniqueString.uniqueStringOf("ok");
    static Value event(String line) {
        String[] w = line.split(" ");
        List<Value> a = new ArrayList<>(), r = new ArrayList<>();
        boolean res = false, ok = false;
        for (int k = 1; k < w.length; k++) {
            if (w[k].isEmpty()) continue;
            if (w[k].equals("|")) { res = true; continue; }
            if (w[k].equals(".")) { ok = true; continue; }
            if (w[k].charAt(0) == '!') { r.add(new StringValue(w[k])); continue; }
            (res ? r : a).add(token(w[k]));
        }
        return new RecordValue(new UniqueString[] { A, OK, OP, RES }, new Value[] {
            new TupleValue(a.toArray(new Value[0])), ok ? BoolValue.ValTrue : BoolValue.ValFalse,
            new StringValue(w[0]), new TupleValue(r.toArray(new Value[0])) }, false);
    }
    /** <<session, session, ...>>, each a sequence of [op, a, r, ok] */
    @TLAPlusOperator(identifier = "LoadTrace", module = "Num", warn = false)
    public static Value loadTrace(Value dummy) throws IOException {
        List<Value> ss = new ArrayList<>(), cur = null;
        try (BufferedReader in = Files.newBufferedReader(Paths.get(System.getProperty("slav.trace")))) {
            for (String s; (s = in.readLine()) != null;) {
                if (s.startsWith("#")) {
                    if (cur != null) ss.add(new TupleValue(cur.toArray(new Value[0])));
                    cur = new ArrayList<>();
                } else if (!s.isEmpty()) cur.add(event(s));
            }
        }
        if (cur != null) ss.add(new TupleValue(cur.toArray(new Value[0])));
        TupleValue t = new TupleValue(ss.toArray(new Value[0]));
        t.deepNormalize();
        return t;
    }
    static String tok(Value v) {
        if (v instanceof RealValue) return "d" + String.format("%016x", Double.doubleToRawLongBits(((RealValue) v).val));
        if (v instanceof IntValue) return "i" + ((IntValue) v).val;
        if (v instanceof BoolValue) return "b" + (((BoolValue) v).val ? "1" : "0");
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            return s.startsWith("$") ? s : "s" + java.net.URLEncoder.encode(s, StandardCharsets.UTF_8);
        }
        throw new EvalException(EC.GENERAL, "Io: cannot emit " + v);
    }
    static void flat(Value v, StringBuilder sb) {
        if (v instanceof RealValue || v instanceof IntValue || v instanceof BoolValue || v instanceof StringValue) { sb.append(' ').append(tok(v)); return; }
        for (Value e : Num.elems(v)) flat(e, sb);
    }
    static PrintWriter out;
    static long sessions = 0, calls = 0;
    /** appends one session: a sequence of <<op, args>> where args is an arbitrarily nested sequence */
    @TLAPlusOperator(identifier = "EmitSession", module = "Num", warn = false)
    public static synchronized Value emit(Value s) throws IOException {
        if (out == null) out = new PrintWriter(new BufferedWriter(new FileWriter(System.getProperty("slav.calls"))));
        StringBuilder sb = new StringBuilder("# " + (sessions++) + "\n");
        for (Value call : Num.elems(s)) {
            Value[] c = Num.elems(call);
            sb.append(((StringValue) c[0]).val.toString());
            flat(c[1], sb);
            sb.append('\n');
            calls++;
        }
        out.print(sb);
        return BoolValue.ValTrue;
    }
    @TLAPlusOperator(identifier = "EmitDone", module = "Num", warn = false)
    public static synchronized Value done(Value x) {
        if (out != null) out.close();
        out = null;
        return BoolValue.ValTrue;
    }
    /** rows of numbers from a data file beside the specification; integers stay integers */
    @TLAPlusOperator(identifier = "Table", module = "Num", warn = false)
    public static Value table(Value name) throws IOException {
        List<Value> rows = new ArrayList<>();
        for (String line : Files.readAllLines(Paths.get(System.getProperty("slav.data"), ((StringValue) name).val.toString()))) {
            String s = line.trim();
            if (s.isEmpty() || s.startsWith("#")) continue;
            List<Value> r = new ArrayList<>();
            for (String w : s.split("\\s+")) {
                if (w.startsWith("'")) r.add(new StringValue(java.net.URLDecoder.decode(w.substring(1), StandardCharsets.UTF_8)));
                else if (w.matches("[-+]?[0-9]+")) r.add(IntValue.gen(Integer.parseInt(w)));
                else r.add(new RealValue(Double.parseDouble(w)));
            }
            rows.add(new TupleValue(r.toArray(new Value[0])));
        }
        return new TupleValue(rows.toArray(new Value[0]));
    }
    @TLAPlusOperator(identifier = "Param", module = "Num", warn = false)
    public static Value param(Value name) {
        String s = System.getProperty("slav." + ((StringValue) name).val.toString());
        if (s == null) throw new EvalException(EC.GENERAL, "missing parameter " + name);
        return s.matches("-?[0-9]+") ? IntValue.gen(Integer.parseInt(s)) : new StringValue(s);
    }
    /** argument that takes result `item` of call `call` of the same session */
    @TLAPlusOperator(identifier = "Ref", module = "Num", warn = false)
    public static Value ref(Value call, Value item) {
        return new StringValue("$" + ((IntValue) call).val + "." + ((IntValue) item).val);
    }
    @TLAPlusOperator(identifier = "Chars", module = "Num", warn = false)
    public static Value chars(Value s) {
        String t = ((StringValue) s).val.toString();
        Value[] v = new Value[t.length()];
        for (int k = 0; k < v.length; k++) v[k] = new StringValue(t.substring(k, k + 1));
        return new TupleValue(v);
    }
    @TLAPlusOperator(identifier = "Concat", module = "Num", warn = false)
    public static Value concat(Value s) {
        StringBuilder b = new StringBuilder();
        for (Value v : Num.elems(s)) b.append(((StringValue) v).val.toString());
        return new StringValue(b.toString());
    }
}
