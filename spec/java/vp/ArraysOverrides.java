package vp;

import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Faster evaluation of two operators of Arrays.tla; their TLA+ bodies say what they mean. */
public final class ArraysOverrides {
    @TLAPlusOperator(identifier = "GroupIdx", module = "Arrays", warn = false)
    public static Value group(Value keys) {
        Value[] k = ((TupleValue) keys.toTuple()).elems;
        Map<Value, List<Value>> m = new TreeMap<>();
        for (int i = 0; i < k.length; i++) m.computeIfAbsent(k[i], x -> new ArrayList<>()).add(IntValue.gen(i + 1));
        Value[] d = new Value[m.size()], v = new Value[m.size()];
        int j = 0;
        for (Map.Entry<Value, List<Value>> e : m.entrySet()) { d[j] = e.getKey(); v[j++] = new TupleValue(e.getValue().toArray(new Value[0])); }
        return new FcnRcdValue(d, v, false).normalize();
    }

    /** Drops the NaNs of a sequence of reals. */
    @TLAPlusOperator(identifier = "Finites", module = "Arrays", warn = false)
    public static Value finites(Value s) {
        List<Value> l = new ArrayList<>();
        for (Value x : ((TupleValue) s.toTuple()).elems) if (!Num.of(x).nan()) l.add(x);
        return new TupleValue(l.toArray(new Value[0]));
    }

    private static Value field(RecordValue r, String f) {
        for (int i = 0; i < r.names.length; i++) if (r.names[i].toString().equals(f)) return r.values[i];
        throw new RuntimeException("Arrays: no field " + f);
    }
    private static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static int[] ints(Value v) { Value[] e = elems(v); int[] r = new int[e.length]; for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val; return r; }

    @TLAPlusOperator(identifier = "Transpose", module = "Arrays", warn = false)
    public static Value transpose(Value av, Value dsv) {
        RecordValue a = (RecordValue) av.toRcd();
        Value[] dims = elems(field(a, "dims")), ds = elems(dsv), v = elems(field(a, "v"));
        int[] sh = ints(field(a, "shape"));
        int n = sh.length;
        if (ds.length != n) throw new RuntimeException("Arrays: Transpose to other dimensions");
        int[] st = new int[n]; int s = 1;
        for (int i = n - 1; i >= 0; i--) { st[i] = s; s *= sh[i]; }
        int[] nsh = new int[n], nst = new int[n];
        Value[] shv = new Value[n];
        for (int i = 0; i < n; i++) {
            int k = -1;
            for (int j = 0; j < n; j++) if (dims[j].equals(ds[i])) k = j;
            if (k < 0) throw new RuntimeException("Arrays: Transpose to unknown dimension " + ds[i]);
            nsh[i] = sh[k]; nst[i] = st[k]; shv[i] = IntValue.gen(sh[k]);
        }
        Value[] out = new Value[v.length];
        int[] ix = new int[n];
        for (int p = 0; p < out.length; p++) {
            int q = 0;
            for (int i = 0; i < n; i++) q += ix[i] * nst[i];
            out[p] = v[q];
            for (int i = n - 1; i >= 0; i--) { if (++ix[i] < nsh[i]) break; ix[i] = 0; }
        }
        UniqueString[] names = a.names.clone(); Value[] vals = a.values.clone();
        for (int i = 0; i < names.length; i++) {
            String f = names[i].toString();
            if (f.equals("dims")) vals[i] = dsv.toTuple();
            if (f.equals("shape")) vals[i] = new TupleValue(shv);
            if (f.equals("v")) vals[i] = new TupleValue(out);
        }
        return new RecordValue(names, vals, true);
    }
    @TLAPlusOperator(identifier = "Along", module = "Arrays", warn = false)
    public static Value along(Value av, Value axv, Value ov, Value iv) {
        RecordValue a = (RecordValue) av.toRcd();
        Value[] v = elems(field(a, "v")); int[] sh = ints(field(a, "shape"));
        int ax = ((IntValue) axv).val - 1, o = ((IntValue) ov).val - 1, i = ((IntValue) iv).val - 1, inn = 1;
        for (int d = ax + 1; d < sh.length; d++) inn *= sh[d];
        Value[] out = new Value[sh[ax]];
        for (int k = 0; k < out.length; k++) out[k] = v[(o * sh[ax] + k) * inn + i];
        return new TupleValue(out);
    }
}
