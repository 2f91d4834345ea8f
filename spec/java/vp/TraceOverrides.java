package vp;

import java.io.BufferedWriter;
import java.io.FileWriter;
import java.io.IOException;
import java.io.PrintWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Trace input (ndjson with exact doubles) and verdict / case output for TraceIO.tla. */
public final class TraceOverrides {
    private static final Map<String, PrintWriter> OUT = new HashMap<>();

    @TLAPlusOperator(identifier = "ReadTrace", module = "TraceIO", warn = false)
    public static Value read(Value path) {
        try {
            List<Value> out = new ArrayList<>();
            for (String line : Files.readAllLines(Paths.get(((StringValue) path).val.toString()), StandardCharsets.UTF_8))
                if (!line.isBlank()) out.add(new P(line).top());
            return new TupleValue(out.toArray(new Value[0]));
        } catch (IOException e) { throw new RuntimeException("TraceIO: " + e); }
    }

    /** Appends one JSON line to the file; always TRUE. */
    @TLAPlusOperator(identifier = "Emit", module = "TraceIO", warn = false)
    public static synchronized Value emit(Value path, Value rec) {
        try {
            String p = ((StringValue) path).val.toString();
            PrintWriter w = OUT.get(p);
            if (w == null) {
                w = new PrintWriter(new BufferedWriter(new FileWriter(p, StandardCharsets.UTF_8, true)));
                OUT.put(p, w);
                final PrintWriter ww = w;
                Runtime.getRuntime().addShutdownHook(new Thread(ww::flush));
            }
            StringBuilder sb = new StringBuilder();
            json(rec, sb);
            w.println(sb);
            w.flush();
            return BoolValue.ValTrue;
        } catch (IOException e) { throw new RuntimeException("TraceIO: " + e); }
    }

    private static void str(String s, StringBuilder sb) {
        sb.append('"');
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') sb.append('\\').append(c);
            else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
            else sb.append(c);
        }
        sb.append('"');
    }

    private static void json(Value v, StringBuilder sb) {
        if (v instanceof IntValue) sb.append(((IntValue) v).val);
        else if (v instanceof BoolValue) sb.append(((BoolValue) v).val);
        else if (v instanceof StringValue) str(((StringValue) v).val.toString(), sb);
        else if (v instanceof UserValue) sb.append('"').append(Num.of(v).show()).append('"');
        else if (v instanceof RecordValue) {
            RecordValue r = (RecordValue) v.normalize(); sb.append('{');
            for (int i = 0; i < r.names.length; i++) {
                if (i > 0) sb.append(", ");
                str(r.names[i].toString(), sb); sb.append(": "); json(r.values[i], sb);
            }
            sb.append('}');
        } else {
            Value[] e = null;
            Value t = v.toTuple();
            if (t != null) e = ((TupleValue) t).elems;
            else {
                Value rc = v.toRcd();
                if (rc != null) { json(rc, sb); return; }
                Value s = v.toSetEnum();
                if (s != null) { s.normalize(); SetEnumValue se = (SetEnumValue) s; e = new Value[se.elems.size()]; for (int i = 0; i < e.length; i++) e[i] = se.elems.elementAt(i); }
            }
            if (e == null) { str(v.toString(), sb); return; }
            sb.append('[');
            for (int i = 0; i < e.length; i++) { if (i > 0) sb.append(", "); json(e[i], sb); }
            sb.append(']');
        }
    }

    /** A JSON parser: integers -> Int, decimals / NaN / Infinity -> exact Num. */
    private static final class P {
        final String s; int i;
        P(String s) { this.s = s; }
        Value top() { Value v = val(); ws(); if (i != s.length()) bad(); return v; }
        void bad() { throw new RuntimeException("TraceIO: bad JSON at " + i); }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value val() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                i++;
                Map<String, Value> m = new LinkedHashMap<>();
                ws();
                if (s.charAt(i) == '}') i++;
                else while (true) {
                    ws(); String k = string(); ws();
                    if (s.charAt(i++) != ':') bad();
                    m.put(k, val()); ws();
                    char d = s.charAt(i++);
                    if (d == '}') break;
                    if (d != ',') bad();
                }
                UniqueString[] names = new UniqueString[m.size()]; Value[] vals = new Value[m.size()];
                int j = 0;
                for (Map.Entry<String, Value> e : m.entrySet()) { names[j] = UniqueString.uniqueStringOf(e.getKey()); vals[j++] = e.getValue(); }
                return new RecordValue(names, vals, false).normalize();
            }
            if (c == '[') {
                i++;
                List<Value> l = new ArrayList<>();
                ws();
                if (s.charAt(i) == ']') i++;
                else while (true) {
                    l.add(val()); ws();
                    char d = s.charAt(i++);
                    if (d == ']') break;
                    if (d != ',') bad();
                }
                return new TupleValue(l.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(string());
            int b = i;
            while (i < s.length() && ",]} ".indexOf(s.charAt(i)) < 0) i++;
            String t = s.substring(b, i);
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return new StringValue("None");
                case "NaN": return Num.NAN.val();
                case "Infinity": return Num.PINF.val();
                case "-Infinity": return Num.NINF.val();
                default:
            }
            if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) {
                try { return IntValue.gen(Integer.parseInt(t)); }
                catch (NumberFormatException ex) { return Num.ofDecimal(t).val(); }
            }
            return Num.ofDouble(Double.parseDouble(t)).val();
        }
        String string() {
            if (s.charAt(i) != '"') bad();
            StringBuilder sb = new StringBuilder(); i++;
            while (s.charAt(i) != '"') {
                char c = s.charAt(i++);
                if (c == '\\') {
                    c = s.charAt(i++);
                    switch (c) {
                        case 'n': sb.append('\n'); break;
                        case 't': sb.append('\t'); break;
                        case 'r': sb.append('\r'); break;
                        case 'b': sb.append('\b'); break;
                        case 'f': sb.append('\f'); break;
                        case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
                        default: sb.append(c);
                    }
                } else sb.append(c);
            }
            i++;
            return sb.toString();
        }
    }
}
