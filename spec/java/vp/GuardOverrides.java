package vp;

import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Guarded(e): the value of e, or the text of the evaluation error when e has none. */
public final class GuardOverrides {
    @Evaluation(definition = "Guarded", module = "TraceIO", warn = false, silent = true)
    public static Value guarded(Tool tool, ExprOrOpArgNode[] args, Context c, TLCState s0, TLCState s1, int control, CostModel cm) {
        try {
            return (Value) tool.eval(args[0], c, s0, s1, control, cm);
        } catch (StackOverflowError | RuntimeException e) {
            String m = String.valueOf(e.getMessage());
            if (m.length() > 600) m = m.substring(0, 600);
            return new StringValue("not interpretable: " + m.replaceAll("\\s+", " "));
        }
    }
}
