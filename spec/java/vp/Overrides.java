package vp;

import tlc2.overrides.ITLCOverrides;

public final class Overrides implements ITLCOverrides {
    @Override public Class[] get() {
        return new Class[] { RealsOverrides.class, TraceOverrides.class, GuardOverrides.class, ArraysOverrides.class };
    }
}
