import tlc2.overrides.ITLCOverrides;
public class FlOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes") public Class[] get() { return new Class[] { Fl.class }; }
}
