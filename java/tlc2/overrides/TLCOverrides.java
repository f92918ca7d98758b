package tlc2.overrides;

/** Registers the Java implementations of the operators of module Z and TraceIO (TLC loads this class by name). */
public class TLCOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] { zov.ZOv.class, zov.TraceIO.class, SequencesExt.class, FiniteSetsExt.class, Functions.class, IOUtils.class };
  }
}
