package vkover;

import tlc2.overrides.ITLCOverrides;

/** Loaded by TLC through -Dtlc2.overrides.TLCOverrides. */
public final class Overrides implements ITLCOverrides {
  @Override
  public Class[] get() {
    return new Class[] {BigRat.class};
  }
}
