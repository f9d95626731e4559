import java.util.concurrent.atomic.AtomicLongArray;
import tlc2.value.impl.*;

/** Evaluates the operators of Tally.tla. */
public class Tally {
  static final AtomicLongArray counters = new AtomicLongArray(64);
  public static Value Tick(Value k) { counters.incrementAndGet(Ieee.i(k)); return BoolValue.ValTrue; }
  public static Value TickCount(Value k) { return IntValue.gen((int) counters.get(Ieee.i(k))); }
}
