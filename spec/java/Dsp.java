import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Evaluates FilteredEnergy, SamplePeakOf, TruePeakOf, ErrorScale, MaxInput, KCoef and NoiseRel of Dsp.tla.
 * The definitions are those of the module (operators ...Def); this class only remembers what the
 * filters and the interpolator have done for each run of frames, so that the next question about a
 * longer history does not start from the first frame again.
 */
public class Dsp {
  // ------------------------------------------------------------------ signals
  static final class Sig {
    String k; int[] a, lev, cp; int s, h, p, e, fr, rate; boolean low, f32;
    Map<Long, String> sp = new HashMap<>();

    long hash(long c, long i) {
      long a = ((i % 32749) * 251 + c * 577 + s) % 32749;
      long b = (a * a + i % 32719) % 32749;
      return (b * b + a) % 32749;
    }

    double x(int ch, int i) {
      double v = exact(ch <= cp.length ? cp[ch - 1] : ch, i);
      return f32 ? (double) (float) v : v;
    }

    double exact(int c, int i) {
      if (!sp.isEmpty()) {
        String q = sp.get(((long) c << 32) | i);
        if (q != null) return special(q);
      }
      long al = (long) a[(c - 1) % a.length] * lev[(i / h) % lev.length] / 32768;
      long v;
      switch (k) {
        case "zero": v = 0; break;
        case "dc": v = al; break;
        case "sq": v = ((i + 7L * c) / p) % 2 == 0 ? al : -al; break;
        case "imp": v = i % p == 0 ? al : 0; break;
        case "sine":
          v = (long) Math.floor((double) al
              * StrictMath.sin(2.0 * Math.PI * ((double) fr / 1000.0) * (double) i / (double) rate) + 0.5);
          break;
        case "noise": v = hash(c, i) % (2 * al + 1) - al; break;
        default: throw new RuntimeException("signal " + k);
      }
      long l = low ? (hash(c, i) * 31 + i % 65536) % 65536 : 0;
      return (v * 65536 + l) / 2147483648.0 * Math.pow(2.0, e);
    }

    double special(String q) {
      switch (q) {
        case "min": return -1.0;
        case "max": return low ? 2147483647.0 / 2147483648.0 : 32767.0 / 32768.0;
        case "nan": return Double.NaN;
        case "inf": return Double.POSITIVE_INFINITY;
        case "ninf": return Double.NEGATIVE_INFINITY;
        case "den": return 1e-310;
        case "den32": return (double) 1e-40f;
        case "big": return 1e300;
        case "big32": return (double) 3e38f;
        case "nz": return -0.0;
        default: throw new RuntimeException("special " + q);
      }
    }
  }

  static Value field(RecordValue r, String n) {
    for (int i = 0; i < r.names.length; i++) if (r.names[i].toString().equals(n)) return r.values[i];
    throw new RuntimeException("no field " + n);
  }
  static int[] ints(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int[] r = new int[e.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val;
    return r;
  }
  static Sig parse(RecordValue r) {
    Sig s = new Sig();
    s.k = ((StringValue) field(r, "k")).val.toString();
    s.a = ints(field(r, "a")); s.lev = ints(field(r, "lev")); s.cp = ints(field(r, "cp"));
    s.s = Ieee.i(field(r, "s")); s.h = Ieee.i(field(r, "h")); s.p = Ieee.i(field(r, "p"));
    s.e = Ieee.i(field(r, "e")); s.fr = Ieee.i(field(r, "fr")); s.rate = Ieee.i(field(r, "rate"));
    s.low = Ieee.i(field(r, "low")) == 1; s.f32 = Ieee.i(field(r, "f32")) == 1;
    for (Value q : ((TupleValue) field(r, "sp").toTuple()).elems) {
      Value[] t = ((TupleValue) q.toTuple()).elems;
      s.sp.putIfAbsent(((long) Ieee.i(t[0]) << 32) | Ieee.i(t[1]), ((StringValue) t[2]).val.toString());
    }
    return s;
  }

  /** Everything remembered about one table of signals (there is one table per trace). */
  static final class Cache {
    Sig[] table;
    Map<Integer, Node> roots = new HashMap<>();
    Map<Integer, TNode> tpRoots = new HashMap<>();
    Map<Key, float[]> tops = new HashMap<>();
    long stored = 0;
    Value lastFed; Run[] lastRuns;

    Sig sig(int id) { return table[id - 1]; }
    void trim() {
      if (stored > 12_000_000L) { roots.clear(); tpRoots.clear(); tops.clear(); stored = 0; }
    }
  }
  static final IdentityHashMap<Value, Cache> caches = new IdentityHashMap<>();
  static Cache cache(Value sigs) {
    synchronized (caches) {
      Cache c = caches.get(sigs);
      if (c == null) {
        c = new Cache();
        Value[] e = ((TupleValue) sigs.toTuple()).elems;
        c.table = new Sig[e.length];
        for (int i = 0; i < e.length; i++) c.table[i] = parse((RecordValue) e[i].toRcd());
        caches.put(sigs, c);
      }
      return c;
    }
  }
  public static Value Forget(Value sigs) {
    synchronized (caches) { caches.remove(sigs); }
    return BoolValue.ValTrue;
  }

  // ------------------------------------------------------------------ K-weighting
  static double[][] coef(double rate) {
    double f0 = 1681.974450955533, G = 3.999843853973347, Q = 0.7071752369554196;
    double K = StrictMath.tan(Math.PI * f0 / rate);
    double Vh = StrictMath.pow(10.0, G / 20.0), Vb = StrictMath.pow(Vh, 0.4996667741545416);
    double a0 = 1.0 + K / Q + K * K;
    double pb0 = (Vh + Vb * K / Q + K * K) / a0, pb1 = 2.0 * (K * K - Vh) / a0, pb2 = (Vh - Vb * K / Q + K * K) / a0;
    double pa1 = 2.0 * (K * K - 1.0) / a0, pa2 = (1.0 - K / Q + K * K) / a0;
    f0 = 38.13547087602444; Q = 0.5003270373238773;
    K = StrictMath.tan(Math.PI * f0 / rate);
    double c0 = 1.0 + K / Q + K * K;
    double ra1 = 2.0 * (K * K - 1.0) / c0, ra2 = (1.0 - K / Q + K * K) / c0;
    return new double[][] {
      {pb0, -2.0 * pb0 + pb1, pb0 - 2.0 * pb1 + pb2, pb1 - 2.0 * pb2, pb2},
      {1.0, ra1 + pa1, ra2 + pa1 * ra1 + pa2, pa1 * ra2 + pa2 * ra1, pa2 * ra2}};
  }
  public static Value KCoef(Value rate) {
    double[][] c = coef(Ieee.i(rate));
    Value[] b = new Value[5], a = new Value[5];
    for (int i = 0; i < 5; i++) { b[i] = Ieee.v(c[0][i]); a[i] = Ieee.v(c[1][i]); }
    return new RecordValue(
        new UniqueString[] {UniqueString.uniqueStringOf("a"), UniqueString.uniqueStringOf("b")},
        new Value[] {new TupleValue(a), new TupleValue(b)}, false);
  }

  private static final Map<Integer, Value> NOISE = new ConcurrentHashMap<>();
  public static Value NoiseRel(Value rate) {
    return NOISE.computeIfAbsent(Ieee.i(rate), r -> {
      double d = 1.0 - StrictMath.pow(decay(r), 1.25);
      return Ieee.v(1e-13 + 4e-15 / (d * d));
    });
  }

  /** How much of an error is left one frame later, at most. */
  static double decay(double rate) {
    double k = StrictMath.tan(Math.PI * 1681.974450955533 / rate), l = StrictMath.tan(Math.PI * 38.13547087602444 / rate);
    return StrictMath.pow(Math.max(Math.abs(radius(k, 0.7071752369554196)), Math.abs(radius(l, 0.5003270373238773))), 0.4);
  }
  static double radius(double k, double q) { return (1.0 - k / q + k * k) / (1.0 + k / q + k * k); }

  static final class Key {
    final int at, sig, from, chan;
    Key(int at, int sig, int from, int chan) { this.at = at; this.sig = sig; this.from = from; this.chan = chan; }
    public int hashCode() { return ((at * 31 + sig) * 31 + from) * 31 + chan; }
    public boolean equals(Object o) {
      Key k = (Key) o; return k.at == at && k.sig == sig && k.from == from && k.chan == chan;
    }
  }

  /** What a filter did on one run of frames, given everything before. */
  static final class Node {
    Cache q; Node parent; int at; Sig sig; int from, chan, n; double[][] co; double decay;
    double[] w = new double[0], y = w, top = w;
    Map<Key, Node> kids = new HashMap<>();

    double wAt(int i) { return i >= 0 ? w[i] : parent == null ? 0.0 : parent.wAt(parent.parent == null && parent.sig == null ? -1 : at + i); }

    void ensure(int len) {
      if (len <= n) return;
      if (len > w.length) {
        int cap = Math.max(len, w.length + w.length / 2);
        q.stored += cap - w.length;
        w = Arrays.copyOf(w, cap); y = Arrays.copyOf(y, cap); top = Arrays.copyOf(top, cap);
      }
      double[] b = co[0], a = co[1];
      double w1 = wAt(n - 1), w2 = wAt(n - 2), w3 = wAt(n - 3), w4 = wAt(n - 4);
      double max = n > 0 ? top[n - 1] : parent.maxAt(at);
      for (int i = n; i < len; i++) {
        double x = sig.x(chan, from + i), w0 = x - a[1] * w1 - a[2] * w2 - a[3] * w3 - a[4] * w4;
        double v = b[0] * w0 + b[1] * w1 + b[2] * w2 + b[3] * w3 + b[4] * w4;
        w[i] = w0; y[i] = v;
        if (max < 1e140) max *= decay;
        if (Math.abs(v) > max) max = Math.abs(v);
        if (Math.abs(x) > max) max = Math.abs(x);
        top[i] = max;
        w4 = w3; w3 = w2; w2 = w1; w1 = w0;
      }
      n = len;
    }
    double maxAt(int len) { return len > 0 ? top[len - 1] : parent == null ? 0.0 : parent.maxAt(at); }
  }

  static final class Run { int sig, from, len; Value[] used; boolean seed; }
  static Run[] runs(Cache q, Value fed) {
    if (fed == q.lastFed) return q.lastRuns;
    Value[] e = ((TupleValue) fed.toTuple()).elems;
    Run[] r = new Run[e.length];
    for (int i = 0; i < r.length; i++) {
      Value[] t = ((TupleValue) e[i].toTuple()).elems;
      r[i] = new Run();
      r[i].sig = Ieee.i(t[0]); r[i].from = Ieee.i(t[1]); r[i].len = Ieee.i(t[2]);
      r[i].used = ((TupleValue) t[3].toTuple()).elems; r[i].seed = ((BoolValue) t[4]).val;
    }
    q.lastFed = fed; q.lastRuns = r;
    return r;
  }

  /** The filter's record of each run (null where the channel was unused). */
  static Node[] path(Cache q, int rate, Run[] rs, int c) {
    Node at = q.roots.get(rate);
    if (at == null) { at = new Node(); at.q = q; at.co = coef(rate); at.decay = decay(rate); q.roots.put(rate, at); }
    Node[] p = new Node[rs.length];
    int len = 0;
    for (int i = 0; i < rs.length; i++) {
      if (!((BoolValue) rs[i].used[c - 1]).val) continue;
      if (at.sig != null) at.ensure(len);
      Key k = new Key(len, rs[i].sig, rs[i].from, c);
      Node kid = at.kids.get(k);
      if (kid == null) {
        kid = new Node();
        kid.parent = at; kid.at = len; kid.q = q; kid.sig = q.sig(rs[i].sig); kid.from = rs[i].from;
        kid.chan = c; kid.co = at.co; kid.decay = at.decay;
        at.kids.put(k, kid);
      }
      p[i] = kid; at = kid; len = rs[i].len;
    }
    if (at.sig != null) at.ensure(len);
    return p;
  }

  public static Value FilteredEnergy(Value sigs, Value rate, Value fed, Value c, Value from, Value n) {
    Cache q = cache(sigs);
    synchronized (q) {
      q.trim();
      Run[] rs = runs(q, fed);
      Node[] p = path(q, Ieee.i(rate), rs, Ieee.i(c));
      int total = 0;
      for (Run r : rs) total += r.len;
      int left = Ieee.i(n), lo = Ieee.i(from), end = total;
      double sum = 0.0;
      for (int i = rs.length - 1; i >= 0 && left > 0 && end > lo; i--) {
        int start = end - rs[i].len;
        if (!rs[i].seed) {
          int take = Math.min(Math.min(rs[i].len, end - lo), left);
          if (p[i] != null) {
            double[] y = p[i].y;
            for (int k = rs[i].len - take; k < rs[i].len; k++) sum += y[k] * y[k];
          }
          left -= take;
        }
        end = start;
      }
      return Ieee.v(sum);
    }
  }

  public static Value ErrorScale(Value sigs, Value rate, Value fed, Value c, Value n) {
    Cache q = cache(sigs);
    synchronized (q) {
      q.trim();
      Run[] rs = runs(q, fed);
      Node[] p = path(q, Ieee.i(rate), rs, Ieee.i(c));
      int left = Ieee.i(n);
      double max = 0.0;
      int added = 0;
      for (Run r : rs) if (!r.seed) added += r.len;
      left = Math.min(left, added);
      for (int i = rs.length - 1; i >= 0; i--) {
        int len = rs[i].len, take = rs[i].seed && left > 0 ? len : Math.min(len, left);
        if (!rs[i].seed) left -= take;
        if (p[i] == null) continue;
        double[] t = p[i].top;
        for (int k = len - take; k < len; k++) if (t[k] > max) max = t[k];
        if (left == 0) {
          // what is held from the frame before
          double held = p[i].maxAt(len - take);
          return Ieee.v(held > max ? held : max);
        }
      }
      return Ieee.v(max);
    }
  }

  /** Largest finite-or-infinite input per run prefix, remembered per (signal, channel, from). */
  public static Value MaxInput(Value sigs, Value fed, Value c) {
    Cache q = cache(sigs);
    synchronized (q) {
      q.trim();
      int ch = Ieee.i(c);
      float max = 0f;
      for (Run r : runs(q, fed)) {
        Key k = new Key(0, r.sig, r.from, ch);
        float[] t = q.tops.get(k);
        if (t == null || t.length < r.len) {
          int had = t == null ? 0 : t.length;
          t = t == null ? new float[r.len] : Arrays.copyOf(t, Math.max(r.len, had + had / 2));
          q.stored += (t.length - had) / 2;
          Sig s = q.sig(r.sig);
          for (int i = had; i < t.length; i++) {
            float v = Math.abs((float) s.x(ch, r.from + i));
            t[i] = i > 0 && !(v > t[i - 1]) ? t[i - 1] : v > 0 ? v : 0f;
          }
          q.tops.put(k, t);
        }
        if (r.len > 0 && t[r.len - 1] > max) max = t[r.len - 1];
      }
      return Ieee.v(max);
    }
  }

  public static Value SamplePeakOf(Value sigs, Value id, Value c, Value from, Value len) {
    Sig s = cache(sigs).sig(Ieee.i(id));
    double max = 0.0;
    int f = Ieee.i(from), n = Ieee.i(len), ch = Ieee.i(c);
    for (int i = f; i < f + n; i++) {
      double v = Math.abs(s.x(ch, i));
      if (v > max) max = v;
    }
    return Ieee.v(max);
  }

  // ------------------------------------------------------------------ interpolator
  static float[] taps(int factor) {
    float[] t = new float[48];
    for (int j = 0; j < 48; j++) {
      double w = 0.5 * (1.0 - StrictMath.cos(2.0 * Math.PI * j / 48.0));
      double m = (j - 24) * Math.PI / factor;
      t[j] = (float) (j == 24 ? w : w * StrictMath.sin(m) / m);
    }
    return t;
  }
  static final float[][] TAPS = {null, null, taps(2), null, taps(4)};

  /** What the interpolator did on one run: inputs and, per input, the largest output. */
  static final class TNode {
    Cache q; TNode parent; int at; Sig sig; int from, chan, n, factor;
    float[] x = new float[0], out = x;
    Map<Key, TNode> kids = new HashMap<>();

    float xAt(int i) { return i >= 0 ? x[i] : parent == null ? 0f : parent.xAt(parent.sig == null ? -1 : at + i); }

    void ensure(int len) {
      if (len <= n) return;
      if (len > x.length) {
        int cap = Math.max(len, x.length + x.length / 2);
        q.stored += (cap - x.length) / 2;
        x = Arrays.copyOf(x, cap); out = Arrays.copyOf(out, cap);
      }
      int m = 48 / factor;
      float[] t = TAPS[factor], buf = new float[m + len - n];
      for (int i = n; i < len; i++) x[i] = (float) sig.x(chan, from + i);
      for (int i = n - m; i < len; i++) buf[i - n + m] = xAt(i);
      for (int i = n; i < len; i++) {
        float max = 0f;
        for (int ph = 0; ph < factor; ph++) {
          float acc = 0f;
          for (int j = 0; j < m; j++) acc += buf[i - n + m - j] * t[j * factor + ph];
          if (Math.abs(acc) > max) max = Math.abs(acc);
        }
        out[i] = max;
      }
      n = len;
    }
  }

  static TNode[] tpath(Cache q, int factor, Run[] rs, int c) {
    TNode at = q.tpRoots.get(factor);
    if (at == null) { at = new TNode(); at.q = q; at.factor = factor; q.tpRoots.put(factor, at); }
    TNode[] p = new TNode[rs.length];
    int len = 0;
    for (int i = 0; i < rs.length; i++) {
      if (at.sig != null) at.ensure(len);
      Key k = new Key(len, rs[i].sig, rs[i].from, c);
      TNode kid = at.kids.get(k);
      if (kid == null) {
        kid = new TNode();
        kid.parent = at; kid.at = len; kid.q = q; kid.sig = q.sig(rs[i].sig); kid.from = rs[i].from;
        kid.chan = c; kid.factor = factor;
        at.kids.put(k, kid);
      }
      p[i] = kid; at = kid; len = rs[i].len;
    }
    if (at.sig != null) at.ensure(len);
    return p;
  }
  static int factor(int rate) { return rate < 96000 ? 4 : rate < 192000 ? 2 : 1; }

  public static Value TruePeakOf(Value sigs, Value rate, Value fed, Value c, Value len) {
    Cache q = cache(sigs);
    synchronized (q) {
      q.trim();
      Run[] rs = runs(q, fed);
      TNode[] p = tpath(q, factor(Ieee.i(rate)), rs, Ieee.i(c));
      int left = Ieee.i(len);
      float max = 0f;
      for (int i = rs.length - 1; i >= 0 && left > 0; i--) {
        int take = Math.min(rs[i].len, left);
        float[] v = p[i].out;
        for (int k = rs[i].len - take; k < rs[i].len; k++) if (v[k] > max) max = v[k];
        left -= take;
      }
      return Ieee.v(max);
    }
  }
}
