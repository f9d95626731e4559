import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates LoadTraces of Load.tla: JSON lines to TLA+ values, lines in parallel. */
public class Load {
  static final ConcurrentHashMap<String, UniqueString> names = new ConcurrentHashMap<>();
  static final ConcurrentHashMap<String, StringValue> strings = new ConcurrentHashMap<>();
  static final IntValue[] small = new IntValue[4096];
  static { for (int i = 0; i < small.length; i++) small[i] = IntValue.gen(i); }

  final String s;
  int p = 0;
  Load(String s) { this.s = s; }

  RuntimeException bad(String what) { return new RuntimeException("JSON: " + what + " at " + p); }
  void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
  char peek() { ws(); if (p >= s.length()) throw bad("end"); return s.charAt(p); }
  void eat(char c) { if (peek() != c) throw bad("expected " + c); p++; }

  String str() {
    eat('"');
    int q = s.indexOf('"', p);
    String r = s.substring(p, q);
    if (r.indexOf('\\') >= 0) throw bad("escapes are not used");
    p = q + 1;
    return r;
  }

  Value value() {
    char c = peek();
    if (c == '{') {
      p++;
      ArrayList<UniqueString> k = new ArrayList<>();
      ArrayList<Value> v = new ArrayList<>();
      if (peek() != '}') {
        do {
          k.add(names.computeIfAbsent(str(), UniqueString::uniqueStringOf));
          eat(':');
          v.add(value());
        } while (peek() == ',' && p++ >= 0);
      }
      eat('}');
      Value r = new RecordValue(k.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
      r.normalize();
      return r;
    }
    if (c == '[') {
      p++;
      ArrayList<Value> v = new ArrayList<>();
      if (peek() != ']') {
        do v.add(value()); while (peek() == ',' && p++ >= 0);
      }
      eat(']');
      return new TupleValue(v.toArray(new Value[0]));
    }
    if (c == '"') return strings.computeIfAbsent(str(), StringValue::new);
    int q = p;
    if (s.charAt(p) == '-') p++;
    long n = 0;
    int d = p;
    while (p < s.length() && s.charAt(p) >= '0' && s.charAt(p) <= '9') n = n * 10 + (s.charAt(p++) - '0');
    if (p == d || p - d > 10) throw bad("number");
    if (p < s.length() && (s.charAt(p) == '.' || s.charAt(p) == 'e')) throw bad("integer");
    if (s.charAt(q) == '-') n = -n;
    if (n < Integer.MIN_VALUE || n > Integer.MAX_VALUE) throw bad("range");
    return n >= 0 && n < small.length ? small[(int) n] : IntValue.gen((int) n);
  }

  static final Map<String, Value> loaded = new HashMap<>();

  /** TLC asks once per worker; all get the same value, normalised here so that nobody changes it. */
  public static synchronized Value LoadTraces(Value path) throws Exception {
    String f = ((StringValue) path).val.toString();
    Value v = loaded.get(f);
    if (v == null) {
      List<String> lines = Files.readAllLines(Paths.get(f), StandardCharsets.UTF_8);
      Value[] r = lines.parallelStream().map(x -> {
        Value t = new Load(x).value();
        t.deepNormalize();
        return t;
      }).toArray(Value[]::new);
      v = new TupleValue(r);
      loaded.put(f, v);
    }
    return v;
  }
}
