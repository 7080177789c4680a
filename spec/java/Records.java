import java.io.*;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import tlc2.value.ValueConstants;
import util.UniqueString;

public final class Records {
  static final UniqueString[] NAMES;
  static { String[] n = {"op", "form", "fmt", "chk", "tag", "in", "out"}; NAMES = new UniqueString[n.length];
    for (int i = 0; i < n.length; i++) NAMES[i] = UniqueString.uniqueStringOf(n[i]); }
  static final HashMap<String, StringValue> strs = new HashMap<>();
  static StringValue s(String x) { return strs.computeIfAbsent(x, StringValue::new); }
  static int pos;
  static Value parse(String t) { // one value
    char c = t.charAt(pos);
    if (c == '[') {
      pos++; ArrayList<Value> l = new ArrayList<>();
      if (t.charAt(pos) == ']') { pos++; return new TupleValue(new Value[0]); }
      for (;;) { l.add(parse(t)); char d = t.charAt(pos++); if (d == ']') break; if (d != ';') throw new RuntimeException("Records: bad value in " + t); }
      return new TupleValue(l.toArray(new Value[0]));
    }
    int st = pos; while (pos < t.length()) { char d = t.charAt(pos); if (d == ',' || d == ';' || d == ']') break; pos++; }
    String w = t.substring(st, pos);
    if (w.startsWith("#")) return IntValue.gen(Integer.parseInt(w.substring(1)));
    return s(w);
  }
  static Value list(String t) {
    if (t.isEmpty()) return new TupleValue(new Value[0]);
    pos = 0; ArrayList<Value> l = new ArrayList<>();
    for (;;) { l.add(parse(t)); if (pos >= t.length()) break; if (t.charAt(pos++) != ',') throw new RuntimeException("Records: bad list " + t); }
    return new TupleValue(l.toArray(new Value[0]));
  }
  static Value rec(String line) {
    String[] f = line.split("\\|", -1);
    if (f.length != 6) throw new RuntimeException("Records: bad line '" + line + "'");
    int d = f[0].indexOf('.'); String op = d < 0 ? f[0] : f[0].substring(0, d), form = d < 0 ? "" : f[0].substring(d + 1);
    return new RecordValue(NAMES.clone(), new Value[]{s(op), s(form), s(f[1]), s(f[2]), s(f[3]), list(f[4]), list(f[5])}, false);
  }
  static Value cached, cachedS;
  static synchronized public Value LoadRecords() {
    if (cached != null) return cached;
    ArrayList<Value> l = new ArrayList<>();
    for (String file : System.getProperty("verif.rec").split(":"))
      try (BufferedReader r = Files.newBufferedReader(Paths.get(file))) {
        for (String x; (x = r.readLine()) != null; ) if (!x.isEmpty() && x.charAt(0) != '%') l.add(rec(x));
      } catch (IOException e) { throw new RuntimeException(e); }
    Value v = new TupleValue(l.toArray(new Value[0])); v.deepNormalize(); return cached = v;
  }
  // sessions are separated by lines starting with '%'
  static synchronized public Value LoadSessions() {
    if (cachedS != null) return cachedS;
    ArrayList<Value> l = new ArrayList<>(); ArrayList<Value> cur = new ArrayList<>();
    for (String file : System.getProperty("verif.rec").split(":"))
      try (BufferedReader r = Files.newBufferedReader(Paths.get(file))) {
        for (String x; (x = r.readLine()) != null; ) {
          if (x.startsWith("%")) { if (!cur.isEmpty()) l.add(new TupleValue(cur.toArray(new Value[0]))); cur.clear(); }
          else if (!x.isEmpty()) cur.add(rec(x));
        }
        if (!cur.isEmpty()) l.add(new TupleValue(cur.toArray(new Value[0]))); cur.clear();
      } catch (IOException e) { throw new RuntimeException(e); }
    Value v = new TupleValue(l.toArray(new Value[0])); v.deepNormalize(); return cachedS = v;
  }
  static PrintWriter out, emit;
  static synchronized public Value Report(Value kind, Value i, Value what) {
    try { if (out == null) out = new PrintWriter(new FileWriter(System.getProperty("verif.out"), true), true);
      out.println(((StringValue) kind).val + "\t" + i + "\t" + what); return BoolValue.ValTrue;
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  static synchronized public Value EmitStep(Value v) {
    try { if (emit == null) emit = new PrintWriter(new FileWriter(System.getProperty("verif.emit"), true), true);
      emit.println(((StringValue) v).val); return BoolValue.ValTrue;
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  // the value of f[0], FALSE where it has none (operands of an operator outside its domain)
  static public Value Total(Value f) {
    try { return ((FunctionValue) f).apply(IntValue.ValZero, tlc2.tool.EvalControl.Clear); }
    catch (RuntimeException e) { if (System.getProperty("verif.debug") != null) e.printStackTrace(); return BoolValue.ValFalse; }
  }
  static public Value Param(Value n) { return new StringValue(System.getProperty("verif." + ((StringValue) n).val, "")); }
}
