/* TLC module override for TextOps.tla: the few string operations TLA+ lacks. */
import tlc2.value.impl.*;
import util.UniqueString;

public class TextOps {
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static Value o(String t) { return new StringValue(UniqueString.uniqueStringOf(t)); }
  public static Value TypeName(Value v) {
    String t = s(v);
    t = t.substring(t.indexOf('}') + 1);
    t = t.substring(t.indexOf(':') + 1);
    return o(t.replace("-", "").replace("_", ""));
  }
  public static Value LowerCase(Value v) { return o(s(v).toLowerCase(java.util.Locale.ROOT)); }
  public static Value StartsWith(Value v, Value p) { return s(v).startsWith(s(p)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Words(Value v) {
    String t = s(v).trim();
    if (t.isEmpty()) return new TupleValue(new Value[0]);
    String[] a = t.split("\\s+");
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = o(a[i]);
    return new TupleValue(r);
  }
  /** text after the first occurrence of sep, or all of it */
  public static Value AfterLast(Value v, Value sep) {
    String t = s(v); int i = t.lastIndexOf(s(sep));
    return o(i < 0 ? t : t.substring(i + s(sep).length()));
  }
  public static Value BeforeLast(Value v, Value sep) {
    String t = s(v); int i = t.lastIndexOf(s(sep));
    return o(i < 0 ? t : t.substring(0, i));
  }
  public static Value TextContains(Value v, Value p) { return s(v).contains(s(p)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  /** adds a line to a file, one worker at a time */
  public static synchronized Value AppendLine(Value v, Value path) {
    try (java.io.FileOutputStream f = new java.io.FileOutputStream(s(path), true)) {
      f.write((s(v) + "\n").getBytes(java.nio.charset.StandardCharsets.UTF_8));
    } catch (java.io.IOException e) { throw new RuntimeException(e); }
    return BoolValue.ValTrue;
  }
}
