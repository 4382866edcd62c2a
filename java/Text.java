import java.nio.charset.StandardCharsets;
import java.util.Arrays;
import tlc2.value.impl.*;

/** TLC module override of Text.tla: the few string operations TLA+ lacks. */
public class Text {
  static String str(Value v) { return ((StringValue) v).val.toString(); }

  /** Byte-wise comparison of the UTF-8 encodings: -1, 0, or 1. */
  public static Value StrCmp(Value a, Value b) {
    int c = Arrays.compareUnsigned(str(a).getBytes(StandardCharsets.UTF_8), str(b).getBytes(StandardCharsets.UTF_8));
    return IntValue.gen(Integer.signum(c));
  }

  public static Value StrContains(Value a, Value b) {
    return str(a).contains(str(b)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value StrLen(Value a) {
    return IntValue.gen(str(a).getBytes(StandardCharsets.UTF_8).length);
  }

  /** The i-th character (1-based) of an ASCII string. */
  public static Value StrAt(Value a, Value i) {
    int k = ((IntValue) i).val - 1;
    return new StringValue(str(a).substring(k, k + 1));
  }

  public static Value StrCat(Value a, Value b) { return new StringValue(str(a) + str(b)); }

  public static Value StrLower(Value a) { return new StringValue(str(a).toLowerCase(java.util.Locale.ROOT)); }

  /** Does the regular expression p match a part of a? Only for syntax that is the same everywhere. */
  public static Value StrMatches(Value a, Value p) {
    return java.util.regex.Pattern.compile(str(p)).matcher(str(a)).find() ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
