package glm;

import java.io.BufferedReader;
import java.math.BigDecimal;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.List;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class RealOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[] {RealOverrides.class}; }

  static final class RO extends UserObj {
    final Real r;
    RO(Real r) { this.r = r; }
    public int compareTo(Value o) {
      if (o instanceof UserValue && ((UserValue) o).userObj instanceof RO)
        return Real.order(r, ((RO) ((UserValue) o).userObj).r);
      throw new RuntimeException("Attempted to compare the real " + r + " with the value " + o);
    }
    public boolean member(Value v) { throw new RuntimeException("a real is not a set"); }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int i, boolean b) { return sb.append(r.toString()); }
  }

  static Value w(Real r) { return new UserValue(new RO(r)); }
  static Real u(Value v) {
    if (v instanceof UserValue) return ((RO) ((UserValue) v).userObj).r;
    if (v instanceof IntValue) return Real.of(BigDecimal.valueOf(((IntValue) v).val));
    if (v instanceof StringValue) return Real.parse(((StringValue) v).val.toString());
    throw new RuntimeException("not a real: " + v);
  }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }

  static final String M = "RealArith";

  @TLAPlusOperator(identifier = "R", module = M, warn = false)
  public static Value R(Value a) { return w(u(a)); }
  @TLAPlusOperator(identifier = "RAdd", module = M, warn = false)
  public static Value RAdd(Value a, Value b) { return w(Real.add(u(a), u(b))); }
  @TLAPlusOperator(identifier = "RSub", module = M, warn = false)
  public static Value RSub(Value a, Value b) { return w(Real.sub(u(a), u(b))); }
  @TLAPlusOperator(identifier = "RMul", module = M, warn = false)
  public static Value RMul(Value a, Value b) { return w(Real.mul(u(a), u(b))); }
  @TLAPlusOperator(identifier = "RDiv", module = M, warn = false)
  public static Value RDiv(Value a, Value b) { return w(Real.div(u(a), u(b))); }
  @TLAPlusOperator(identifier = "RNeg", module = M, warn = false)
  public static Value RNeg(Value a) { return w(u(a).neg()); }
  @TLAPlusOperator(identifier = "RAbs", module = M, warn = false)
  public static Value RAbs(Value a) { return w(u(a).abs()); }
  @TLAPlusOperator(identifier = "RLe", module = M, warn = false)
  public static Value RLe(Value a, Value b) { return Real.le(u(a), u(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "RLt", module = M, warn = false)
  public static Value RLt(Value a, Value b) { return Real.lt(u(a), u(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "REq", module = M, warn = false)
  public static Value REq(Value a, Value b) {
    Real x = u(a), y = u(b);
    return !x.nan() && !y.nan() && Real.order(x, y) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  @TLAPlusOperator(identifier = "RIsNaN", module = M, warn = false)
  public static Value RIsNaN(Value a) { return u(a).nan() ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "RIsFinite", module = M, warn = false)
  public static Value RIsFinite(Value a) { return u(a).fin() ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "RMax", module = M, warn = false)
  public static Value RMax(Value a, Value b) {
    Real x = u(a), y = u(b);
    if (x.nan() || y.nan()) return w(Real.NAN);
    return Real.order(x, y) >= 0 ? w(x) : w(y);
  }
  @TLAPlusOperator(identifier = "RMin", module = M, warn = false)
  public static Value RMin(Value a, Value b) {
    Real x = u(a), y = u(b);
    if (x.nan() || y.nan()) return w(Real.NAN);
    return Real.order(x, y) <= 0 ? w(x) : w(y);
  }
  @TLAPlusOperator(identifier = "RExp", module = M, warn = false)
  public static Value RExp(Value a) { return w(u(a).exp()); }
  @TLAPlusOperator(identifier = "RLn", module = M, warn = false)
  public static Value RLn(Value a) { return w(u(a).ln()); }
  @TLAPlusOperator(identifier = "RSqrt", module = M, warn = false)
  public static Value RSqrt(Value a) { return w(u(a).sqrt()); }
  @TLAPlusOperator(identifier = "RPow", module = M, warn = false)
  public static Value RPow(Value a, Value b) { return w(Real.pow(u(a), u(b))); }
  @TLAPlusOperator(identifier = "RAtan", module = M, warn = false)
  public static Value RAtan(Value a) { return w(u(a).atan()); }
  @TLAPlusOperator(identifier = "RLGamma", module = M, warn = false)
  public static Value RLGamma(Value a) { return w(u(a).lgamma()); }
  @TLAPlusOperator(identifier = "RGammaP", module = M, warn = false)
  public static Value RGammaP(Value a, Value x) { return w(Real.gammaP(u(a), u(x))); }
  @TLAPlusOperator(identifier = "RBetaI", module = M, warn = false)
  public static Value RBetaI(Value a, Value b, Value x) { return w(Real.betaI(u(a), u(b), u(x))); }
  @TLAPlusOperator(identifier = "RNormCdf", module = M, warn = false)
  public static Value RNormCdf(Value x) { return w(Real.normCdf(u(x))); }
  @TLAPlusOperator(identifier = "RSum", module = M, warn = false)
  public static Value RSum(Value s) {
    Real acc = Real.ZERO;
    for (Value x : seq(s)) acc = Real.add(acc, u(x));
    return w(acc);
  }
  @TLAPlusOperator(identifier = "RMaxOf", module = M, warn = false)
  public static Value RMaxOf(Value s) {
    Value[] e = seq(s);
    Real acc = Real.MINF;
    for (Value x : e) {
      Real r = u(x);
      if (r.nan()) return w(Real.NAN);
      if (Real.order(r, acc) > 0) acc = r;
    }
    return w(acc);
  }
  @TLAPlusOperator(identifier = "RDot", module = M, warn = false)
  public static Value RDot(Value s, Value t) {
    Value[] a = seq(s), b = seq(t);
    if (a.length != b.length) throw new RuntimeException("RDot: lengths " + a.length + " and " + b.length);
    Real acc = Real.ZERO;
    for (int i = 0; i < a.length; i++) acc = Real.add(acc, Real.mul(u(a[i]), u(b[i])));
    return w(acc);
  }
  /** the solution X of A X = B (Gauss-Jordan with partial pivoting); << >> if A is singular */
  @TLAPlusOperator(identifier = "RSolve", module = M, warn = false)
  public static Value RSolve(Value av, Value bv) {
    Value[] ar = seq(av), br = seq(bv);
    int n = ar.length, m = n == 0 ? 0 : seq(br[0]).length;
    Real[][] a = new Real[n][n + m];
    for (int i = 0; i < n; i++) {
      Value[] r = seq(ar[i]), s = seq(br[i]);
      for (int j = 0; j < n; j++) a[i][j] = u(r[j]);
      for (int j = 0; j < m; j++) a[i][n + j] = u(s[j]);
    }
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (Real.order(a[i][k].abs(), a[p][k].abs()) > 0) p = i;
      if (a[p][k].nan() || Real.order(a[p][k].abs(), Real.ZERO) == 0) return new TupleValue(new Value[0]);
      Real[] t = a[k]; a[k] = a[p]; a[p] = t;
      Real d = a[k][k];
      for (int j = k; j < n + m; j++) a[k][j] = Real.div(a[k][j], d);
      for (int i = 0; i < n; i++) {
        if (i == k) continue;
        Real f = a[i][k];
        if (Real.order(f, Real.ZERO) == 0) continue;
        for (int j = k; j < n + m; j++) a[i][j] = Real.sub(a[i][j], Real.mul(f, a[k][j]));
      }
    }
    Value[] out = new Value[n];
    for (int i = 0; i < n; i++) {
      Value[] row = new Value[m];
      for (int j = 0; j < m; j++) row[j] = w(a[i][n + j]);
      out[i] = new TupleValue(row);
    }
    return new TupleValue(out);
  }
  /** force a (lazy) function with domain 1..n into a sequence */
  @TLAPlusOperator(identifier = "Force", module = M, warn = false)
  public static Value Force(Value s) {
    Value t = s.toTuple();
    return t == null ? s : t;
  }
  @TLAPlusOperator(identifier = "RStr", module = M, warn = false)
  public static Value RStr(Value a) { return new StringValue(u(a).toString()); }

  // ------------------------------------------------------------------ trace input
  /** ndjson: one JSON value per line; strings "#<number>" denote reals, null is the string "null". */
  @TLAPlusOperator(identifier = "TraceLoad", module = M, warn = false)
  public static Value TraceLoad(Value file) throws Exception {
    List<Value> out = new ArrayList<>();
    try (BufferedReader br = Files.newBufferedReader(Paths.get(((StringValue) file).val.toString()),
        StandardCharsets.UTF_8)) {
      String line;
      while ((line = br.readLine()) != null) {
        if (line.isEmpty()) continue;
        J j = new J(line);
        out.add(j.value());
      }
    }
    return new TupleValue(out.toArray(new Value[0]));
  }

  static final class J {
    final String s;
    int p = 0;
    J(String s) { this.s = s; }
    void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
    Value value() {
      ws();
      char c = s.charAt(p);
      if (c == '{') {
        p++;
        List<UniqueString> k = new ArrayList<>();
        List<Value> v = new ArrayList<>();
        ws();
        if (s.charAt(p) == '}') { p++; }
        else {
          while (true) {
            ws();
            k.add(UniqueString.uniqueStringOf(str()));
            ws();
            if (s.charAt(p++) != ':') throw new RuntimeException("json ':' at " + p);
            v.add(value());
            ws();
            char d = s.charAt(p++);
            if (d == '}') break;
            if (d != ',') throw new RuntimeException("json ',' at " + p);
          }
        }
        RecordValue r = new RecordValue(k.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
        r.deepNormalize();
        return r;
      }
      if (c == '[') {
        p++;
        List<Value> v = new ArrayList<>();
        ws();
        if (s.charAt(p) == ']') p++;
        else while (true) {
          v.add(value());
          ws();
          char d = s.charAt(p++);
          if (d == ']') break;
          if (d != ',') throw new RuntimeException("json ',' at " + p);
        }
        return new TupleValue(v.toArray(new Value[0]));
      }
      if (c == '"') {
        String t = str();
        if (t.length() > 1 && t.charAt(0) == '#') return w(Real.parse(t.substring(1)));
        return new StringValue(t);
      }
      int q = p;
      while (p < s.length() && ",]} \t".indexOf(s.charAt(p)) < 0) p++;
      String t = s.substring(q, p);
      switch (t) {
        case "true": return BoolValue.ValTrue;
        case "false": return BoolValue.ValFalse;
        case "null": return new StringValue("null");
        default:
          return IntValue.gen(Integer.parseInt(t));
      }
    }
    String str() {
      if (s.charAt(p++) != '"') throw new RuntimeException("json string at " + p);
      StringBuilder b = new StringBuilder();
      while (true) {
        char c = s.charAt(p++);
        if (c == '"') return b.toString();
        if (c == '\\') {
          char d = s.charAt(p++);
          switch (d) {
            case 'n': b.append('\n'); break;
            case 't': b.append('\t'); break;
            case 'r': b.append('\r'); break;
            case 'b': b.append('\b'); break;
            case 'f': b.append('\f'); break;
            case 'u': b.append((char) Integer.parseInt(s.substring(p, p + 4), 16)); p += 4; break;
            default: b.append(d);
          }
        } else b.append(c);
      }
    }
  }
}
