// TLC module override for spec/ZZ.tla: the operations of ZZPure.tla on BigInteger.
// Checked against the pure definitions by spec/MCZZ.tla.
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class ZZ {
  private static final BigInteger B4 = BigInteger.valueOf(10000);
  private static final BigInteger B16 = BigInteger.valueOf(10000000000000000L);

  static BigInteger in(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    int k = e.length - 1;
    if (k <= 4) {
      long r = 0;
      for (int i = k; i >= 1; i--) r = r * 10000 + ((IntValue) e[i]).val;
      return BigInteger.valueOf(s < 0 ? -r : r);
    }
    StringBuilder sb = new StringBuilder(4 * k + 1);
    if (s < 0) sb.append('-');
    for (int i = k; i >= 1; i--) {
      int l = ((IntValue) e[i]).val;
      sb.append((char) ('0' + l / 1000)).append((char) ('0' + l / 100 % 10)).append((char) ('0' + l / 10 % 10)).append((char) ('0' + l % 10));
    }
    return new BigInteger(sb.toString());
  }

  private static final IntValue P1 = IntValue.gen(1), M1 = IntValue.gen(-1), N0 = IntValue.gen(0);
  static final TupleValue ZERO = new TupleValue(new Value[] { N0 });

  static Value out(BigInteger b) {
    int s = b.signum();
    if (s == 0) return ZERO;
    if (b.bitLength() <= 62) {
      long r = Math.abs(b.longValue());
      int k = 0;
      for (long t = r; t > 0; t /= 10000) k++;
      Value[] e = new Value[k + 1];
      e[0] = s < 0 ? M1 : P1;
      for (int i = 1; i <= k; i++) { e[i] = IntValue.gen((int) (r % 10000)); r /= 10000; }
      return new TupleValue(e);
    }
    String t = b.abs().toString();
    int k = (t.length() + 3) / 4;
    Value[] e = new Value[k + 1];
    e[0] = s < 0 ? M1 : P1;
    int end = t.length();
    for (int i = 1; i <= k; i++) {
      int st = Math.max(0, end - 4);
      e[i] = IntValue.gen(Integer.parseInt(t.substring(st, end)));
      end = st;
    }
    return new TupleValue(e);
  }

  private static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    if (qr[1].signum() != 0 && qr[1].signum() != b.signum()) return qr[0].subtract(BigInteger.ONE);
    return qr[0];
  }
  private static BigInteger floorMod(BigInteger a, BigInteger b) {
    BigInteger r = a.remainder(b);
    if (r.signum() != 0 && r.signum() != b.signum()) return r.add(b);
    return r;
  }

  public static Value ZInt(Value n) { return out(BigInteger.valueOf(((IntValue) n).val)); }
  public static Value ZToInt(Value a) { return IntValue.gen(in(a).intValueExact()); }
  public static Value ZNeg(Value a) { return out(in(a).negate()); }
  public static Value ZAdd(Value a, Value b) { return out(in(a).add(in(b))); }
  public static Value ZSub(Value a, Value b) { return out(in(a).subtract(in(b))); }
  public static Value ZMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
  public static Value ZCmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
  public static Value ZFloorDiv(Value a, Value b) { return out(floorDiv(in(a), in(b))); }
  public static Value ZMod(Value a, Value b) { return out(floorMod(in(a), in(b))); }
  public static Value ZPow(Value a, Value n) { return out(in(a).pow(((IntValue) n).val)); }
  public static Value ZPowMod(Value a, Value n, Value m) { return out(in(a).modPow(in(n), in(m))); }
  public static Value ZGcd(Value a, Value b) { return out(in(a).gcd(in(b))); }
  public static Value ZInvMod(Value a, Value m) { return out(in(a).modInverse(in(m))); }
  public static Value ZStr(Value a) { return new StringValue(in(a).toString()); }

  public static Value ZSum(Value f) {
    FcnRcdValue r = (FcnRcdValue) f.toFcnRcd();
    BigInteger s = BigInteger.ZERO;
    for (Value v : r.values) s = s.add(in(v));
    return out(s);
  }

  public static Value ZCollect(Value f) {
    Value[] vals;
    Value t = f.toTuple();
    if (t != null) vals = ((TupleValue) t).elems;
    else vals = ((FcnRcdValue) f.toFcnRcd()).values;
    TreeMap<Value, BigInteger> m = new TreeMap<>((x, y) -> x.compareTo(y));
    for (Value v : vals) {
      Value[] kv = ((TupleValue) v.toTuple()).elems;
      BigInteger c = in(kv[1]);
      m.merge(kv[0], c, (x, y) -> x.add(y));
    }
    List<Value> ks = new ArrayList<>();
    List<Value> vs = new ArrayList<>();
    for (Map.Entry<Value, BigInteger> e : m.entrySet())
      if (e.getValue().signum() != 0) { ks.add(e.getKey()); vs.add(out(e.getValue())); }
    if (ks.isEmpty()) return new TupleValue(new Value[0]);
    FcnRcdValue r = new FcnRcdValue(ks.toArray(new Value[0]), vs.toArray(new Value[0]), false);
    r.normalize();
    return r;
  }
}
