// TLC module override for spec/Poly.tla: the product of two polynomials (PMul2 = PMulDef) on BigInteger.
// Checked against the definition PMulDef by spec/MCPoly.tla.
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

public class Poly {
  private static int[] key(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int[] k = new int[5];
    for (int i = 0; i < 5; i++) k[i] = ((IntValue) e[i]).val;
    return k;
  }

  private static void read(Value f, List<int[]> ks, List<BigInteger> cs) {
    Value t = f.toTuple();
    if (t != null && ((TupleValue) t).elems.length == 0) return;
    FcnRcdValue r = (FcnRcdValue) f.toFcnRcd();
    Value[] dom = r.getDomainAsValues();
    for (int i = 0; i < dom.length; i++) { ks.add(key(dom[i])); cs.add(ZZ.in(r.values[i])); }
  }

  public static Value PMul2(Value f, Value g) {
    List<int[]> fk = new ArrayList<>(), gk = new ArrayList<>();
    List<BigInteger> fc = new ArrayList<>(), gc = new ArrayList<>();
    read(f, fk, fc);
    read(g, gk, gc);
    TreeMap<int[], BigInteger> m = new TreeMap<>((x, y) -> Arrays.compare(x, y));
    for (int i = 0; i < fk.size(); i++)
      for (int j = 0; j < gk.size(); j++) {
        int[] a = fk.get(i), b = gk.get(j), k = new int[5];
        for (int e = 0; e < 3; e++) k[e] = Math.addExact(a[e], b[e]);
        int[] u = a[3] != -1 ? a : b;
        k[3] = u[3];
        k[4] = u[4];
        m.merge(k, fc.get(i).multiply(gc.get(j)), BigInteger::add);
      }
    List<Value> ks = new ArrayList<>(), vs = new ArrayList<>();
    for (Map.Entry<int[], BigInteger> e : m.entrySet())
      if (e.getValue().signum() != 0) {
        Value[] t = new Value[5];
        for (int i = 0; i < 5; i++) t[i] = IntValue.gen(e.getKey()[i]);
        ks.add(new TupleValue(t));
        vs.add(ZZ.out(e.getValue()));
      }
    if (ks.isEmpty()) return new TupleValue(new Value[0]);
    FcnRcdValue r = new FcnRcdValue(ks.toArray(new Value[0]), vs.toArray(new Value[0]), false);
    r.normalize();
    return r;
  }
}
