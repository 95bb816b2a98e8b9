import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.impl.Value;

/** TLC overrides for spec/BigNum.tla: naturals are canonical lower-case hex strings. */
public class BigNum {
    static BigInteger n(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        return new BigInteger(((StringValue) v).val.toString(), 16);
    }
    static Value s(BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("BigNum: negative result");
        return new StringValue(b.toString(16));
    }
    static byte[] bytes(Value v) {
        String h = ((StringValue) v).val.toString();
        byte[] r = new byte[h.length() / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte) ((Character.digit(h.charAt(2 * i), 16) << 4) | Character.digit(h.charAt(2 * i + 1), 16));
        return r;
    }
    static final char[] HEX = "0123456789abcdef".toCharArray();
    static String hex(byte[] b) {
        char[] c = new char[b.length * 2];
        for (int i = 0; i < b.length; i++) {
            c[2 * i] = HEX[(b[i] >> 4) & 15];
            c[2 * i + 1] = HEX[b[i] & 15];
        }
        return new String(c);
    }
    public static Value BN(Value i) { return s(n(i)); }
    public static Value BInt(Value a) { return IntValue.gen(n(a).intValueExact()); }
    public static Value BAdd(Value a, Value b) { return s(n(a).add(n(b))); }
    public static Value BSub(Value a, Value b) { return s(n(a).subtract(n(b))); }
    public static Value BMul(Value a, Value b) { return s(n(a).multiply(n(b))); }
    public static Value BDiv(Value a, Value b) { return s(n(a).divide(n(b))); }
    public static Value BMod(Value a, Value b) { return s(n(a).mod(n(b))); }
    public static Value BAddMod(Value a, Value b, Value m) { return s(n(a).add(n(b)).mod(n(m))); }
    public static Value BSubMod(Value a, Value b, Value m) { return s(n(a).subtract(n(b)).mod(n(m))); }
    public static Value BMulMod(Value a, Value b, Value m) { return s(n(a).multiply(n(b)).mod(n(m))); }
    public static Value BPowMod(Value a, Value e, Value m) { return s(n(a).modPow(n(e), n(m))); }
    public static Value BPow2(Value k) { return s(BigInteger.ONE.shiftLeft(((IntValue) k).val)); }
    public static Value BLt(Value a, Value b) { return n(a).compareTo(n(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BBit(Value a, Value i) { return IntValue.gen(n(a).testBit(((IntValue) i).val) ? 1 : 0); }
    public static Value BBits(Value a, Value k) {
        BigInteger x = n(a);
        int m = ((IntValue) k).val;
        Value[] r = new Value[m];
        for (int i = 0; i < m; i++) r[i] = IntValue.gen(x.testBit(i) ? 1 : 0);
        return new TupleValue(r);
    }
    /** k bits of a byte string from bit position lo on; bits beyond the end are 0 */
    public static Value HexBits(Value h, Value lo, Value k) {
        String x = ((StringValue) h).val.toString();
        int o = ((IntValue) lo).val, m = ((IntValue) k).val;
        Value[] r = new Value[m];
        for (int i = 0; i < m; i++) {
            int at = 2 * ((o + i) / 8), bit = (o + i) % 8;
            int v = at + 1 < x.length() ? Character.digit(x.charAt(bit < 4 ? at + 1 : at), 16) >> (bit % 4) & 1 : 0;
            r[i] = IntValue.gen(v);
        }
        return new TupleValue(r);
    }
    public static Value BFromBytes(Value h) {
        byte[] b = bytes(h);
        byte[] r = new byte[b.length + 1];
        for (int i = 0; i < b.length; i++) r[b.length - i] = b[i];
        return s(new BigInteger(r));
    }
    /** little-endian, padded with zeros to at least len bytes, never cut */
    public static Value BToBytes(Value a, Value len) {
        BigInteger x = n(a);
        int need = (x.bitLength() + 7) / 8;
        int l = Math.max(((IntValue) len).val, need);
        byte[] be = x.toByteArray();
        byte[] r = new byte[l];
        for (int i = 0; i < need; i++) r[i] = be[be.length - 1 - i];
        return new StringValue(hex(r));
    }
    public static Value BIsPrime(Value a) { return n(a).isProbablePrime(200) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    /** the bytes of a hex string as a sequence of integers */
    public static Value HexToSeq(Value h) {
        byte[] b = bytes(h);
        Value[] r = new Value[b.length];
        for (int i = 0; i < b.length; i++) r[i] = IntValue.gen(b[i] & 255);
        return new TupleValue(r);
    }
    public static Value SeqToHex(Value sq) {
        TupleValue t = (TupleValue) sq.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        return new StringValue(hex(b));
    }
}
