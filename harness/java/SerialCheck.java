import io.dingodb.sdk.common.KeyValue;
import io.dingodb.sdk.common.serial.*;
import io.dingodb.sdk.common.serial.schema.*;
import java.io.*;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Row codec: round trip, key order and projection, judged on random schemas and boundary values. */
public class SerialCheck {
    static Random r;
    static boolean thorough;
    static long evals = 0;
    static Set<Long> distinct = new HashSet<>();
    static Map<String, Long> counts = new TreeMap<>();
    static Map<String, String> fails = new LinkedHashMap<>();
    static List<String> samples = new ArrayList<>();
    static String cur = "";

    static void count(String k) { counts.merge(k, 1L, Long::sum); }
    static void fail(String key, String d) { if (fails.size() < 40 && !fails.containsKey(key)) { fails.put(key, d + " | case: " + cur); String o = "FAIL " + key + ": " + d + " | " + cur; System.err.println(o.length() > 500 ? o.substring(0, 500) : o); } }
    static String at(Throwable e) { StackTraceElement[] t = e.getStackTrace(); return t.length == 0 ? "" : " at " + t[0] + (t.length > 1 ? " / " + t[1] : ""); }
    static String esc(String s) {
        StringBuilder b = new StringBuilder();
        for (char c : s.toCharArray()) { if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c)); else b.append(c); }
        return b.length() > 3000 ? b.substring(0, 3000).replaceAll("\\\\u?[0-9a-f]{0,3}$", "") : b.toString();
    }
    static String hex(byte[] b) { if (b == null) return "null"; StringBuilder s = new StringBuilder(); for (byte x : b) s.append(String.format("%02x", x)); return s.toString(); }
    static String show(Object o) {
        if (o == null) return "null";
        if (o instanceof byte[]) return "0x" + hex((byte[]) o);
        if (o instanceof Object[]) { StringBuilder s = new StringBuilder("["); for (Object x : (Object[]) o) s.append(show(x)).append(","); return s + "]"; }
        if (o instanceof String) return "'" + (((String) o).length() > 60 ? ((String) o).substring(0, 60) + "..." : o) + "'";
        return o.getClass().getSimpleName() + ":" + o;
    }
    static int cmpU(byte[] a, byte[] b) {
        for (int i = 0; i < Math.min(a.length, b.length); i++) { int x = a[i] & 255, y = b[i] & 255; if (x != y) return x < y ? -1 : 1; }
        return Integer.compare(a.length, b.length);
    }

    static final String[] KEYABLE = {"BOOLEAN", "INTEGER", "LONG", "FLOAT", "DOUBLE", "BYTES", "STRING", "DECIMAL"};
    static final String[] ALL = {"BOOLEAN", "INTEGER", "LONG", "FLOAT", "DOUBLE", "BYTES", "STRING", "DECIMAL", "BIT",
        "BOOLEANLIST", "INTEGERLIST", "LONGLIST", "FLOATLIST", "DOUBLELIST", "STRINGLIST", "VECTOR", "ARRAY"};
    static int prec, scal;
    static DingoSchema mk(String t) {
        switch (t) {
            case "BOOLEAN": return new BooleanSchema();
            case "INTEGER": return new IntegerSchema();
            case "LONG": return new LongSchema();
            case "FLOAT": return new FloatSchema();
            case "DOUBLE": return new DoubleSchema();
            case "BYTES": return new BytesSchema();
            case "STRING": return new StringSchema();
            case "DECIMAL": return new DecimalSchema();
            case "BIT": return new BitSchema();
            case "BOOLEANLIST": return new BooleanListSchema();
            case "INTEGERLIST": return new IntegerListSchema();
            case "LONGLIST": return new LongListSchema();
            case "FLOATLIST": return new FloatListSchema();
            case "DOUBLELIST": return new DoubleListSchema();
            case "STRINGLIST": return new StringListSchema();
            case "VECTOR": return new VectorSchema();
            default: return new ArraySchema(mk(new String[] {"BOOLEAN", "INTEGER", "LONG", "FLOAT", "DOUBLE"}[r.nextInt(5)]));
        }
    }
    static Object elem(DingoSchema s) throws Exception {
        for (String n : new String[] {"BOOLEAN", "INTEGER", "LONG", "FLOAT", "DOUBLE", "STRING"}) {}
        java.lang.reflect.Field f = s.getClass().getDeclaredField("elementSchema");
        f.setAccessible(true);
        return f.get(s);
    }
    static int i32() { int[] b = {0, 1, -1, 127, 128, -128, 255, 256, 65535, 65536, Integer.MAX_VALUE, Integer.MIN_VALUE}; return r.nextInt(3) == 0 ? b[r.nextInt(b.length)] : r.nextInt(2) == 0 ? r.nextInt() : r.nextInt(1000) - 500; }
    static long i64() { long[] b = {0, 1, -1, 127, 128, 255, 1L << 31, -(1L << 31), 1L << 32, Long.MAX_VALUE, Long.MIN_VALUE, 0x80, 0x8000000000L}; return r.nextInt(3) == 0 ? b[r.nextInt(b.length)] : r.nextInt(2) == 0 ? r.nextLong() : i32(); }
    static float f32() { float[] b = {0f, 1f, -1f, Float.MAX_VALUE, -Float.MAX_VALUE, Float.MIN_VALUE, -Float.MIN_VALUE, Float.POSITIVE_INFINITY, Float.NEGATIVE_INFINITY, 0.5f, -0.5f, 1.5f, -0.0f, Float.NaN}; if (r.nextInt(3) == 0) return b[r.nextInt(b.length)]; float f = r.nextInt(2) == 0 ? Float.intBitsToFloat(r.nextInt()) : (float) r.nextGaussian(); return f; }
    static double f64() { double[] b = {0, 1, -1, Double.MAX_VALUE, -Double.MAX_VALUE, Double.MIN_VALUE, -Double.MIN_VALUE, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, 0.1, -0.1, 1e-300, -0.0, Double.NaN}; if (r.nextInt(3) == 0) return b[r.nextInt(b.length)]; double d = r.nextInt(2) == 0 ? Double.longBitsToDouble(r.nextLong()) : r.nextGaussian(); return d; }
    static byte[] bytes() {
        int[] ls = {0, 1, 7, 8, 9, 15, 16, 17, 24, 100, 101, 250, 1000};
        int n = r.nextInt(2) == 0 ? ls[r.nextInt(ls.length)] : r.nextInt(30);
        byte[] b = new byte[n];
        r.nextBytes(b);
        int k = r.nextInt(4);
        if (k == 0) Arrays.fill(b, (byte) (r.nextBoolean() ? 0 : 255));
        if (k == 1 && n > 0) b[n - 1] = 0;
        return b;
    }
    static String str() {
        String[] al = {"a", "b", "", "\u0000", "\u007f", "\u00e9", "\u4f60", "\ud83d\ude00", "zzzzzzzz", "01234567"};
        StringBuilder s = new StringBuilder();
        for (int n = r.nextInt(r.nextInt(8) == 0 ? 60 : 10); n > 0; n--) s.append(al[r.nextInt(al.length)]);
        return s.toString();
    }
    /** A decimal within precision p and scale s, in plain notation with exactly s fraction digits. */
    static String dec(int p, int s) {
        int digits = 1 + r.nextInt(p);
        StringBuilder d = new StringBuilder();
        int mode = r.nextInt(4);
        for (int i = 0; i < digits; i++) d.append((char) ('0' + (mode == 0 ? 9 : mode == 1 ? (i == 0 ? 1 : 0) : r.nextInt(10))));
        BigDecimal b = new BigDecimal(new BigInteger(d.toString()), s);
        if (r.nextBoolean()) b = b.negate();
        String t = (r.nextInt(3) == 0 ? b.stripTrailingZeros() : b).toPlainString(), sign = t.startsWith("-") ? "-" : "";
        String u = t.substring(sign.length());
        switch (r.nextInt(16)) {
            case 0: return sign + "000" + u;
            case 1: return (sign.isEmpty() ? "+" : sign) + u;
            case 2: return u.startsWith("0.") ? sign + u.substring(1) : t;
            case 3: return u.indexOf('.') < 0 ? t + "." : t;
            case 4: return b.signum() == 0 ? "-" + u : t;
            default: return t;
        }
    }
    static <T> List<T> list(java.util.function.Supplier<T> f) { List<T> l = new ArrayList<>(); for (int n = r.nextInt(4) == 0 ? 0 : r.nextInt(40); n > 0; n--) l.add(f.get()); return l; }
    static Object value(DingoSchema s) throws Exception {
        switch (s.getType()) {
            case BOOLEAN: return r.nextBoolean();
            case INTEGER: return i32();
            case LONG: return i64();
            case BIT: return i64();
            case FLOAT: return f32();
            case DOUBLE: return f64();
            case BYTES: return bytes();
            case STRING: case VECTOR: return str();
            case DECIMAL: return dec((int) s.getPrecision(), (int) s.getScale());
            case BOOLEANLIST: return list(() -> r.nextBoolean());
            case INTEGERLIST: return list(() -> i32());
            case LONGLIST: return list(() -> i64());
            case FLOATLIST: return list(() -> f32());
            case DOUBLELIST: return list(() -> f64());
            case STRINGLIST: return list(() -> str());
            case ARRAY: { DingoSchema e = (DingoSchema) elem(s); Object[] a = new Object[r.nextInt(12)]; for (int i = 0; i < a.length; i++) a[i] = value(e); return a; }
            default: throw new IllegalStateException();
        }
    }
    static boolean same(DingoSchema s, Object a, Object b) {
        if (a == null || b == null) return a == b;
        if (a instanceof byte[]) return b instanceof byte[] && Arrays.equals((byte[]) a, (byte[]) b);
        if (a instanceof Object[]) return b instanceof Object[] && Arrays.deepEquals((Object[]) a, (Object[]) b);
        if (s.getType() == Type.DECIMAL) { try { return new BigDecimal((String) a).compareTo(new BigDecimal((String) b)) == 0; } catch (NumberFormatException e) { return false; } }
        return a.equals(b);
    }
    static int cmpVal(DingoSchema s, Object a, Object b) {
        if (a == null || b == null) return a == b ? 0 : a == null ? -1 : 1;
        switch (s.getType()) {
            case BOOLEAN: return ((Boolean) a).compareTo((Boolean) b);
            case BYTES: return cmpU((byte[]) a, (byte[]) b);
            case STRING: return cmpU(((String) a).getBytes(StandardCharsets.UTF_8), ((String) b).getBytes(StandardCharsets.UTF_8));
            case DECIMAL: return new BigDecimal((String) a).compareTo(new BigDecimal((String) b));
            default: return ((Comparable) a).compareTo(b);
        }
    }
    static class Table {
        List<DingoSchema> schemas = new ArrayList<>();
        int codec, version;
        long id;
        RecordEncoder enc;
        RecordDecoder dec;
        String desc;
        List<DingoSchema> keys() { List<DingoSchema> k = new ArrayList<>(); for (DingoSchema s : schemas) if (s.isKey()) k.add(s); return k; }
    }
    static Table table(int codec, int cols, boolean keysOnly) {
        Table t = new Table();
        t.codec = codec;
        t.version = r.nextInt(5);
        long[] ids = {0, 1, 255, 256, 65536, 1L << 40, Long.MAX_VALUE - 1};
        t.id = r.nextBoolean() ? ids[r.nextInt(ids.length)] : (r.nextLong() >>> 1);
        List<Integer> idx = new ArrayList<>();
        for (int i = 0; i < cols; i++) idx.add(i);
        Collections.shuffle(idx, r);
        StringBuilder d = new StringBuilder("codec=" + codec + " id=" + t.id + " cols=");
        for (int i = 0; i < cols; i++) {
            boolean key = keysOnly || r.nextInt(3) == 0;
            String ty = key ? KEYABLE[r.nextInt(KEYABLE.length)] : ALL[r.nextInt(ALL.length)];
            // Text form of decimals orders as text in the first codec; only the second orders numerically.
            DingoSchema s = mk(ty);
            if (s.getType() == Type.DECIMAL) { int p = 1 + r.nextInt(30); s.setPrecision(p); s.setScale(r.nextInt(p + 1) % 31); }
            s.setIndex(idx.get(i));
            s.setIsKey(key);
            s.setAllowNull(r.nextInt(3) != 0);
            d.append(key ? "K:" : "V:").append(ty).append(s.isAllowNull() ? "?" : "").append("@").append(idx.get(i)).append(' ');
            t.schemas.add(s);
        }
        t.desc = d.toString();
        t.enc = new RecordEncoder(codec, t.version, t.schemas, t.id);
        t.dec = new RecordDecoder(t.version, t.schemas, t.id);
        return t;
    }
    static Object[] record(Table t) throws Exception {
        Object[] rec = new Object[t.schemas.size()];
        int nulls = r.nextInt(4);
        for (DingoSchema s : t.schemas) rec[s.getIndex()] = s.isAllowNull() && (nulls == 0 || r.nextInt(5) == 0) ? null : value(s);
        return rec;
    }
    static String why(Table t, DingoSchema s) { return s.getType() + (s.isKey() ? "-key" : "-value") + "-v" + t.codec; }
    static boolean compareRec(Table t, String what, Object[] want, Object[] got) {
        for (DingoSchema s : t.schemas)
            if (!same(s, want[s.getIndex()], got[s.getIndex()])) { fail(what + "-" + why(t, s), show(want[s.getIndex()]) + " came back as " + show(got[s.getIndex()])); return false; }
        return true;
    }

    /** The directory of a V2 value: every value column listed once, null as -1, others readable at their offset alone. */
    static void offsets(Table t, Object[] rec, byte[] v) throws Exception {
        java.nio.ByteBuffer b = java.nio.ByteBuffer.wrap(v);
        b.getInt();
        int nn = b.getShort(), nul = b.getShort(), n = nn + nul, wantNull = 0, want = 0;
        for (DingoSchema s : t.schemas) if (!s.isKey()) { want++; if (rec[s.getIndex()] == null) wantNull++; }
        if (n != want || nul != wantNull) { fail("directory-count", nn + "+" + nul + " columns listed, " + want + " with " + wantNull + " null written"); return; }
        short[] ids = new short[n];
        Set<Integer> seen = new HashSet<>();
        for (int i = 0; i < n; i++) { ids[i] = b.getShort(); seen.add((int) ids[i]); }
        if (seen.size() != n) fail("directory-ids", "column listed twice");
        int[] off = new int[n];
        for (int i = 0; i < n; i++) off[i] = b.getInt();
        for (DingoSchema s : t.schemas) {
            if (s.isKey()) continue;
            for (int i = 0; i < n; i++) {
                if (ids[i] != s.getIndex()) continue;
                if ((off[i] == -1) != (rec[s.getIndex()] == null)) { fail("directory-null", why(t, s)); continue; }
                if (off[i] == -1) continue;
                if (off[i] < 8 + 6 * n || off[i] > v.length) { fail("directory-offset-" + s.getType(), "offset " + off[i] + " outside the data"); continue; }
                Object got;
                try { got = s.decodeValueV2(new BufImpl(Arrays.copyOfRange(v, off[i], v.length))); } catch (RuntimeException e) { got = "exception " + e; }
                if (!same(s, rec[s.getIndex()], got)) fail("directory-offset-" + s.getType(), "at offset " + off[i] + " of " + hex(v) + " there is " + show(got) + ", not " + show(rec[s.getIndex()]));
                count("offset_reads");
            }
        }
    }
    static void roundtrip() throws Exception {
        for (int it = 0; it < 2000; it++) {
            List<DingoSchema> l = table(2, r.nextInt(12), false).schemas, c = new ArrayList<>(l);
            cur = "sort of " + l.size() + " columns";
            Utils.sortSchema(c);
            if (c.size() != l.size() || !new HashSet<>(c).equals(new HashSet<>(l))) fail("sort-loses-columns", "columns lost or repeated");
            else for (int i = 0; i < c.size(); i++) if (c.get(i).isKey() != l.get(i).isKey() || c.get(i).isKey() && c.get(i) != l.get(i)) fail("sort-moves-keys", "key column moved");
            evals++;
            count("sorts");
        }
        int n = thorough ? 60000 : 6000;
        for (int it = 0; it < n; it++) {
            // Now and then a wide table, whose directory and trailers outgrow every default size.
            Table t = table(1 + it % 2, it % 97 < 2 ? 100 + r.nextInt(250) : 1 + r.nextInt(it % 7 == 0 ? 24 : 9), it % 291 < 2);
            for (int k = 0; k < 6; k++) {
                Object[] rec = record(t), keep = rec.clone();
                cur = t.desc + " record=" + show(rec);
                evals++;
                try {
                    KeyValue kv = t.enc.encode(rec);
                    byte[] k0 = kv.getKey().clone(), v0 = kv.getValue().clone();
                    compareRec(t, "roundtrip", rec, t.dec.decode(kv));
                    if (!Arrays.equals(k0, t.enc.encodeKey(rec)) || !Arrays.equals(v0, t.enc.encodeValue(rec))) fail("nondeterministic", "encoding twice differs");
                    if (!Arrays.equals(k0, kv.getKey()) || !Arrays.equals(v0, kv.getValue())) fail("decode-mutates", "decoding changed the stored bytes");
                    compareRec(t, "roundtrip-again", rec, t.dec.decode(kv));
                    for (int i = 0; i < rec.length; i++) if (rec[i] != keep[i]) fail("encode-mutates", "record changed");
                    // A reader whose schema is newer than the row still reads it; an older one refuses.
                    compareRec(t, "newer-reader", rec, new RecordDecoder(t.version + 1 + r.nextInt(5), t.schemas, t.id).decode(kv));
                    if (t.version > 0) {
                        try { new RecordDecoder(t.version - 1, t.schemas, t.id).decode(kv); fail("schema-version", "a row of a newer schema was decoded by an older one"); } catch (RuntimeException e) { count("rejected_version"); }
                    }
                    try { new RecordDecoder(t.version, t.schemas, t.id ^ (1L << r.nextInt(63))).decode(kv); fail("foreign-id", "a row of another table was decoded"); } catch (RuntimeException e) { count("rejected_id"); }
                    if (t.codec == 2) offsets(t, rec, v0);
                    // Key moved to another table and back.
                    long other = r.nextLong() >>> 1;
                    byte[] moved = t.enc.resetKeyPrefix(k0.clone(), other);
                    compareRec(t, "reset-prefix", rec, new RecordDecoder(t.version, t.schemas, other).decode(new KeyValue(moved, v0)));
                    if (!Arrays.equals(t.enc.resetKeyPrefix(moved, t.id), k0)) fail("reset-prefix", "not inverse");
                    distinct.add((long) Arrays.hashCode(k0) * 31 + Arrays.hashCode(v0));
                    count("roundtrips");
                    boolean nul = false;
                    for (Object o : rec) nul |= o == null;
                    if (nul) count("with_nulls");
                } catch (Exception | OutOfMemoryError | AssertionError e) {
                    fail("exception-" + e.getClass().getSimpleName() + "-v" + t.codec, String.valueOf(e.getMessage()) + at(e));
                }
            }
            if (it < 3) samples.add(cur);
        }
    }
    static void order() throws Exception {
        int n = thorough ? 60000 : 8000;
        for (int it = 0; it < n; it++) {
            Table t = table(1 + it % 2, 1 + r.nextInt(4), true);
            boolean textual = false;
            for (DingoSchema s : t.schemas) textual |= s.getType() == Type.DECIMAL && t.codec == 1;
            List<DingoSchema> ks = t.keys();
            Object[][] recs = new Object[6][];
            for (int i = 0; i < 6; i++) {
                recs[i] = record(t);
                // Share a prefix of columns with an earlier record, so that later columns decide.
                if (i > 0) { int share = r.nextInt(ks.size() + 1); Object[] o = recs[r.nextInt(i)]; for (int c = 0; c < share; c++) recs[i][ks.get(c).getIndex()] = o[ks.get(c).getIndex()]; }
                if (i > 0 && r.nextInt(3) == 0) {
                    // Neighbouring variable-length values.
                    for (DingoSchema s : ks) {
                        Object v = recs[i - 1][s.getIndex()];
                        if (v instanceof byte[] && s.getType() == Type.BYTES) { byte[] b = (byte[]) v; recs[i][s.getIndex()] = Arrays.copyOf(b, Math.max(0, b.length + r.nextInt(3) - 1)); }
                        if (v instanceof String && s.getType() == Type.STRING) recs[i][s.getIndex()] = v + (r.nextBoolean() ? "\u0000" : "");
                    }
                }
            }
            byte[] lo = t.enc.encodeMinKeyPrefix(), hi = t.enc.encodeMaxKeyPrefix();
            for (int i = 0; i < 6; i++) {
                cur = t.desc + " record=" + show(recs[i]);
                byte[] ki;
                try { ki = t.enc.encodeKey(recs[i]); } catch (Exception | OutOfMemoryError | AssertionError e) { fail("exception-" + e.getClass().getSimpleName() + "-v" + t.codec, e + at(e)); continue; }
                if (cmpU(ki, lo) < 0 || cmpU(ki, hi) >= 0) fail("table-range", hex(ki) + " outside [" + hex(lo) + "," + hex(hi) + ")");
                distinct.add((long) Arrays.hashCode(ki));
                // Prefix of the first columns: every full key of the record starts with it, and it decodes back.
                int cc = r.nextInt(ks.size() + 1);
                try {
                    byte[] pre = t.enc.encodeKeyPrefix(recs[i], cc);
                    boolean v2bytes = false, v1dec = false;
                    for (int c = 0; c < cc; c++) {
                        v2bytes |= t.codec == 2 && ks.get(c).getType() == Type.BYTES && !ks.get(c).isAllowNull();
                        v1dec |= t.codec == 1 && ks.get(c).getType() == Type.DECIMAL;
                    }
                    if (pre.length > ki.length || !Arrays.equals(Arrays.copyOf(ki, pre.length), pre)) fail("prefix-" + (v1dec ? "decimal-v1" : v2bytes ? "notnull-bytes-v2" : "v" + t.codec), "columns=" + cc + " prefix=" + hex(pre) + " key=" + hex(ki));
                    Object[] back = t.dec.decodeKeyPrefix(pre);
                        for (int c = 0; c < ks.size(); c++) { Object w = c < cc ? recs[i][ks.get(c).getIndex()] : null; if (!same(ks.get(c), w, back[ks.get(c).getIndex()])) fail("prefix-decode-" + why(t, ks.get(c)), show(w) + " came back as " + show(back[ks.get(c).getIndex()])); }
                    count("prefixes");
                } catch (Exception | OutOfMemoryError | AssertionError e) { fail("prefix-exception-" + e.getClass().getSimpleName() + "-v" + t.codec, e + at(e)); }
                for (int j = 0; j < i && !textual; j++) {
                    byte[] kj = t.enc.encodeKey(recs[j]);
                    int want = 0;
                    DingoSchema at = null;
                    for (DingoSchema s : ks) { want = cmpVal(s, recs[i][s.getIndex()], recs[j][s.getIndex()]); if (want != 0) { at = s; break; } }
                    int got = cmpU(ki, kj);
                    cur = t.desc + " a=" + show(recs[i]) + " b=" + show(recs[j]);
                    if (Integer.signum(want) != Integer.signum(got)) fail("order-" + (at == null ? "equal" : why(t, at)), "rows compare " + want + ", keys compare " + got + ": " + hex(ki) + " / " + hex(kj));
                    evals++;
                    count(want == 0 ? "equal_pairs" : "ordered_pairs");
                }
            }
            if (it < 3) samples.add(cur);
        }
        for (int it = 0; it < 2000; it++) {
            long a = r.nextLong() >>> 1, b = r.nextBoolean() ? a + 1 : r.nextLong() >>> 1;
            if (a == Long.MAX_VALUE || b < 0 || b == Long.MAX_VALUE || a == b) continue;
            RecordEncoder ea = new RecordEncoder(2, 1, new ArrayList<>(), a), eb = new RecordEncoder(2, 1, new ArrayList<>(), b);
            cur = "tables " + a + " and " + b;
            boolean before = cmpU(ea.encodeMaxKeyPrefix(), eb.encodeMinKeyPrefix()) <= 0, after = cmpU(eb.encodeMaxKeyPrefix(), ea.encodeMinKeyPrefix()) <= 0;
            if (before == after || before != (a < b)) fail("table-ranges-overlap", "ranges of two tables overlap or are out of order");
            evals++;
            count("table_pairs");
        }
    }
    static void projection() throws Exception {
        int n = thorough ? 60000 : 6000;
        for (int it = 0; it < n; it++) {
            Table t = table(1 + it % 2, it % 97 < 2 ? 100 + r.nextInt(250) : 1 + r.nextInt(9), false);
            for (int k = 0; k < 4; k++) {
                Object[] rec = record(t);
                TreeSet<Integer> pick = new TreeSet<>();
                for (int i = 0; i < rec.length; i++) if (r.nextBoolean()) pick.add(i);
                int[] cols = pick.stream().mapToInt(x -> x).toArray();
                cur = t.desc + " columns=" + pick + " record=" + show(rec);
                evals++;
                try {
                    KeyValue kv = t.enc.encode(rec);
                    Object[] got = t.dec.decode(kv, cols);
                    // Result lists the chosen columns in schema order.
                    int i = 0;
                    for (DingoSchema s : t.schemas) {
                        if (!pick.contains(s.getIndex())) continue;
                        if (!same(s, rec[s.getIndex()], got[i])) { fail("project-v" + t.codec, s.getType() + (s.isKey() ? " key " : " value ") + show(rec[s.getIndex()]) + " came back as " + show(got[i])); break; }
                        i++;
                    }
                    Object[] gv = t.dec.decodeValue(kv, cols);
                    for (DingoSchema s : t.schemas) {
                        Object w = s.isKey() || !pick.contains(s.getIndex()) ? null : rec[s.getIndex()];
                        if (!same(s, w, gv[s.getIndex()])) { fail("project-value-v" + t.codec, s.getType() + " " + show(w) + " came back as " + show(gv[s.getIndex()])); break; }
                    }
                    distinct.add((long) cur.hashCode());
                    count("projections");
                } catch (Exception | OutOfMemoryError | AssertionError e) {
                    fail("exception-" + e.getClass().getSimpleName() + "-v" + t.codec, e + at(e));
                }
            }
            if (it < 3) samples.add(cur);
        }
    }
    public static void main(String[] a) throws Exception {
        r = new Random(Long.parseLong(a[1]) * 7919 + 17);
        thorough = a[2].equals("thorough");
        try {
            switch (a[0]) { case "roundtrip": roundtrip(); break; case "order": order(); break; default: projection(); }
        } catch (Throwable e) {
            StackTraceElement w = null;
            for (StackTraceElement x : e.getStackTrace()) if (w == null && x.getClassName().startsWith("io.dingodb")) w = x;
            if (w == null && !(e instanceof OutOfMemoryError)) throw e;
            fail("uncaught-" + e.getClass().getSimpleName(), e.getMessage() + " at " + w);
        }
        StringBuilder o = new StringBuilder("{\"status\":\"" + (fails.isEmpty() ? "ok" : "fail") + "\",\"evaluations\":" + evals + ",\"distinct\":" + distinct.size() + ",\"counts\":{");
        String sep = "";
        for (Map.Entry<String, Long> e : counts.entrySet()) { o.append(sep).append("\"").append(e.getKey()).append("\":").append(e.getValue()); sep = ","; }
        o.append("},\"samples\":[");
        sep = "";
        for (String s : samples) { o.append(sep).append("\"").append(esc(s.length() > 600 ? s.substring(0, 600) : s)).append("\""); sep = ","; }
        o.append("],\"fails\":[");
        sep = "";
        for (Map.Entry<String, String> e : fails.entrySet()) { o.append(sep).append("{\"key\":\"").append(esc(e.getKey())).append("\",\"detail\":\"").append(esc(e.getValue().length() > 900 ? e.getValue().substring(0, 900) : e.getValue())).append("\"}"); sep = ","; }
        o.append("]}");
        try (FileWriter w = new FileWriter(a[3])) { w.write(o.toString()); }
        System.exit(fails.isEmpty() ? 0 : 10);
    }
}
