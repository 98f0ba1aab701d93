import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

public final class Drv {
    static final class T { char k; int n; T el; String name; }
    static final class FD { String name; T t; Field f; Method get, set, getAt, setAt; }
    static final class SD { String name; Class<?> c; FD[] f; List<String[]> m = new ArrayList<>(); Method es, enc, enc2, dec, dec1, ds, ds1; Constructor<?> mk; }
    static final class ED { Class<?> c; Method forNumber, num; boolean wide;
        Object of(long n) throws Exception { return wide ? forNumber.invoke(null, n) : forNumber.invoke(null, (int) n); }
        long no(Object x) throws Exception { return wide ? (Long) num.invoke(x) : (Integer) num.invoke(x) & 0xFFFFFFFFL; } }
    static final Map<String, SD> S = new HashMap<>();
    static final Map<String, ED> E = new HashMap<>();
    static final byte[] NULL8 = {-2, -2, -2, -2, -2, -2, -2, 127};

    static String norm(String s) { return s.replace("_", "").toLowerCase(Locale.ROOT); }

    static T parse(String s) {
        T t = new T();
        if (s.charAt(0) == 'A') {
            int c = s.indexOf(':');
            t.k = 'A'; t.n = Integer.parseInt(s.substring(1, c)); t.el = parse(s.substring(c + 1));
        } else if (s.startsWith("E:") || s.startsWith("S:")) { t.k = s.charAt(0); t.name = s.substring(2); }
        else { t.k = s.charAt(0); if (s.length() > 1) t.n = Integer.parseInt(s.substring(1)); }
        return t;
    }

    static void meta(String path) throws Exception {
        for (String line : Files.readAllLines(Paths.get(path))) {
            String[] a = line.split(" ");
            if (a[0].equals("E")) {
                ED e = new ED();
                e.c = Class.forName(a[2]);
                e.num = e.c.getMethod("getNumber");
                e.wide = e.num.getReturnType() == long.class;
                e.forNumber = e.c.getMethod("forNumber", e.wide ? long.class : int.class);
                E.put(a[1], e);
            } else if (a[0].equals("S")) {
                SD s = new SD();
                s.name = a[1]; s.c = Class.forName(a[2]);
                S.put(a[1], s);
                int nf = Integer.parseInt(a[3]);
                s.f = new FD[nf];
                Map<String, Field> fs = new HashMap<>();
                for (Field f : s.c.getDeclaredFields()) { f.setAccessible(true); fs.put(norm(f.getName()), f); }
                int p = 4;
                for (int i = 0; i < nf; i++) {
                    FD f = new FD(); s.f[i] = f;
                    f.name = a[p++]; f.t = parse(a[p++]);
                    String n = norm(f.name);
                    f.f = fs.get(n);
                    if (f.f == null) throw new IllegalStateException("no field " + s.name + "." + f.name);
                    for (Method m : s.c.getDeclaredMethods()) {
                        String q = norm(m.getName());
                        if (q.equals("get" + n) && m.getParameterCount() == 0) f.get = m;
                        if (q.equals("set" + n) && m.getParameterCount() == 1) f.set = m;
                        if (f.t.k == 'A' && q.equals("get" + n + "at") && m.getParameterCount() == 1) f.getAt = m;
                        if (f.t.k == 'A' && q.equals("set" + n + "at") && m.getParameterCount() == 2) f.setAt = m;
                    }
                }
                int nm = Integer.parseInt(a[p++]);
                for (int i = 0; i < nm; i++) { s.m.add(new String[]{a[p], a[p + 1], a[p + 2]}); p += 3; }
                s.mk = s.c.getConstructor();
                s.es = s.c.getMethod("encodeSize");
                s.enc = s.c.getMethod("encode");
                s.enc2 = s.c.getMethod("encode", byte[].class, int.class);
                s.dec = s.c.getMethod("decode", byte[].class, int.class);
                s.dec1 = s.c.getMethod("decode", byte[].class);
                s.ds = s.c.getMethod("decodeSize", byte[].class, int.class);
                s.ds1 = s.c.getMethod("decodeSize", byte[].class);
            }
        }
    }

    static final class Rd { byte[] b; int p;
        long r8() { long v = 0; for (int i = 0; i < 8; i++) v |= (b[p + i] & 0xFFL) << (8 * i); p += 8; return v; }
        int r4() { int v = 0; for (int i = 0; i < 4; i++) v |= (b[p + i] & 0xFF) << (8 * i); p += 4; return v; }
        byte[] rn(int n) { byte[] x = Arrays.copyOfRange(b, p, p + n); p += n; return x; } }
    static final class Wr { ByteArrayOutputStream o = new ByteArrayOutputStream();
        void w8(long v) { for (int i = 0; i < 8; i++) o.write((int) (v >>> (8 * i))); }
        void w4(int v) { for (int i = 0; i < 4; i++) o.write(v >>> (8 * i)); }
        void wn(byte[] b) { o.write(b, 0, b.length); } }

    static Class<?> cls(T t) {
        switch (t.k) {
            case 'b': return boolean.class;
            case 'i': case 'u': return t.n == 8 ? byte.class : t.n == 16 ? short.class : t.n == 32 ? int.class : long.class;
            case 'f': return t.n == 32 ? float.class : double.class;
            case 's': return String.class;
            case 'y': return byte[].class;
            case 'E': return E.get(t.name).c;
            case 'S': return S.get(t.name).c;
        }
        return null;
    }

    static Object scalar(T t, long v) {
        switch (t.k) {
            case 'b': return v != 0;
            case 'f': return t.n == 32 ? (Object) Float.intBitsToFloat((int) v) : (Object) Double.longBitsToDouble(v);
            default:
                if (t.n == 8) return (byte) v;
                if (t.n == 16) return (short) v;
                if (t.n == 32) return (int) v;
                return v;
        }
    }

    static long unscalar(T t, Object x) {
        switch (t.k) {
            case 'b': return ((Boolean) x) ? 1 : 0;
            case 'f': return t.n == 32 ? Float.floatToRawIntBits((Float) x) & 0xFFFFFFFFL : Double.doubleToRawLongBits((Double) x);
            default:
                long v = ((Number) x).longValue();
                if (t.k == 'u' && t.n < 64) v &= (1L << t.n) - 1;
                return v;
        }
    }

    static Object load(T t, Rd r, char mode) throws Exception {
        switch (t.k) {
            case 'A':
                Object arr = Array.newInstance(cls(t.el), t.n);
                for (int i = 0; i < t.n; i++) Array.set(arr, i, load(t.el, r, mode));
                return arr;
            case 's': return new String(r.rn(r.r4()), StandardCharsets.UTF_8);
            case 'y': return r.rn(r.r4());
            case 'E': {
                byte[] q = r.rn(8); if (Arrays.equals(q, NULL8)) return null;
                Rd z = new Rd(); z.b = q; return E.get(t.name).of(z.r8());
            }
            case 'S': { Object o = S.get(t.name).mk.newInstance(); loadS(S.get(t.name), o, r, mode); return o; }
        }
        return scalar(t, r.r8());
    }

    static void loadS(SD s, Object o, Rd r, char mode) throws Exception {
        for (FD f : s.f) {
            Object v = load(f.t, r, mode);
            if (mode == 'a' && f.set != null) f.set.invoke(o, v); else f.f.set(o, v);
            if (mode == 'a' && f.setAt != null) { // the last items once more, one by one, in an array that does not hold them yet
                Object w = Array.newInstance(f.f.getType().getComponentType(), f.t.n); int h = f.t.n / 2;
                for (int i = 0; i < h; i++) Array.set(w, i, Array.get(v, i));
                f.set.invoke(o, w);
                for (int i = h; i < f.t.n; i++) f.setAt.invoke(o, i, Array.get(v, i));
            }
        }
    }

    static void dump(T t, Object v, Wr w, char mode) throws Exception {
        switch (t.k) {
            case 'A': for (int i = 0; i < t.n; i++) dump(t.el, Array.get(v, i), w, mode);
                if (Array.getLength(v) != t.n) w.w8(0xdeadbeefL);
                return;
            case 's': { byte[] b = v == null ? new byte[0] : ((String) v).getBytes(StandardCharsets.UTF_8); w.w4(b.length); w.wn(b); return; }
            case 'y': { byte[] b = v == null ? new byte[0] : (byte[]) v; w.w4(b.length); w.wn(b); return; }
            case 'E': if (v == null) w.wn(NULL8); else w.w8(E.get(t.name).no(v)); return;
            case 'S': dumpS(S.get(t.name), v, w, mode); return;
        }
        w.w8(unscalar(t, v));
    }

    static void dumpS(SD s, Object o, Wr w, char mode) throws Exception {
        for (FD f : s.f) {
            Object v = mode == 'a' && f.get != null ? f.get.invoke(o) : f.f.get(o);
            if (mode == 'a' && f.getAt != null && Array.getLength(v) == f.t.n) {
                Object x = Array.newInstance(v.getClass().getComponentType(), f.t.n);
                for (int i = 0; i < f.t.n; i++) Array.set(x, i, i % 2 == 0 ? Array.get(v, i) : f.getAt.invoke(o, i));
                v = x;
            }
            dump(f.t, v, w, mode);
        }
    }

    static byte[] unhex(String s) {
        if (s.equals("-")) return new byte[0];
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }
    static String hex(byte[] b) {
        if (b.length == 0) return "-";
        StringBuilder sb = new StringBuilder();
        for (byte x : b) { sb.append(Character.forDigit((x >> 4) & 15, 16)); sb.append(Character.forDigit(x & 15, 16)); }
        return sb.toString();
    }
    static String dumpHex(SD s, Object o, char mode) throws Exception { Wr w = new Wr(); dumpS(s, o, w, mode); return hex(w.o.toByteArray()); }
    static Object make(SD s, byte[] canon, char mode) throws Exception {
        Object o = s.mk.newInstance();
        if (canon.length > 0) { Rd r = new Rd(); r.b = canon; loadS(s, o, r, mode); }
        return o;
    }
    static int i(Object o) { return (Integer) o; }

    static String doLine(String line) {
        String[] t = line.trim().split(" ");
        String pre = t[1] + " ";
        try {
            SD s = S.get(t[2]);
            switch (t[0].charAt(0)) {
                case 'E': {
                    int fill = Integer.parseInt(t[3]), pad = Integer.parseInt(t[4]); char mode = t[5].charAt(0);
                    Object o = make(s, unhex(t[6]), mode);
                    int es = i(s.es.invoke(o));
                    byte[] b = new byte[es + 2 * pad]; Arrays.fill(b, (byte) fill);
                    int ret = i(s.enc2.invoke(o, b, pad));
                    byte[] a = (byte[]) s.enc.invoke(o);
                    return pre + es + " " + ret + " " + hex(b) + " " + a.length + " " + hex(a) + " " + dumpHex(s, o, mode);
                }
                case 'D': {
                    char mode = t[3].charAt(0); int start = Integer.parseInt(t[4]), tail = Integer.parseInt(t[5]);
                    byte[] w = unhex(t[7]); byte[] b = new byte[start + w.length + tail];
                    Arrays.fill(b, (byte) 0xEE); System.arraycopy(w, 0, b, start, w.length);
                    Object o = make(s, unhex(t[6]), mode);
                    int ret = start == 0 && mode == 'd' ? i(s.dec1.invoke(o, (Object) b)) : i(s.dec.invoke(o, b, start));
                    String extra = "";
                    if (ret >= 0) {
                        Object o2 = make(s, new byte[0], mode); s.dec.invoke(o2, b, start);
                        String a = dumpHex(s, o, mode);
                        if (!o.equals(o2) && a.equals(dumpHex(s, o2, mode)) ) extra = " NEQ";
                        else if (o.equals(o2) && o.hashCode() != o2.hashCode()) extra = " HASH";
                        return pre + ret + " " + a + extra;
                    }
                    return pre + ret + " -";
                }
                case 'Z': {
                    int start = Integer.parseInt(t[3]); byte[] w = unhex(t[4]);
                    Object o = s.mk.newInstance(); StringBuilder sb = new StringBuilder(pre);
                    for (int k = 0; k <= w.length; k++) {
                        byte[] b = new byte[start + k]; Arrays.fill(b, (byte) 0xEE); System.arraycopy(w, 0, b, start, k);
                        if (k > 0) sb.append(',');
                        sb.append(start == 0 ? i(s.ds1.invoke(o, (Object) b)) : i(s.ds.invoke(o, b, start)));
                    }
                    return sb.toString();
                }
                case 'T': {
                    byte[] w = unhex(t[3]); StringBuilder sb = new StringBuilder(pre);
                    for (int k = 0; k < w.length; k++) {
                        byte[] b = Arrays.copyOf(w, k); Object o = s.mk.newInstance();
                        try { sb.append(i(s.dec1.invoke(o, (Object) b)) < 0 ? '-' : '+'); }
                        catch (InvocationTargetException e) { sb.append('E'); }
                    }
                    return sb.append('.').toString();
                }
                case 'F': {
                    byte[] w = unhex(t[3]); Object o = s.mk.newInstance();
                    String ds; long d = -1;
                    try { d = i(s.ds1.invoke(o, (Object) w)); ds = "" + d; } catch (InvocationTargetException e) { ds = "EXC:" + e.getCause().getClass().getSimpleName(); }
                    try {
                        int ret = i(s.dec1.invoke(o, (Object) w));
                        return pre + ds + " " + ret + " " + (ret >= 0 ? dumpHex(s, o, 'd') : "-");
                    } catch (InvocationTargetException e) { return pre + ds + " EXC:" + e.getCause().getClass().getSimpleName() + " -"; }
                }
                case 'L': {
                    byte[] w = unhex(t[3]); Object o = s.mk.newInstance(); int ret = i(s.dec1.invoke(o, (Object) w));
                    String a = dumpHex(s, o, 'd');
                    for (int k = 0; k < w.length; k++) if ((w[k] & 0xFF) >= 2) w[k] ^= 1;
                    return pre + ret + " " + a + " " + dumpHex(s, o, 'd');
                }
                case 'G': {
                    Object o = make(s, unhex(t[3]), 'd'); StringBuilder sb = new StringBuilder(pre);
                    for (String[] m : s.m) if (m[0].equals("get")) {
                        Object v = null; boolean ok = false;
                        for (Method q : s.c.getDeclaredMethods()) if (norm(q.getName()).equals("get" + norm(m[1])) && q.getParameterCount() == 0) { v = q.invoke(o); ok = true; }
                        if (!ok) { sb.append(m[1]).append("=MISSING "); continue; }
                        Wr w = new Wr(); w.w8(unscalar(parse(m[2]), v)); sb.append(m[1]).append('=').append(hex(w.o.toByteArray())).append(' ');
                    }
                    return sb.append('.').toString();
                }
                case 'S': {
                    Object o = make(s, unhex(t[3]), 'd');
                    String ty = null; for (String[] m : s.m) if (m[0].equals("set") && m[1].equals(t[4])) ty = m[2];
                    boolean ok = false;
                    for (Method q : s.c.getDeclaredMethods()) if (norm(q.getName()).equals("set" + norm(t[4])) && q.getParameterCount() == 1) { q.invoke(o, scalar(parse(ty), Long.parseUnsignedLong(t[5], 16))); ok = true; }
                    return pre + (ok ? dumpHex(s, o, 'd') : "MISSING");
                }
            }
            if (t[0].equals("M")) return pre + alternates(s, unhex(t[3]), unhex(t[4]), unhex(t[5]));
            if (t[0].equals("N")) return pre + enumerators(E.get(t[3]));
            if (t[0].equals("Y")) { byte[] a = (byte[]) s.enc.invoke(s.mk.newInstance()); return pre + a.length + " " + hex(a); }
            if (t[0].equals("K")) {
                Object a = make(s, unhex(t[3]), 'd'), b = make(s, unhex(t[4]), 'd');
                return pre + (a.equals(b) ? 1 : 0) + (b.equals(a) ? 1 : 0) + (a.hashCode() == b.hashCode() ? 1 : 0) + (a.equals(a) ? 1 : 0) + (a.equals(null) ? 1 : 0) + (a.equals("x") ? 1 : 0);
            }
            if (t[0].equals("Q")) return pre + history(s, t);
            if (t[0].equals("X")) return pre + shared(s, unhex(t[3]), unhex(t[4]), Integer.parseInt(t[5]), Integer.parseInt(t[6]));
            return pre + "EXC badop";
        } catch (InvocationTargetException e) { return pre + "EXC " + e.getCause().getClass().getSimpleName(); }
        catch (Exception e) { return pre + "EXC driver:" + e; }
    }

    static String alternates(SD s, byte[] canon, byte[] wire, byte[] fill) throws Exception {
        boolean dyn = (Boolean) s.c.getMethod("dynamic").invoke(null); StringBuilder sb = new StringBuilder();
        sb.append(dyn ? "1 0 " : "0 " + ((Number) s.c.getMethod("size").invoke(null)).longValue() + " ");
        Object o = make(s, canon, 'd'); byte[] a = (byte[]) s.enc.invoke(o); byte[] b = new byte[a.length + 3]; System.arraycopy(fill, 0, b, 2, Math.min(fill.length, a.length));
        if (i(s.enc2.invoke(o, b, 2)) != a.length || !Arrays.equals(a, Arrays.copyOfRange(b, 2, a.length + 2)) || b[0] != 0 || b[1] != 0 || b[a.length + 2] != 0) sb.append("encode(byte[],int),");
        byte[] pad = new byte[wire.length + 3]; System.arraycopy(wire, 0, pad, 3, wire.length);
        for (int k = 0; k < 3 && k <= wire.length; k++) {
            byte[] w = Arrays.copyOf(wire, wire.length - k), q = Arrays.copyOf(pad, pad.length - k); Object x = s.mk.newInstance();
            int want = i(s.ds1.invoke(x, (Object) w));
            if (i(s.ds.invoke(x, w, 0)) != want || i(s.ds.invoke(x, q, 3)) != want) sb.append("decodeSize(byte[],int),");
            if (want > 0) {
                Object y = s.mk.newInstance(), z = s.mk.newInstance(), u = s.mk.newInstance(); int r = i(s.dec1.invoke(y, (Object) w));
                if (i(s.dec.invoke(z, w, 0)) != r || i(s.dec.invoke(u, q, 3)) != r || !dumpHex(s, y, 'd').equals(dumpHex(s, z, 'd')) || !dumpHex(s, y, 'd').equals(dumpHex(s, u, 'd'))) sb.append("decode(byte[],int),");
            }
        }
        return sb + "-";
    }

    static boolean named(ED e, long n, Object x) throws Exception { return x != null && e.no(x) == n; }

    static String enumerators(ED e) throws Exception {
        StringBuilder sb = new StringBuilder();
        for (Object x : e.c.getEnumConstants()) {
            long n = e.no(x); sb.append(((Enum<?>) x).name()).append('=').append(n);
            Class<?> ty = e.wide ? long.class : int.class; Object arg = e.wide ? (Object) n : (Object) (int) n;
            boolean ok = named(e, n, e.of(n)) && named(e, n, e.c.getMethod("valueOf", ty).invoke(null, arg));
            if (n < 256) ok = ok && named(e, n, e.c.getMethod("forNumber", byte.class).invoke(null, (byte) n)) && named(e, n, e.c.getMethod("valueOf", byte.class).invoke(null, (byte) n));
            if (n < 65536) ok = ok && named(e, n, e.c.getMethod("forNumber", short.class).invoke(null, (short) n)) && named(e, n, e.c.getMethod("valueOf", short.class).invoke(null, (short) n));
            if (e.wide && n >>> 32 == 0) ok = ok && named(e, n, e.c.getMethod("forNumber", int.class).invoke(null, (int) n)) && named(e, n, e.c.getMethod("valueOf", int.class).invoke(null, (int) n));
            if (!ok) sb.append("(no-lookup)");
            sb.append(' ');
        }
        return sb + ".";
    }

    static void leaves(T t, Object v, List<Object[]> out) throws Exception {
        if (t.k == 'A') { for (int i = 0; i < Array.getLength(v); i++) leaves(t.el, Array.get(v, i), out); }
        else if (t.k == 's' || t.k == 'y') out.add(new Object[]{t, v});
        else if (t.k == 'S') for (FD f : S.get(t.name).f) leaves(f.t, f.f.get(v), out);
    }

    static String history(SD s, String[] t) throws Exception {
        Object o = s.mk.newInstance(); StringBuilder sb = new StringBuilder(); List<List<Object[]>> snap = new ArrayList<>();
        for (int q = 3; q < t.length; q++) {
            char k = t[q].charAt(0); String a = t[q].substring(1);
            if (k == 'c' || k == 'a') { Rd r = new Rd(); r.b = unhex(a); loadS(s, o, r, k == 'a' ? 'a' : 'd'); sb.append("ok "); }
            else if (k == 'm' || k == 'i') {
                String[] p = a.split(":"); String[] ix = p[0].split(","); FD f = s.f[Integer.parseInt(ix[0])]; Rd r = new Rd(); r.b = unhex(p[1]);
                if (k == 'm') { Object v = load(f.t, r, 'd'); if (f.set != null) f.set.invoke(o, v); else f.f.set(o, v); }
                else {
                    Object v = load(f.t.el, r, 'd'); int n = Integer.parseInt(ix[1]); Method at = null;
                    for (Method m : s.c.getDeclaredMethods()) if (norm(m.getName()).equals("set" + norm(f.name) + "at") && m.getParameterCount() == 2) at = m;
                    if (at != null) at.invoke(o, n, v); else Array.set(f.f.get(o), n, v);
                }
                sb.append("ok ");
            } else if (k == 'd') {
                byte[] w = unhex(a); int ret = i(s.dec1.invoke(o, (Object) w)); sb.append(ret);
                if (ret >= 0) { sb.append(':').append(dumpHex(s, o, 'd')); List<Object[]> l = new ArrayList<>(); for (FD f : s.f) leaves(f.t, f.f.get(o), l); snap.add(l); }
                sb.append(' ');
            } else if (k == 'e' || k == 'f') {
                byte[] b = new byte[i(s.es.invoke(o))]; if (k == 'f') Arrays.fill(b, (byte) 0xff);
                s.enc2.invoke(o, b, 0); sb.append(hex(b)).append(' ');
            } else if (k == 'n' || k == 'N') sb.append(dumpHex(s, o, k == 'N' ? 'a' : 'd')).append(' ');
        }
        sb.append('|');
        for (List<Object[]> l : snap) { Wr w = new Wr(); for (Object[] x : l) dump((T) x[0], x[1], w, 'd'); sb.append(' ').append(hex(w.o.toByteArray())); }
        return sb.toString();
    }

    static String shared(SD s, byte[] canon, byte[] wire, int n, int rounds) throws Exception {
        // two objects and two frames; neighbouring threads work on different ones
        final Object[] o = new Object[2]; final byte[][] fr = new byte[2][], ref = new byte[2][], again = new byte[2][]; final String[] val = new String[2];
        o[0] = make(s, canon, 'd'); ref[0] = (byte[]) s.enc.invoke(o[0]); o[1] = s.mk.newInstance(); s.dec1.invoke(o[1], (Object) wire); ref[1] = (byte[]) s.enc.invoke(o[1]);
        fr[0] = wire; fr[1] = ref[0]; val[0] = dumpHex(s, o[1], 'd'); Object p = s.mk.newInstance(); s.dec1.invoke(p, (Object) fr[1]); val[1] = dumpHex(s, p, 'd');
        again[0] = ref[1]; again[1] = (byte[]) s.enc.invoke(p);
        AtomicLong bad = new AtomicLong(); CyclicBarrier bar = new CyclicBarrier(n); Thread[] th = new Thread[n];
        for (int q = 0; q < n; q++) { final int h = q & 1; th[q] = new Thread(() -> { try { bar.await(); for (int k = 0; k < rounds; k++) {
            Object y = s.mk.newInstance();
            if (i(s.es.invoke(o[h])) != ref[h].length || !Arrays.equals((byte[]) s.enc.invoke(o[h]), ref[h]) || i(s.ds1.invoke(o[h], (Object) fr[h])) != fr[h].length
                || i(s.dec1.invoke(y, (Object) fr[h])) != fr[h].length || !dumpHex(s, y, 'd').equals(val[h])) bad.incrementAndGet();
            for (int t = 0; t < 25; t++) { Object z = s.mk.newInstance(); s.dec1.invoke(z, (Object) fr[h]); if (!Arrays.equals((byte[]) s.enc.invoke(z), again[h])) bad.incrementAndGet(); }
        } } catch (Exception e) { bad.incrementAndGet(); } }); th[q].start(); }
        for (Thread x : th) x.join();
        return bad.get() + " " + hex(ref[0]) + " " + val[0];
    }

    public static void main(String[] a) throws Exception {
        meta(a[0]);
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        List<String> in = new ArrayList<>();
        for (String l : Files.readAllLines(Paths.get(a[1]))) if (!l.isEmpty() && l.charAt(0) != '#') in.add(l);
        String[] res = new String[in.size()];
        for (int k = 0; k < res.length; k++) { res[k] = doLine(in.get(k)); out.println(res[k]); }
        int nth = a.length > 2 ? Integer.parseInt(a[2]) : 0;
        if (nth > 0) {
            AtomicLong bad = new AtomicLong(), ops = new AtomicLong(); CyclicBarrier bar = new CyclicBarrier(nth); Thread[] th = new Thread[nth];
            for (int q = 0; q < nth; q++) { final int id = q; th[q] = new Thread(() -> {
                try { bar.await(); } catch (Exception e) { return; }
                for (int k = 0; k < res.length; k++) { int ix = (int) ((k + (long) id * 7919) % res.length); if (!doLine(in.get(ix)).equals(res[ix])) bad.incrementAndGet(); }
                // every thread repeats the same command at the same time, until the time box ends
                long end = System.nanoTime() + 2500000000L, mine = res.length;
                for (int round = 0; round < 4; round++) for (int k = 0; k < res.length && System.nanoTime() < end; k++)
                    for (int t = 0; t < 12; t++) { if (!doLine(in.get(k)).equals(res[k])) bad.incrementAndGet(); mine++; }
                ops.addAndGet(mine);
            }); th[q].start(); }
            for (Thread t : th) t.join();
            out.println("PAR " + nth + " " + ops.get() + " " + bad.get());
        }
        out.println("END"); out.flush();
    }
}
