using System;
using System.Collections.Generic;
using System.IO;
using System.Linq;
using System.Reflection;
using System.Text;
using System.Threading;

public static class Drv {
    class T { public char k; public int n; public T el; public string name; }
    class FD { public string name; public T t; public FieldInfo f; public PropertyInfo p; }
    class SD { public string name; public Type c; public FD[] f; public List<string[]> m = new(); public MethodInfo es, enc, enc2, encSpanLike, dec, dec1, ds, ds1; }
    static Dictionary<string, SD> S = new();
    static Dictionary<string, Type> E = new();
    static ulong enumNumber(object v) { var u = Enum.GetUnderlyingType(v.GetType()); return u == typeof(int) ? (uint)Convert.ToInt64(v) : Convert.ToUInt64(v); }
    static readonly byte[] NULL8 = { 254, 254, 254, 254, 254, 254, 254, 127 };
    static string norm(string s) => s.Replace("_", "").ToLowerInvariant();
    const BindingFlags BF = BindingFlags.Instance | BindingFlags.Public | BindingFlags.NonPublic | BindingFlags.DeclaredOnly;

    static T parse(string s) {
        var t = new T();
        if (s[0] == 'A') { int c = s.IndexOf(':'); t.k = 'A'; t.n = int.Parse(s.Substring(1, c - 1)); t.el = parse(s.Substring(c + 1)); }
        else if (s.StartsWith("E:") || s.StartsWith("S:")) { t.k = s[0]; t.name = s.Substring(2); }
        else { t.k = s[0]; if (s.Length > 1) t.n = int.Parse(s.Substring(1)); }
        return t;
    }
    static Type find(string n) => typeof(Drv).Assembly.GetType(n) ?? throw new Exception("no type " + n);
    static void meta(string path) {
        foreach (var line in File.ReadAllLines(path)) {
            var a = line.Split(' ');
            if (a[0] == "E") E[a[1]] = find(a[2]);
            else if (a[0] == "S") {
                var s = new SD { name = a[1], c = find(a[2]) };
                S[a[1]] = s;
                int nf = int.Parse(a[3]); s.f = new FD[nf]; int p = 4;
                for (int i = 0; i < nf; i++) {
                    var f = new FD { name = a[p], t = parse(a[p + 1]) }; p += 2; s.f[i] = f;
                    string n = norm(f.name);
                    foreach (var x in s.c.GetFields(BF)) if (norm(x.Name) == n) f.f = x;
                    foreach (var x in s.c.GetProperties(BF)) if (norm(x.Name) == n) f.p = x;
                    if (f.f == null) throw new Exception("no field " + s.name + "." + f.name);
                }
                int nm = int.Parse(a[p++]);
                for (int i = 0; i < nm; i++) { s.m.Add(new[] { a[p], a[p + 1], a[p + 2] }); p += 3; }
                s.es = s.c.GetMethod("EncodeSize", Type.EmptyTypes);
                s.enc = s.c.GetMethod("Encode", Type.EmptyTypes);
                s.enc2 = s.c.GetMethod("Encode", new[] { typeof(byte[]), typeof(int) });
                s.encSpanLike = s.c.GetMethod("Encode", new[] { typeof(Memory<byte>) });
                s.dec = s.c.GetMethod("Decode", new[] { typeof(byte[]), typeof(int) });
                s.dec1 = s.c.GetMethod("Decode", new[] { typeof(byte[]) });
                s.ds = s.c.GetMethod("DecodeSize", new[] { typeof(byte[]), typeof(int) });
                s.ds1 = s.c.GetMethod("DecodeSize", new[] { typeof(byte[]) });
            }
        }
    }
    class Rd { public byte[] b; public int p;
        public ulong r8() { p += 8; return BitConverter.ToUInt64(b, p - 8); }
        public byte[] rn() { int n = (int)BitConverter.ToUInt32(b, p); p += 4 + n; return b.AsSpan(p - n, n).ToArray(); } }
    static object scalar(T t, ulong v) {
        switch (t.k) {
            case 'b': return v != 0;
            case 'f': return t.n == 32 ? (object)BitConverter.UInt32BitsToSingle((uint)v) : BitConverter.UInt64BitsToDouble(v);
            case 'i': switch (t.n) { case 8: return (sbyte)v; case 16: return (short)v; case 32: return (int)v; default: return (long)v; }
            default: switch (t.n) { case 8: return (byte)v; case 16: return (ushort)v; case 32: return (uint)v; default: return v; }
        }
    }
    static ulong unscalar(T t, object x) {
        switch (t.k) {
            case 'b': return (bool)x ? 1UL : 0;
            case 'f': return t.n == 32 ? BitConverter.SingleToUInt32Bits((float)x) : BitConverter.DoubleToUInt64Bits((double)x);
            case 'i': return (ulong)Convert.ToInt64(x);
            default: return Convert.ToUInt64(x);
        }
    }
    static Type cls(T t, Type arrField) => arrField.GetElementType();
    static object load(T t, Rd r, char mode, Type ft) {
        switch (t.k) {
            case 'A': { var arr = Array.CreateInstance(ft.GetElementType(), t.n); for (int i = 0; i < t.n; i++) arr.SetValue(load(t.el, r, mode, ft.GetElementType()), i); return arr; }
            case 's': return Encoding.UTF8.GetString(r.rn());
            case 'y': { var b = r.rn(); return ft == typeof(byte[]) ? b : (object)new Memory<byte>(b); }
            case 'E': { if (r.b.AsSpan(r.p, 8).SequenceEqual(NULL8)) { r.p += 8; return Enum.ToObject(E[t.name], 0); } return Enum.ToObject(E[t.name], r.r8()); }
            case 'S': { var o = Activator.CreateInstance(S[t.name].c); loadS(S[t.name], o, r, mode); return o; }
        }
        return scalar(t, r.r8());
    }
    static void loadS(SD s, object o, Rd r, char mode) {
        foreach (var f in s.f) { var v = load(f.t, r, mode, f.f.FieldType); if (mode == 'a' && f.p != null && f.p.CanWrite) f.p.SetValue(o, v); else f.f.SetValue(o, v); }
    }
    static void w8(MemoryStream w, ulong v) => w.Write(BitConverter.GetBytes(v));
    static void dump(T t, object v, MemoryStream w, char mode) {
        switch (t.k) {
            case 'A': { var a = (Array)v; if (a.Length != t.n) w8(w, 0xdeadbeef); for (int i = 0; i < t.n; i++) dump(t.el, a.GetValue(i), w, mode); return; }
            case 's': { var b = v == null ? new byte[0] : Encoding.UTF8.GetBytes((string)v); w.Write(BitConverter.GetBytes((uint)b.Length)); w.Write(b); return; }
            case 'y': { var b = v == null ? new byte[0] : v is byte[] x ? x : ((Memory<byte>)v).ToArray(); w.Write(BitConverter.GetBytes((uint)b.Length)); w.Write(b); return; }
            case 'E': w8(w, enumNumber(v)); return;
            case 'S': dumpS(S[t.name], v, w, mode); return;
        }
        w8(w, unscalar(t, v));
    }
    static void dumpS(SD s, object o, MemoryStream w, char mode) {
        foreach (var f in s.f) dump(f.t, mode == 'a' && f.p != null && f.p.CanRead ? f.p.GetValue(o) : f.f.GetValue(o), w, mode);
    }
    static byte[] U(string s) => s == "-" ? new byte[0] : Convert.FromHexString(s);
    static string H(byte[] b) => b.Length == 0 ? "-" : Convert.ToHexString(b).ToLowerInvariant();
    static string dh(SD s, object o, char mode) { var w = new MemoryStream(); dumpS(s, o, w, mode); return H(w.ToArray()); }
    static object mk(SD s, byte[] c, char mode) { var o = Activator.CreateInstance(s.c); if (c.Length > 0) loadS(s, o, new Rd { b = c }, mode); return o; }
    static int call(MethodInfo m, object o, params object[] a) => (int)m.Invoke(o, a);
    static string ex(Exception e) => (e is TargetInvocationException ? e.InnerException : e).GetType().Name;

    static string doLine(string line) {
        var t = line.Trim().Split(' ');
        string pre = t[1] + " ";
        try {
            var s = S[t[2]];
            switch (t[0]) {
                case "E": {
                    int fill = int.Parse(t[3]), pad = int.Parse(t[4]); char mode = t[5][0];
                    var o = mk(s, U(t[6]), mode); int es = call(s.es, o);
                    var b = new byte[es + 2 * pad]; Array.Fill(b, (byte)fill);
                    int ret = mode == 'a' && s.encSpanLike != null ? call(s.encSpanLike, o, new Memory<byte>(b, pad, es)) : call(s.enc2, o, b, pad);
                    var a = (byte[])s.enc.Invoke(o, null);
                    return pre + es + " " + ret + " " + H(b) + " " + a.Length + " " + H(a) + " " + dh(s, o, mode);
                }
                case "D": {
                    char mode = t[3][0]; int start = int.Parse(t[4]), tail = int.Parse(t[5]); var w = U(t[7]);
                    var b = new byte[start + w.Length + tail]; Array.Fill(b, (byte)0xEE); w.CopyTo(b, start);
                    var o = mk(s, U(t[6]), mode);
                    int ret = start == 0 && mode == 'd' ? call(s.dec1, o, b) : call(s.dec, o, b, start);
                    if (ret < 0) return pre + ret + " -";
                    return pre + ret + " " + dh(s, o, mode);
                }
                case "Z": {
                    int start = int.Parse(t[3]); var w = U(t[4]); var o = mk(s, new byte[0], 'd'); var sb = new StringBuilder(pre);
                    for (int k = 0; k <= w.Length; k++) {
                        var b = new byte[start + k]; Array.Fill(b, (byte)0xEE); Array.Copy(w, 0, b, start, k);
                        if (k > 0) sb.Append(',');
                        sb.Append(start == 0 ? call(s.ds1, o, b) : call(s.ds, o, b, start));
                    }
                    return sb.ToString();
                }
                case "T": {
                    var w = U(t[3]); var sb = new StringBuilder(pre);
                    for (int k = 0; k < w.Length; k++) {
                        var b = w.AsSpan(0, k).ToArray();
                        try { sb.Append(call(s.dec1, mk(s, new byte[0], 'd'), b) < 0 ? '-' : '+'); } catch (TargetInvocationException) { sb.Append('E'); }
                    }
                    return sb.Append('.').ToString();
                }
                case "F": {
                    var w = U(t[3]); var o = mk(s, new byte[0], 'd'); string ds;
                    try { ds = "" + call(s.ds1, o, w); } catch (TargetInvocationException e) { ds = "EXC:" + ex(e); }
                    try { int ret = call(s.dec1, o, w); return pre + ds + " " + ret + " " + (ret >= 0 ? dh(s, o, 'd') : "-"); }
                    catch (TargetInvocationException e) { return pre + ds + " EXC:" + ex(e) + " -"; }
                }
                case "L": {
                    var w = U(t[3]); var o = mk(s, new byte[0], 'd'); int ret = call(s.dec1, o, w);
                    string a = dh(s, o, 'd'); for (int k = 0; k < w.Length; k++) if (w[k] >= 2) w[k] ^= 1;
                    return pre + ret + " " + a + " " + dh(s, o, 'd');
                }
                case "G": {
                    var o = mk(s, U(t[3]), 'd'); var sb = new StringBuilder(pre);
                    foreach (var m in s.m) if (m[0] == "get") {
                        var q = s.c.GetProperties(BF).FirstOrDefault(x => norm(x.Name) == norm(m[1]) && x.CanRead);
                        if (q == null) { sb.Append(m[1] + "=MISSING "); continue; }
                        sb.Append(m[1] + "=" + H(BitConverter.GetBytes(unscalar(parse(m[2]), q.GetValue(o)))) + " ");
                    }
                    return sb.Append('.').ToString();
                }
                case "S": {
                    var o = mk(s, U(t[3]), 'd');
                    foreach (var m in s.m) if (m[0] == "set" && m[1] == t[4]) {
                        var q = s.c.GetProperties(BF).FirstOrDefault(x => norm(x.Name) == norm(m[1]) && x.CanWrite);
                        if (q == null) return pre + "MISSING";
                        q.SetValue(o, scalar(parse(m[2]), Convert.ToUInt64(t[5], 16)));
                    }
                    return pre + dh(s, o, 'd');
                }
            }
            if (t[0] == "M") return pre + alternates(s, U(t[3]), U(t[4]), U(t[5]));
            if (t[0] == "N") return pre + string.Concat(Enum.GetNames(E[t[3]]).Select(x => x + "=" + enumNumber(Enum.Parse(E[t[3]], x)) + " ")) + ".";
            if (t[0] == "Y") { var a = (byte[])s.enc.Invoke(Activator.CreateInstance(s.c), null); return pre + a.Length + " " + H(a); }
            if (t[0] == "K") {
                object a = mk(s, U(t[3]), 'd'), b = mk(s, U(t[4]), 'd');
                return pre + (a.Equals(b) ? 1 : 0) + (b.Equals(a) ? 1 : 0) + (a.GetHashCode() == b.GetHashCode() ? 1 : 0) + (a.Equals(a) ? 1 : 0) + (a.Equals(null) ? 1 : 0) + (a.Equals("x") ? 1 : 0);
            }
            if (t[0] == "J") { // the constant members
                var sb = new StringBuilder(); var o = Activator.CreateInstance(s.c);
                foreach (var x in t.Skip(3)) {
                    var q = x.Split('='); var m = s.c.GetFields(BF | BindingFlags.Static).FirstOrDefault(y => norm(y.Name) == norm(q[0]));
                    sb.Append(q[0] + "=" + (m == null ? "MISSING" : H(BitConverter.GetBytes(unscalar(parse(q[1]), m.GetValue(m.IsStatic ? null : o))))) + " ");
                }
                return pre + sb.Append('.').ToString();
            }
            if (t[0] == "Q") return pre + history(s, t);
            if (t[0] == "X") return pre + shared(s, U(t[3]), U(t[4]), int.Parse(t[5]), int.Parse(t[6]));
            return pre + "EXC badop";
        } catch (Exception e) { return pre + "EXC " + ex(e) + ":" + (e.InnerException ?? e).Message.Replace(' ', '_').Replace('\n', '_'); }
    }

    delegate int SpanCodec(Span<byte> b);
    static string alternates(SD s, byte[] canon, byte[] wire, byte[] fill) {
        var sb = new StringBuilder(); const BindingFlags PS = BindingFlags.Public | BindingFlags.Static;
        bool dyn = (bool)s.c.GetProperty("Dynamic", PS).GetValue(null);
        sb.Append(dyn ? "1 0 " : "0 " + Convert.ToInt64(s.c.GetProperty("Size", PS).GetValue(null)) + " ");
        var o = mk(s, canon, 'd'); var a = (byte[])s.enc.Invoke(o, null); var b = new byte[a.Length]; fill.AsSpan(0, Math.Min(fill.Length, a.Length)).CopyTo(b);
        if (call(s.enc2, o, b, 0) != a.Length || !b.SequenceEqual(a)) sb.Append("Encode(byte[],int),");
        b = new byte[a.Length + 4]; fill.AsSpan(0, Math.Min(fill.Length, a.Length)).CopyTo(b.AsSpan(2));
        if (s.encSpanLike != null && (call(s.encSpanLike, o, new Memory<byte>(b, 2, a.Length)) != a.Length || !b.Skip(2).Take(a.Length).SequenceEqual(a) || b[0] != 0 || b[1] != 0 || b[^1] != 0 || b[^2] != 0)) sb.Append("Encode(Memory),");
        var es = s.c.GetMethod("Encode", new[] { typeof(Span<byte>) });
        b = new byte[a.Length + 4]; fill.AsSpan(0, Math.Min(fill.Length, a.Length)).CopyTo(b.AsSpan(2));
        if (es != null && (((SpanCodec)es.CreateDelegate(typeof(SpanCodec), o))(b.AsSpan(2, a.Length)) != a.Length || !b.Skip(2).Take(a.Length).SequenceEqual(a) || b[0] != 0 || b[1] != 0 || b[^1] != 0 || b[^2] != 0)) sb.Append("Encode(Span),");
        var dm = s.c.GetMethod("Decode", new[] { typeof(Memory<byte>) }); var dsm = s.c.GetMethod("DecodeSize", new[] { typeof(Memory<byte>) });
        for (int k = 0; k < 3 && k <= wire.Length; k++) {
            var w = wire.Take(wire.Length - k).ToArray(); var q = new byte[] { 1, 2, 3 }.Concat(w).ToArray(); var x = Activator.CreateInstance(s.c);
            int want = call(s.ds1, x, w);
            if (call(s.ds, x, w, 0) != want || call(s.ds, x, q, 3) != want) sb.Append("DecodeSize(byte[],int),");
            if (dsm != null && call(dsm, x, new Memory<byte>(q, 3, w.Length)) != want) sb.Append("DecodeSize(Memory),");
            if (want <= 0) continue;
            object y = Activator.CreateInstance(s.c), z = Activator.CreateInstance(s.c), u = Activator.CreateInstance(s.c), v = Activator.CreateInstance(s.c); int r = call(s.dec1, y, w);
            string d = dh(s, y, 'd');
            if (call(s.dec, z, w, 0) != r || call(s.dec, u, q, 3) != r || dh(s, z, 'd') != d || dh(s, u, 'd') != d) sb.Append("Decode(byte[],int),");
            if (dm != null && (call(dm, v, new Memory<byte>(q, 3, w.Length)) != r || dh(s, v, 'd') != d)) sb.Append("Decode(Memory),");
        }
        return sb + "-";
    }

    static void leaves(T t, object v, List<(T, object)> o) {
        if (t.k == 'A') { foreach (var x in (Array)v) leaves(t.el, x, o); }
        else if (t.k == 's' || t.k == 'y') o.Add((t, v));
        else if (t.k == 'S') foreach (var f in S[t.name].f) leaves(f.t, f.f.GetValue(v), o);
    }
    static string history(SD s, string[] t) {
        var o = Activator.CreateInstance(s.c); var sb = new StringBuilder(); var snap = new List<List<(T, object)>>();
        for (int q = 3; q < t.Length; q++) {
            char k = t[q][0]; string a = t[q].Substring(1);
            if (k == 'c' || k == 'a') { loadS(s, o, new Rd { b = U(a) }, k == 'a' ? 'a' : 'd'); sb.Append("ok "); }
            else if (k == 'm' || k == 'i') {
                var p = a.Split(':'); var ix = p[0].Split(','); var f = s.f[int.Parse(ix[0])]; var r = new Rd { b = U(p[1]) };
                if (k == 'm') { var v = load(f.t, r, 'd', f.f.FieldType); if (f.p != null && f.p.CanWrite) f.p.SetValue(o, v); else f.f.SetValue(o, v); }
                else { var arr = (Array)(f.p != null && f.p.CanRead ? f.p.GetValue(o) : f.f.GetValue(o)); arr.SetValue(load(f.t.el, r, 'd', f.f.FieldType.GetElementType()), int.Parse(ix[1])); }
                sb.Append("ok ");
            } else if (k == 'd') {
                int ret = call(s.dec1, o, U(a)); sb.Append(ret);
                if (ret >= 0) { sb.Append(':').Append(dh(s, o, 'd')); var l = new List<(T, object)>(); foreach (var f in s.f) leaves(f.t, f.f.GetValue(o), l); snap.Add(l); }
                sb.Append(' ');
            } else if (k == 'e' || k == 'f') {
                var b = new byte[call(s.es, o)]; if (k == 'f') Array.Fill(b, (byte)0xff);
                call(s.enc2, o, b, 0); sb.Append(H(b)).Append(' ');
            } else if (k == 'n' || k == 'N') sb.Append(dh(s, o, k == 'N' ? 'a' : 'd')).Append(' ');
        }
        sb.Append('|');
        foreach (var l in snap) { var w = new MemoryStream(); foreach (var (lt, v) in l) dump(lt, v, w, 'd'); sb.Append(' ').Append(H(w.ToArray())); }
        return sb.ToString();
    }
    static string shared(SD s, byte[] canon, byte[] wire, int n, int rounds) {
        // two objects and two frames; neighbouring threads work on different ones
        var o = new object[2]; var fr = new byte[2][]; var re = new byte[2][]; var val = new string[2];
        o[0] = mk(s, canon, 'd'); re[0] = (byte[])s.enc.Invoke(o[0], null); o[1] = Activator.CreateInstance(s.c); call(s.dec1, o[1], wire); re[1] = (byte[])s.enc.Invoke(o[1], null);
        fr[0] = wire; fr[1] = re[0]; val[0] = dh(s, o[1], 'd'); var p = Activator.CreateInstance(s.c); call(s.dec1, p, fr[1]); val[1] = dh(s, p, 'd');
        var again = new[] { re[1], (byte[])s.enc.Invoke(p, null) };
        long bad = 0; var bar = new Barrier(n); var th = new Thread[n];
        for (int q = 0; q < n; q++) { int k2 = q & 1; th[q] = new Thread(() => { bar.SignalAndWait(); try { for (int k = 0; k < rounds; k++) {
            var y = Activator.CreateInstance(s.c);
            if (call(s.es, o[k2]) != re[k2].Length || !((byte[])s.enc.Invoke(o[k2], null)).AsSpan().SequenceEqual(re[k2]) || call(s.ds1, o[k2], fr[k2]) != fr[k2].Length
                || call(s.dec1, y, fr[k2]) != fr[k2].Length || dh(s, y, 'd') != val[k2]) Interlocked.Increment(ref bad);
            for (int t = 0; t < 25; t++) { var z = Activator.CreateInstance(s.c); call(s.dec1, z, fr[k2]); if (!((byte[])s.enc.Invoke(z, null)).AsSpan().SequenceEqual(again[k2])) Interlocked.Increment(ref bad); }
        } } catch (Exception) { Interlocked.Increment(ref bad); } }); th[q].Start(); }
        foreach (var x in th) x.Join();
        return bad + " " + H(re[0]) + " " + val[0];
    }

    public static int Main(string[] a) {
        meta(a[0]);
        var o = new StreamWriter(Console.OpenStandardOutput(), new UTF8Encoding(false));
        var inp = File.ReadAllLines(a[1]).Where(l => l.Length > 0 && l[0] != '#').ToArray();
        var res = new string[inp.Length];
        for (int k = 0; k < inp.Length; k++) { res[k] = doLine(inp[k]); o.Write(res[k] + "\n"); }
        o.Flush();
        if (a.Length > 2) {
            int nth = int.Parse(a[2]); long bad = 0, ops = 0; var bar = new Barrier(nth); var th = new Thread[nth];
            for (int q = 0; q < nth; q++) { int id = q; th[q] = new Thread(() => { bar.SignalAndWait();
                for (int k = 0; k < inp.Length; k++) { int i = (int)((k + (long)id * 7919) % inp.Length); if (doLine(inp[i]) != res[i]) Interlocked.Increment(ref bad); }
                // every thread repeats the same command at the same time, until the time box ends
                var w = System.Diagnostics.Stopwatch.StartNew(); long mine = inp.Length;
                for (int round = 0; round < 4; round++) for (int k = 0; k < inp.Length && w.ElapsedMilliseconds < 2500; k++) {
                    for (int t = 0; t < 12; t++) { if (doLine(inp[k]) != res[k]) Interlocked.Increment(ref bad); mine++; } }
                Interlocked.Add(ref ops, mine); }); th[q].Start(); }
            foreach (var x in th) x.Join();
            o.Write("PAR " + nth + " " + ops + " " + bad + "\n");
        }
        o.Write("END\n"); o.Flush();
        return 0;
    }
}
