"""C#: all protocols in one assembly, compiled with the Roslyn compiler directly."""
import glob, json, os
from . import common, engine
from .engine import Built, Unit, BuildError
from .lang_c import extra_for

EXT = ".cs"
HELP = r'''
using System; using System.IO; using System.Text; using System.Collections.Generic; using System.Linq; using System.Globalization;
public class DrvErr : Exception { public DrvErr(string s) : base(s) {} }
public class T {
    public string[] Toks; public int I;
    public string Next() { if (I >= Toks.Length) throw new DrvErr("driver: missing token"); return Toks[I++]; }
    public bool More() { return I < Toks.Length; }
    public long S() { return long.Parse(Next(), CultureInfo.InvariantCulture); }
    public ulong U() { return ulong.Parse(Next(), CultureInfo.InvariantCulture); }
    public int N() { return (int)S(); }
    public bool B() { return U() != 0; }
    public float F32() { return BitConverter.Int32BitsToSingle(unchecked((int)(uint)U())); }
    public double F64() { return BitConverter.Int64BitsToDouble(unchecked((long)U())); }
    public byte[] Hex() { var s = Next(); if (s[0] != 'x') throw new DrvErr("driver: hex"); return Convert.FromHexString(s.Substring(1)); }
    public string Str() { return new UTF8Encoding(false, true).GetString(Hex()); }
}
public class O {
    public StringBuilder Sb = new StringBuilder();
    public void P(string s) { Sb.Append(s); }
    public void I(long v) { Sb.Append(' ').Append(v.ToString(CultureInfo.InvariantCulture)); }
    public void U(ulong v) { Sb.Append(' ').Append(v.ToString(CultureInfo.InvariantCulture)); }
    public void B(bool v) { P(v ? " 1" : " 0"); }
    public void F32(float v) { U(unchecked((uint)BitConverter.SingleToInt32Bits(v))); }
    public void F64(double v) { U(unchecked((ulong)BitConverter.DoubleToInt64Bits(v))); }
    public void X(byte[] b) { P(" x" + Convert.ToHexString(b).ToLowerInvariant()); }
    public void Str(string s) { if (s == null) P(" !NULL"); else X(Encoding.UTF8.GetBytes(s)); }
}
// a stream that hands out at most one byte per call
public class Slow : MemoryStream { public Slow(byte[] b) : base(b) {} public override int Read(byte[] b, int o, int n) { return base.Read(b, o, n > 1 ? 1 : n); } public override int Read(Span<byte> s) { return base.Read(s.Length > 1 ? s.Slice(0, 1) : s); } }
// hands out pieces of random length; may fail at a position; may not be seekable
public class Drip : Stream {
    byte[] b; int pos, stop; uint seed; bool seek;
    public Drip(byte[] b, int stop, int seed, bool seek) { this.b = b; this.stop = stop; this.seed = (uint)seed * 2654435761u + 1; this.seek = seek; }
    int Rnd(int n) { seed = unchecked(seed * 1664525u + 1013904223u); return (int)((seed >> 8) % (uint)n); }
    public override int Read(Span<byte> s) { if (stop >= 0 && pos >= stop) throw new IOException("the source failed"); if (s.Length == 0 || pos >= b.Length) return 0;
        int n = Math.Min(Math.Min(1 + Rnd(5), s.Length), b.Length - pos); if (stop >= 0) n = Math.Min(n, stop - pos); b.AsSpan(pos, n).CopyTo(s); pos += n; return n; }
    public override int Read(byte[] x, int o, int n) { return Read(x.AsSpan(o, n)); }
    public override int ReadByte() { var x = new byte[1]; return Read(x.AsSpan()) == 0 ? -1 : x[0]; }
    public int Taken { get { return pos; } }
    public override bool CanRead { get { return true; } } public override bool CanSeek { get { return seek; } } public override bool CanWrite { get { return false; } }
    public override long Length { get { if (!seek) throw new NotSupportedException(); return b.Length; } }
    public override long Position { get { if (!seek) throw new NotSupportedException(); return pos; } set { Seek(value, SeekOrigin.Begin); } }
    public override long Seek(long o, SeekOrigin w) { if (!seek) throw new NotSupportedException(); pos = (int)(w == SeekOrigin.Begin ? o : w == SeekOrigin.Current ? pos + o : b.Length + o); return pos; }
    public override void SetLength(long v) { throw new NotSupportedException(); } public override void Write(byte[] x, int o, int n) { throw new NotSupportedException(); } public override void Flush() { }
}
// takes everything (until it fails) and can do nothing else
public class Drain : Stream {
    public MemoryStream To = new MemoryStream(); int stop;
    public Drain(int stop) { this.stop = stop; }
    public override void Write(byte[] x, int o, int n) { if (stop >= 0 && To.Length + n > stop) throw new IOException("the sink failed"); To.Write(x, o, n); }
    public override bool CanRead { get { return false; } } public override bool CanSeek { get { return false; } } public override bool CanWrite { get { return true; } }
    public override long Length { get { throw new NotSupportedException(); } } public override long Position { get { throw new NotSupportedException(); } set { throw new NotSupportedException(); } }
    public override int Read(byte[] x, int o, int n) { throw new NotSupportedException(); } public override long Seek(long o, SeekOrigin w) { throw new NotSupportedException(); } public override void SetLength(long v) { throw new NotSupportedException(); } public override void Flush() { }
}
public static class Program {
    public static void Main() {
        CultureInfo.DefaultThreadCurrentCulture = CultureInfo.InvariantCulture;
        var inp = new StreamReader(Console.OpenStandardInput(), Encoding.ASCII, false, 1 << 16); var outp = new StreamWriter(Console.OpenStandardOutput()); outp.AutoFlush = true;
        string line;
        while ((line = inp.ReadLine()) != null) {
            if (line.Length == 0) continue;
            var f = line.Split(' ', StringSplitOptions.RemoveEmptyEntries); string r;
            try { r = One(int.Parse(f[0]), new T { Toks = f, I = 1 }); } catch (Exception e) { r = "PANIC " + e.GetType().Name + " " + e.Message + " / " + e.StackTrace; }
            outp.Write("> " + r.Replace("\n", " / ").Replace("\r", "") + "\n");
        }
    }
    static string One(int k, T t) {
        switch (k) {
@CASES@
        }
        throw new DrvErr("driver: protocol index");
    }
}
'''
OPS = r'''
    static BinaryReader At(byte[] b, int off, bool slow = false) { var s = slow ? new Slow(b) : new MemoryStream(b); s.Position = off; return new BinaryReader(s); }
    static byte[] Ser(Message m, bool tag) { var s = new MemoryStream(); var w = new BinaryWriter(s); m.WriteBytes(w, tag); w.Flush(); return s.ToArray(); }
    static List<Message> Items(T t) { int n = t.N(); var l = new List<Message>(); for (int i = 0; i < n; i++) { int mi = t.N(); l.Add(Mk(mi, t)); } return l; }
    static void DumpList(O o, IList<Message> l) { o.P(" " + l.Count); foreach (var m in l) { o.P(" | " + ((int)m.GetMessageType() - 1)); Dump(o, m); } }
    static bool Try<R>(Func<R> f, out R r, out string err) { try { r = f(); err = null; return true; } catch (DrvErr) { throw; } catch (Exception e) { r = default(R); err = e.GetType().Name; return false; } }
    public static string RunOp(T t) {
        var o = new O(); var op = t.Next();
        switch (op) {
            case "E": case "V": { int mi = t.N(); int mode = op == "V" ? t.N() : -1; var m = Mk(mi, t);
                if (mode >= 0) { var w0 = Ser(m, true); if (mode == 1) m = Read(mi, At(w0, 1)); m.GetSizeInBytes(); Ser(m, mode == 0); var s0 = new MemoryStream(); Message.PackMessages(new List<Message> { m }, new BinaryWriter(s0)); Refill(m, t); }
                int size = m.GetSizeInBytes(); var a = Ser(m, true); var b = Ser(m, false); var c = Ser(m, true);
                bool same = a.SequenceEqual(c) && a.Length == b.Length + 1 && a.Skip(1).SequenceEqual(b) && size == m.GetSizeInBytes() && (int)m.GetMessageType() == mi + 1;
                o.P("OK " + size + " " + a.Length + " " + b.Length); o.B(same); o.X(a); o.X(b); break; }
            case "D": case "I": { int mi = t.N(); int off = t.N(); var b = t.Hex(); var cp = (byte[])b.Clone(); var br = At(b, off); Message m, m2; string e, e2;
                bool ok = Try(() => Read(mi, br), out m, out e); var br2 = At(cp, off, true); bool ok2 = Try(() => Read(mi, br2), out m2, out e2);
                bool same = b.SequenceEqual(cp); if (op == "I") Array.Fill(b, (byte)0xEE);
                if (ok != ok2) { o.P("READERS-DISAGREE " + e + " " + e2); break; }
                if (!ok) { o.P("ERR " + e); break; }
                o.P("OK " + br.BaseStream.Position); if (op == "I") o.B(same); Dump(o, m);
                var o1 = new O(); var o2 = new O(); Dump(o1, m); Dump(o2, m2); if (o1.Sb.ToString() != o2.Sb.ToString() || br.BaseStream.Position != br2.BaseStream.Position) o.P(" READERS-DISAGREE");
                if (!same) o.P(" BUFFERCHANGED"); break; }
            case "Q": { int off = t.N(); var br = At(t.Hex(), off); o.P("OK"); while (t.More()) { int mi = t.N(); Message m; string e; if (!Try(() => Read(mi, br), out m, out e)) { o.P(" ERR " + e); break; } o.P(" | " + br.BaseStream.Position); Dump(o, m); } break; }
            case "N": { bool tag = t.B(); int off = t.N(); var l = Items(t); var s = new MemoryStream(); var w = new BinaryWriter(s); for (int i = 0; i < off; i++) w.Write((byte)0xAA); foreach (var m in l) m.WriteBytes(w, tag); w.Flush();
                o.P("OK " + s.Position); for (int i = 0; i < 16; i++) w.Write((byte)0xAA); w.Flush(); o.X(s.ToArray()); break; }
            case "S": { int max = t.N(); int off = t.N(); var b = t.Hex(); var br = At(b, off); Message[] l, l2; string e, e2; bool ok = Try(() => Message.ProcessRawBytes(br, max), out l, out e);
                var br2 = At((byte[])b.Clone(), off, true); bool ok2 = Try(() => Message.ProcessRawBytes(br2, max), out l2, out e2); long pos = br.BaseStream.Position; Array.Fill(b, (byte)0xEE);
                if (ok != ok2 || (ok && l.Length != l2.Length)) { o.P("READERS-DISAGREE " + e + " " + e2); break; }
                if (!ok) { o.P("ERR " + e); break; } o.P("OK " + pos); DumpList(o, l); break; }
            case "P": { int off = t.N(); var l = Items(t); var s = new MemoryStream(); var w = new BinaryWriter(s); for (int i = 0; i < off; i++) w.Write((byte)0xAA); int ps = Message.GetPackedSize(l); Message.PackMessages(l, w); w.Flush();
                var a = s.ToArray(); o.P("OK " + ps + " " + (a.Length - off)); o.X(a.Skip(off).ToArray()); if (a.Take(off).Any(c => c != 0xAA)) o.P(" CLOBBER"); break; }
            case "U": { int off = t.N(); var b = t.Hex(); var br = At(b, off); Message[] l, l2; string e, e2; bool ok = Try(() => Message.UnpackMessages(br), out l, out e);
                var br2 = At((byte[])b.Clone(), off, true); bool ok2 = Try(() => Message.UnpackMessages(br2), out l2, out e2); long pos = br.BaseStream.Position; Array.Fill(b, (byte)0xEE);
                if (ok != ok2) { o.P("READERS-DISAGREE " + e + " " + e2); break; }
                if (!ok) { o.P("ERR " + e); break; } o.P("OK " + pos); DumpList(o, l); break; }
            case "F": { int mi = t.N(); var m = Fresh(mi); var a = Ser(m, false); var m2 = Fresh(mi); Poke(m2); var m3 = Fresh(mi); o.P("OK " + m.GetSizeInBytes()); o.X(a); o.X(Ser(m3, false)); o.I((int)m.GetMessageType() - 1); Dump(o, m); o.P(" /"); Dump(o, m3); break; }
            case "T": { int mi = t.N(); var m = Mk(mi, t); var a = Ser(m, true); var r = Read(mi, At(a, 1)); var l = Message.ProcessRawBytes(At(a, 0), -1); var s = new MemoryStream(); var w = new BinaryWriter(s); Message.PackMessages(new List<Message> { m }, w); w.Flush(); var pl = Message.UnpackMessages(At(s.ToArray(), 0)); var g = Message.ProcessRawBytes(At(a, 0), 1);
                Func<IList<Message>, int> one = x => x.Count != 1 ? -1 : (Ser(x[0], true).SequenceEqual(a) && x[0].GetType() == m.GetType() ? 0 : 1000) + (int)x[0].GetMessageType();
                o.P("OK " + Const(mi)); o.I((int)Fresh(mi).GetMessageType()); o.I((int)m.GetMessageType()); o.I((int)r.GetMessageType()); o.I(one(l)); o.I(one(pl)); o.I(one(g)); o.X(new[] { a[0] }); break; }
            case "C": { int mi = t.N(); var m = Mk(mi, t); var a = Ser(m, true); bool ok = true; var th = new System.Threading.Thread[4];
                for (int g = 0; g < 4; g++) { th[g] = new System.Threading.Thread(() => { for (int i = 0; i < 5; i++) { if (m.GetSizeInBytes() + 1 != a.Length || !Ser(m, true).SequenceEqual(a)) ok = false; } }); th[g].Start(); }
                foreach (var x in th) x.Join(); o.P("OK"); o.B(ok); o.X(a); Dump(o, m); break; }
            case "R": { var kind = t.Next(); int arg = t.N(); var what = t.Next(); int a = t.N(); var b = t.Hex(); Stream s; Func<long> left = null; string tmp = null;
                switch (kind) {
                    case "chunk": s = new Drip(b, -1, arg, true); break;
                    case "nonseek": { var d = new Drip(b, -1, arg, false); s = d; left = () => b.Length - d.Taken; break; }
                    case "fail": s = new Drip(b, arg, arg, true); break;
                    case "buffered": s = new BufferedStream(new Drip(b, -1, arg, true), 16); break;
                    case "segment": { var x = new byte[arg % 7 + b.Length + 5]; Array.Fill(x, (byte)1); b.CopyTo(x, arg % 7); s = new MemoryStream(x, arg % 7, b.Length, false); break; }
                    case "file": tmp = Path.GetTempFileName(); File.WriteAllBytes(tmp, b); s = new FileStream(tmp, FileMode.Open, FileAccess.Read, FileShare.Read, 16); break;
                    default: throw new DrvErr("driver: source " + kind);
                }
                if (left == null) left = () => s.Length - s.Position;
                var br = new BinaryReader(s); Message m = null; Message[] l = null; string e; bool ok;
                if (what == "D") ok = Try(() => Read(a, br), out m, out e); else ok = Try(() => what == "S" ? Message.ProcessRawBytes(br, a) : Message.UnpackMessages(br), out l, out e);
                if (!ok) o.P("ERR " + e); else { o.P("OK " + (b.Length - left())); if (what == "D") Dump(o, m); else DumpList(o, l); }
                s.Dispose(); if (tmp != null) File.Delete(tmp); break; }
            case "Z": { var kind = t.Next(); int stop = kind == "fail" ? t.N() : -1; var l = Items(t); o.P("OK"); string tmp = null; string e; int n;
                Action<Action<BinaryWriter>> go = f => {
                    Stream s; var d = new Drain(stop); Func<byte[]> got = () => d.To.ToArray();
                    switch (kind) { case "plain": case "fail": s = d; break; case "buffered": s = new BufferedStream(d, 5); break; case "file": tmp = Path.GetTempFileName(); s = new FileStream(tmp, FileMode.Create, FileAccess.Write, FileShare.Read, 16); got = () => File.ReadAllBytes(tmp); break; default: throw new DrvErr("driver: sink " + kind); }
                    if (!Try(() => { var w = new BinaryWriter(s, new UTF8Encoding(false), true); f(w); w.Flush(); s.Dispose(); return 0; }, out n, out e)) o.P(" ERR"); else o.X(got());
                    if (tmp != null) { File.Delete(tmp); tmp = null; }
                };
                foreach (var m in l) foreach (bool tag in new[] { true, false }) go(w => m.WriteBytes(w, tag));
                go(w => Message.PackMessages(l, w)); break; }
            case "Y": { int n = t.N(); var mis = new int[n]; var bs = new byte[n][]; var ds = new byte[n][]; for (int i = 0; i < n; i++) { mis[i] = t.N(); bs[i] = t.Hex(); ds[i] = t.Hex(); }
                var whys = new string[4]; var th = new System.Threading.Thread[4];
                for (int q = 0; q < 4; q++) { int g = q; th[g] = new System.Threading.Thread(() => { try {
                    Action<string> fail = x => { if (whys[g] == null) whys[g] = x; }; Action<Message, byte[], string> same = (m, b, why) => { if (m.GetSizeInBytes() + 1 != b.Length || !Ser(m, true).SequenceEqual(b)) fail(why); };
                    for (int it = 0; it < 3 * n; it++) { int j = (it * (g % 2 == 0 ? n - 1 : 1) + g * n / 4) % n; var b = bs[j]; string e; Message[] l;
                        var m = Read(mis[j], At(b, 1)); same(m, b, "reread"); var s = new MemoryStream(); var two = new List<Message> { m, m }; if (Message.GetPackedSize(two) != 2 * b.Length + 9) fail("packed size"); var w = new BinaryWriter(s); Message.PackMessages(two, w); w.Flush();
                        l = Message.UnpackMessages(At(s.ToArray(), 0)); if (l.Length != 2) fail("unpack"); else { same(l[0], b, "unpacked"); same(l[1], b, "unpacked"); }
                        l = Message.ProcessRawBytes(At(b, 0), -1); if (l.Length != 1) fail("process"); else same(l[0], b, "processed");
                        if (b.Length > 1 && Try(() => Message.ProcessRawBytes(At(b.Take(b.Length - 1).ToArray(), 0), -1), out l, out e)) fail("cut accepted");
                        same(Fresh(mis[j]), ds[j], "default"); }
                } catch (Exception x) { whys[g] = x.GetType().Name; } }); th[g].Start(); }
                foreach (var x in th) x.Join(); o.P("OK"); foreach (var x in whys) if (x != null) o.P(" BAD " + x); break; }
            case "M": { var what = t.Next(); int a = what != "U" ? t.N() : 0; var b = t.Hex(); long least = long.MaxValue; bool ok = false; string e = null;
                for (int i = 0; i < 3; i++) { var br = At(b, 0); object x; long m0 = GC.GetAllocatedBytesForCurrentThread();
                    ok = Try<object>(() => what == "D" ? (object)Read(a, br) : what == "S" ? (object)Message.ProcessRawBytes(br, a) : (object)Message.UnpackMessages(br), out x, out e);
                    least = Math.Min(least, GC.GetAllocatedBytesForCurrentThread() - m0); if (e == "OutOfMemoryException") { least = 1L << 40; break; } if (least < 65536 || least > 1 << 27) break; }
                o.P((ok ? "OK " : "ERR ") + least); break; }
            case "X": { var what = t.Next(); int a = what == "D" ? t.N() : 0; var b = t.Hex(); var best = new long[] { -1, -1, -1, -1 }; var from = System.Diagnostics.Stopwatch.StartNew();
                for (int rep = 0; rep < 5 && (rep < 1 || from.ElapsedMilliseconds < 300); rep++) { int at = 0; GC.Collect(); bool calm = false; try { calm = GC.TryStartNoGCRegion(200000000); } catch (ArgumentOutOfRangeException) {} System.Diagnostics.Stopwatch sw = null; Action start = () => { sw = System.Diagnostics.Stopwatch.StartNew(); }; Action stop = () => { long d = (long)(sw.Elapsed.TotalMilliseconds * 1e6); if (best[at] < 0 || d < best[at]) best[at] = d; at++; };
                    var s = new MemoryStream(); var w = new BinaryWriter(s);
                    if (what == "D") { start(); var m = Read(a, At(b, 0)); stop(); start(); m.GetSizeInBytes(); stop(); start(); m.WriteBytes(w, false); w.Flush(); stop(); if (!s.ToArray().AsSpan().SequenceEqual(b)) throw new Exception("other bytes"); }
                    else { start(); var l = Message.ProcessRawBytes(At(b, 0), -1); stop(); start(); Message.GetPackedSize(l); stop(); start(); Message.PackMessages(l, w); w.Flush(); stop(); s.Position = 0; start(); var l2 = Message.UnpackMessages(new BinaryReader(s)); stop(); if (System.Linq.Enumerable.Count(l2) != System.Linq.Enumerable.Count(l)) throw new Exception("other list"); }
                    if (calm) try { GC.EndNoGCRegion(); } catch (InvalidOperationException) {} }
                o.P("OK"); foreach (var d in best) if (d >= 0) o.P(" " + d); break; }
            default: throw new DrvErr("driver: unknown op " + op);
        }
        return o.Sb.ToString();
    }
'''
CT = {"byte": "byte", "bool": "bool", "uint16": "ushort", "int16": "short", "uint32": "uint", "int32": "int", "uint64": "ulong", "int64": "long",
      "float": "float", "double": "double", "string": "string"}


def emit(p, k):
    o = ["using System; using System.IO; using System.Text; using System.Collections.Generic; using System.Linq;"]
    w = o.append
    if p.ns is not None:
        w(f"namespace {p.ns} {{")
    w(f"public static class Drv_{k} {{")
    ct = lambda t: CT.get(t, t)

    def rd(t):
        kd = p.kind(t)
        if kd == "base":
            if t == "bool":
                return "t.B()"
            if t == "float":
                return "t.F32()"
            if t == "double":
                return "t.F64()"
            return f"({ct(t)})t.{'U' if t in ('byte', 'uint16', 'uint32', 'uint64') else 'S'}()"
        if kd == "string":
            return "t.Str()"
        if kd == "enum":
            return f"rdE_{t}(t.S())"
        return f"rdS_{t}(t)"

    def dump(t, lv):
        kd = p.kind(t)
        if kd == "base":
            if t == "bool":
                return f"o.B({lv});"
            if t in ("float", "double"):
                return f"o.F{'32' if t == 'float' else '64'}({lv});"
            return f"o.U({lv});" if t in ("byte", "uint16", "uint32", "uint64") else f"o.I({lv});"
        if kd == "string":
            return f"o.Str({lv});"
        if kd == "enum":
            return f"dE_{t}(o, {lv});"
        return f"dS_{t}(o, {lv});"
    for e in p.enums.values():
        w(f"static {e.name} rdE_{e.name}(long v) {{ switch (v) {{")
        for n, v in e.values:
            w(f"case {v}: return {e.name}.{n};")
        w('} throw new DrvErr("driver: enum"); }')
        w(f"static void dE_{e.name}(O o, {e.name} v) {{ switch (v) {{")
        for n, v in e.values:
            w(f"case {e.name}.{n}: o.I({v}); break;")
        w('default: o.P(" ?" + ((long)v)); break; } }')
    for s in list(p.structs.values()) + p.msgs:
        w(f"static {s.name} rdS_{s.name}(T t) {{ var d = new {s.name}(); fS_{s.name}(d, t); return d; }}")
        w(f"static void fS_{s.name}({s.name} d, T t) {{")
        for m in s.members:
            if m.is_list:
                w(f"{{ int n = t.N(); if (d.{m.name} == null) d.{m.name} = new List<{ct(m.type)}>(); d.{m.name}.Clear(); for (int i = 0; i < n; i++) d.{m.name}.Add({rd(m.type)}); }}")
            elif p.kind(m.type) == "struct":
                w(f"if (d.{m.name} == null) d.{m.name} = {rd(m.type)}; else fS_{m.type}(d.{m.name}, t);")
            else:
                w(f"d.{m.name} = {rd(m.type)};")
        w("}")
        w(f"static void dS_{s.name}(O o, {s.name} d) {{")
        for m in s.members:
            if m.is_list:
                w(f"o.I(d.{m.name}.Count); foreach (var e in d.{m.name}) {{ {dump(m.type, 'e')} }}")
            else:
                w(dump(m.type, "d." + m.name))
        w("}")

    def sw(sig, arm):
        w(sig + " { switch (mi) {")
        for i, m in enumerate(p.msgs):
            w(f"case {i}: {arm(m.name)}")
        w('} throw new DrvErr("driver: message index"); }')
    sw("static Message Mk(int mi, T t)", lambda n: f"return rdS_{n}(t);")
    sw("static Message Fresh(int mi)", lambda n: f"return new {n}();")
    sw("static int Const(int mi)", lambda n: f"return (int)MessageType.{n}Type;")
    sw("static Message Read(int mi, BinaryReader br)", lambda n: f"return {n}.FromBytes(br);")
    w("static void Refill(Message m, T t) {")
    for m in p.msgs:
        w(f"if (m is {m.name}) {{ fS_{m.name}(({m.name})m, t); return; }}")
    w('throw new DrvErr("driver: message class"); }')
    w("static void Dump(O o, Message m) {")
    for m in p.msgs:
        w(f"if (m is {m.name}) {{ dS_{m.name}(o, ({m.name})m); return; }}")
    w('throw new DrvErr("driver: message class"); }')
    pv = lambda t: '"poked"' if t == "string" else "true" if t == "bool" else f"{t}.{p.enums[t].values[-1][0]}" if t in p.enums else f"new {t}()" if t in p.structs else f"({ct(t)})7"
    for s in list(p.structs.values()) + p.msgs:
        w(f"static void pS_{s.name}({s.name} d) {{")
        for m in s.members:
            if m.is_list:
                w(f"d.{m.name}.Add({pv(m.type)});")
            elif m.type in p.structs:
                w(f"pS_{m.type}(d.{m.name});")
            else:
                w(f"d.{m.name} = {pv(m.type)};")
        w("}")
    w("static void Poke(Message m) {")
    for m in p.msgs:
        w(f"if (m is {m.name}) {{ pS_{m.name}(({m.name})m); return; }}")
    w("}")
    w(OPS)
    w("}")
    if p.ns is not None:
        w("}")
    return "\n".join(o)


def csc():
    sdk = sorted(glob.glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll"))[-1]
    ref = sorted(glob.glob("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net*"))[-1]
    ver = os.path.basename(sorted(glob.glob("/usr/lib/dotnet/shared/Microsoft.NETCore.App/*"))[-1])
    return sdk, ref, ver


def compile_cs(files, out, root, target="exe", warnaserror=False, release=False):
    sdk, ref, ver = csc()
    rsp = out + ".rsp"
    with open(rsp, "w") as f:
        f.write(f"-nologo -target:{target} -out:{out} -nullable- -warn:4 -optimize{'+' if release else '-'} -checked{'+' if release else '-'} -debug-\n")
        f.write("-warnaserror+\n" if warnaserror else "-nowarn:CS0162,CS0168,CS0219\n")
        for r in glob.glob(ref + "/*.dll"):
            f.write(f"-r:{r}\n")
        for s in files:
            f.write(s + "\n")
    r = common.run(["dotnet", "exec", sdk, "-noconfig", "@" + rsp], cwd=root, timeout=300, env={"DOTNET_TieredPGO": "0"})
    if r.rc == 0 and target == "exe":
        with open(out[:-4] + ".runtimeconfig.json", "w") as f:
            json.dump({"runtimeOptions": {"tfm": "net8.0", "framework": {"name": "Microsoft.NETCore.App", "version": ver}, "configProperties": {"System.GC.Server": False, "System.Globalization.Invariant": True}}}, f)
    return r


def build(protos, wd, extra=(), mode="plain", idx=None):
    idx = list(idx) if idx is not None else list(range(len(protos)))
    root = os.path.join(wd, f"cs_{mode}")
    os.makedirs(root, exist_ok=True)
    files = common.pmap(lambda k: engine.generate("csharp", protos[k].toml(), root, f"p{k}", ".cs", extra_for(extra, protos[k])), idx)
    for k in idx:
        f = os.path.join(root, f"d{k}.cs")
        open(f, "w").write(emit(protos[k], k))
        files.append(f)
    main = os.path.join(root, "main.cs")
    q = lambda k: f"global::{protos[k].ns}." if protos[k].ns is not None else "global::"
    open(main, "w").write(HELP.replace("@CASES@", "\n".join(f"            case {k}: return {q(k)}Drv_{k}.RunOp(t);" for k in idx)))
    exe = os.path.join(root, "drv.dll")
    r = compile_cs(files + [main], exe, root, release=mode == "release")
    if r.rc != 0:
        raise BuildError("csharp", "compile", "\n".join([l for l in r.out.splitlines() if "error" in l][:12]) or (r.out + r.err)[:2000])
    return Built("csharp", [Unit(["dotnet", "exec", exe], idx, env={"DOTNET_gcServer": "0", "DOTNET_GCHeapHardLimit": "0x100000000"})])
