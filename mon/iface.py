"""The interface of generated code, observed rather than read (but for Swift): per language a small program that uses the generated source and reports, by
reflection or by asking its compiler, the members of every struct and message with their types in order, and the constants of every enum."""
import os, re, json
from . import common, engine, lang_c, lang_cs, lang_go, lang_js, lang_rust, swift_front
from .engine import BuildError

BASE = {  # the documented type of each base type
    "c": lang_c.CT,
    "csharp": dict(byte="Byte", bool="Boolean", int16="Int16", uint16="UInt16", int32="Int32", uint32="UInt32", int64="Int64", uint64="UInt64", float="Single", double="Double", string="String"),
    "go": dict(byte="uint8", bool="bool", int16="int16", uint16="uint16", int32="int32", uint32="uint32", int64="int64", uint64="uint64", float="float32", double="float64", string="string"),
    "rust": dict(byte="u8", bool="bool", int16="i16", uint16="u16", int32="i32", uint32="u32", int64="i64", uint64="u64", float="f32", double="f64", string="String"),
    "typescript": dict(byte="number", bool="boolean", int16="number", uint16="number", int32="number", uint32="number", int64="bigint", uint64="bigint", float="number", double="number", string="string"),
    "assemblyscript": dict(byte="u8", bool="bool", int16="i16", uint16="u16", int32="i32", uint32="u32", int64="i64", uint64="u64", float="f32", double="f64", string="string"),
    "swift": dict(byte="UInt8", bool="Bool", int16="Int16", uint16="UInt16", int32="Int32", uint32="UInt32", int64="Int64", uint64="UInt64", float="Float32", double="Float64", string="String"),
    "zig": dict(byte="u8", bool="bool", int16="i16", uint16="u16", int32="i32", uint32="u32", int64="i64", uint64="u64", float="f32", double="f64", string="[]const u8"),
}
LIST = {"csharp": "List<{}>", "go": "[]{}", "rust": "Vec<{}>", "typescript": "{}[]", "assemblyscript": "{}[]", "zig": "[]{}", "swift": "[{}]"}
LANGS = list(BASE)


def types(p):
    return list(p.structs.values()) + p.msgs


def expected(lang, p, st, rename=True):
    """[(member, type)] in order"""
    out = []
    if lang == "c":
        px = lang_c.prefix(p)
        if any(m is st for m in p.msgs):
            out.append(("_mt", px + "MessageType"))
        for m in st.members:
            t = lang_c.ctype(p, m.type)
            ls, ss = lang_c.CT[p.lst], lang_c.CT[p.sst]
            if m.is_list:
                out.append((m.name + "_len", ls))
                if m.type == "string":
                    out.append((m.name + "_els_len", ss + "*"))
                out.append((m.name, t + "*"))
            else:
                if m.type == "string":
                    out.append((m.name + "_len", ss))
                out.append((m.name, t))
        return out
    nm = {"go": lang_go.cap, "rust": lang_rust.snake}.get(lang, lambda s: s) if rename else lambda s: s
    for m in st.members:
        t = BASE[lang].get(m.type, m.type)
        out.append((nm(m.name), LIST[lang].format(t) if m.is_list else t))
    return out


def width(e):
    vs = [v for _, v in e.values]
    return "byte" if min(vs) >= 0 and max(vs) <= 255 else "int16" if min(vs) >= -32768 and max(vs) <= 32767 else "int32"


def expected_enum(lang, p, e):
    """[(name, value)] with the documented underlying type first, where the language has one to show"""
    ty = {"csharp": BASE["csharp"], "go": BASE["go"], "rust": BASE["rust"], "zig": BASE["zig"], "swift": BASE["swift"], "c": None, "typescript": None, "assemblyscript": None}[lang]
    return ([("", ty[width(e)])] if ty else []) + [(n, v) for n, v in e.values]


def parse(out):
    """lines 'k T owner name type' and 'k E owner name value'"""
    got = {}
    for l in out.splitlines():
        f = l.split("\t")
        if len(f) == 5:
            got.setdefault((int(f[0]), f[1], f[2]), []).append((f[3], f[4]))
        elif l.strip():
            raise RuntimeError("unexpected output: " + l[:200])
    return got


def gen(lang, protos, root, ext, extra):
    os.makedirs(root, exist_ok=True)
    return common.pmap(lambda k: engine.generate(lang, protos[k].toml(), root, f"p{k}", ext, extra), range(len(protos)))


def must(lang, r, what="compile"):
    if r.timeout:
        raise engine.Unavailable(f"{lang}: time out in {what}")
    if r.rc != 0:
        raise BuildError(lang, what, "\n".join([l for l in (r.out + r.err).splitlines() if "error" in l.lower()][:12]) or (r.out + r.err)[:2000])
    return r.out


def c(protos, root, extra=(), rename=True):
    files = gen("c", protos, root, ".h", extra)

    def one(k):
        p = protos[k]
        px = lang_c.prefix(p)
        names = list(lang_c.CT.values()) + ["char", px + "MessageType"] + [px + n for n in list(p.enums) + list(p.structs)]
        o = [f"#define {px.upper()}IMPLEMENTATION", f'#include "{os.path.basename(files[k])}"', "#include <stdio.h>", "#include <stddef.h>", "#define IS(e, T) __builtin_types_compatible_p(__typeof__(e), T)", "int main(void) {"]
        for s in types(p):
            T = px + s.name
            o.append("{ size_t at = 0; (void)at;")
            for i, (n, want) in enumerate(expected("c", p, s)):
                tests = " : ".join([f'IS((({T}*)0)->{n}, {want}) ? "{want}"'] + [f'IS((({T}*)0)->{n}, {t}{q}) ? "{t}{q}"' for t in names for q in ("", "*", "**")])
                # a member out of its place is reported as such
                first = f'offsetof({T}, {n}) == 0' if i == 0 else f'offsetof({T}, {n}) > at'
                o.append(f'printf("{k}\\tT\\t{s.name}\\t{n}\\t%s%s\\n", {tests} : "?", {first} ? "" : " out of order"); at = offsetof({T}, {n});')
            # nothing else is in there: a struct of the same members is as large
            o.append(f"struct same {{ " + " ".join(f"__typeof__((({T}*)0)->{n}) {n};" for n, _ in expected("c", p, s)) + " };")
            o.append(f'if (sizeof({T}) != {"sizeof(struct same)" if expected("c", p, s) else "sizeof(struct { char c; })"} && {len(s.members)}) printf("{k}\\tT\\t{s.name}\\tsize\\t%zu\\n", sizeof({T}));')
            o.append("}")
        for e in p.enums.values():
            for n, v in e.values:
                o.append(f'printf("{k}\\tE\\t{e.name}\\t{n}\\t%ld\\n", (long){px}{e.name}_{n});')
        o.append("return 0; }")
        src = os.path.join(root, f"i{k}.c")
        open(src, "w").write("\n".join(o))
        must("c", common.run(["gcc", "-std=gnu99", "-w", "-o", src[:-2], src], cwd=root, timeout=300))
        return must("c", common.run([src[:-2]], timeout=60), "run")
    return parse("".join(common.pmap(one, range(len(protos)))))


CS = r'''
using System; using System.Collections.Generic; using System.Reflection;
static class Iface {
    static string N(Type t) { return t.IsGenericType && t.GetGenericTypeDefinition() == typeof(List<>) ? "List<" + N(t.GetGenericArguments()[0]) + ">" : t.Name; }
    static void T(int k, Type t) {
        var l = new List<MemberInfo>(t.GetFields(BindingFlags.Public | BindingFlags.Instance)); l.AddRange(t.GetProperties(BindingFlags.Public | BindingFlags.Instance));
        l.Sort((a, b) => a.MetadataToken.CompareTo(b.MetadataToken));
        foreach (var m in l) Console.WriteLine(k + "\tT\t" + t.Name + "\t" + m.Name + "\t" + N(m is FieldInfo ? ((FieldInfo)m).FieldType : ((PropertyInfo)m).PropertyType));
    }
    static void E(int k, Type t) {
        Console.WriteLine(k + "\tE\t" + t.Name + "\t\t" + Enum.GetUnderlyingType(t).Name);
        foreach (var f in t.GetFields(BindingFlags.Public | BindingFlags.Static)) Console.WriteLine(k + "\tE\t" + t.Name + "\t" + f.Name + "\t" + Convert.ToInt64(f.GetRawConstantValue()));
    }
    public static void Main() {
@BODY@
    }
}
'''


def csharp(protos, root, extra=(), rename=True):
    files = gen("csharp", protos, root, ".cs", extra)
    o = []
    for k, p in enumerate(protos):
        q = f"global::{p.ns}." if p.ns is not None else "global::"
        o += [f"        T({k}, typeof({q}{s.name}));" for s in types(p)] + [f"        E({k}, typeof({q}{e}));" for e in p.enums]
    main = os.path.join(root, "iface.cs")
    open(main, "w").write(CS.replace("@BODY@", "\n".join(o)))
    must("csharp", lang_cs.compile_cs(files + [main], os.path.join(root, "iface.dll"), root))
    return parse(must("csharp", common.run(["dotnet", "exec", os.path.join(root, "iface.dll")], timeout=120), "run"))


GO = r'''
import ("fmt"; "os"; "reflect"; "strings")
type ifaceNum interface { ~uint8 | ~int16 | ~int32 | ~int8 | ~uint16 | ~uint32 | ~int64 | ~uint64 | ~int | ~uint }
func ifaceT(k int, n string, t reflect.Type) {
	for i := 0; i < t.NumField(); i++ { f := t.Field(i); fmt.Fprintf(os.Stdout, "%d\tT\t%s\t%s\t%s\n", k, n, f.Name, strings.ReplaceAll(f.Type.String(), "@PKG@.", "")) }
}
func ifaceE[V ifaceNum](k int, n string, c string, v V) { fmt.Fprintf(os.Stdout, "%d\tE\t%s\t%s\t%d\n", k, n, c, int64(v)) }
func Iface() {
@BODY@
}
'''


def go(protos, root, extra=(), rename=True):
    dirs = []
    for k, p in enumerate(protos):
        d = os.path.join(root, f"p{k}")
        os.makedirs(d, exist_ok=True)
        g = engine.generate("go", p.toml(), d, "gen", ".go", extra)
        pkg = re.search(r"^package\s+(\w+)", open(g).read(), re.M).group(1)
        o = [f"\tifaceT({k}, \"{s.name}\", reflect.TypeOf(New{s.name}Default()))" for s in types(p)]
        for e in p.enums.values():
            o.append(f'\tfmt.Fprintf(os.Stdout, "{k}\\tE\\t{e.name}\\t\\t%s\\n", reflect.TypeOf({e.name}{e.values[0][0]}).Kind())')
            o += [f'\tifaceE({k}, "{e.name}", "{n}", {e.name}{n})' for n, _ in e.values]
        open(os.path.join(d, "iface.go"), "w").write(f"package {pkg}\n" + GO.replace("@PKG@", pkg).replace("@BODY@", "\n".join(o)))
        dirs.append(pkg)
    open(os.path.join(root, "go.mod"), "w").write("module iface\n\ngo 1.23\n")
    main = os.path.join(root, "main.go")
    # a package is known by its namespace
    open(main, "w").write("package main\n" + "\n".join(f'import p{k} "iface/p{k}"' for k in range(len(protos))) + "\nfunc main() {\n" + "\n".join(f"p{k}.Iface()" for k in range(len(protos))) + "\n}\n")
    env = {"GOCACHE": "/root/.cache/go-build"} if os.path.isdir("/root/.cache/go-build") and os.access("/root/.cache/go-build", os.W_OK) else {}
    must("go", common.run(["go", "build", "-o", "iface.exe", "."], cwd=root, env=env, timeout=600))
    got = parse(must("go", common.run([os.path.join(root, "iface.exe")], timeout=60), "run"))
    for k, p in enumerate(protos):
        if p.ns is not None:
            got[(k, "P", "package")] = [(dirs[k], "")]
    return got


def rust(protos, root, extra=(), rename=True):
    gen("rust", protos, root, ".rs", extra)
    nm = lang_rust.snake if rename else lambda s: s
    o = ["#![allow(warnings)]", "fn tn<T>(_: &T) -> String { let mut o = String::new(); let mut w = String::new(); for c in std::any::type_name::<T>().chars() { if c.is_alphanumeric() || c == '_' || c == '#' { w.push(c) } else if c == ':' { w.clear() } else { o.push_str(&w); w.clear(); o.push(c) } } o.push_str(&w); o }"]
    o += [f"mod p{k};" for k in range(len(protos))] + ["fn main() {"]
    for k, p in enumerate(protos):
        for s in types(p):
            # the pattern without .. holds the struct to exactly these members
            o.append(f"{{ let v = p{k}::{s.name}::default(); match &v {{ p{k}::{s.name} {{ {', '.join(nm(m.name) + ': m' + str(i) for i, m in enumerate(s.members))} }} => {{")
            o += [f'println!("{k}\\tT\\t{s.name}\\t{nm(m.name)}\\t{{}}", tn(m{i}));' for i, m in enumerate(s.members)]
            o.append("} } }")
        for e in p.enums.values():
            o.append(f'println!("{k}\\tE\\t{e.name}\\t\\t{{}}", ["", "u8", "i16", "", "i32"][std::mem::size_of::<p{k}::{e.name}>()]);')
            o += [f'println!("{k}\\tE\\t{e.name}\\t{n}\\t{{}}", p{k}::{e.name}::{n} as i64);' for n, _ in e.values]
            o.append(f"{{ let e = p{k}::{e.name}::{e.values[0][0]}; match e {{ {', '.join(f'p{k}::{e.name}::{n} => ()' for n, _ in e.values)} }} }}")
    o.append("}")
    src = os.path.join(root, "iface.rs")
    open(src, "w").write("\n".join(o))
    must("rust", common.run(["rustc", "--edition", "2021", "-C", "debuginfo=0", "-o", src[:-3], src], cwd=root, timeout=600))
    return parse(must("rust", common.run([src[:-3]], timeout=60), "run"))


def zig(protos, root, extra=(), rename=True):
    gen("zig", protos, root, ".zig", extra)
    o = ['const std = @import("std");', "var out: std.io.AnyWriter = undefined;", 'const eql = std.mem.eql;',
         # the last part of a qualified name, keeping what makes it a slice
         'fn short(comptime T: type) []const u8 { const i = @typeInfo(T); if (i == .Pointer and i.Pointer.size == .Slice) return "[]" ++ (if (i.Pointer.is_const) "const " else "") ++ short(i.Pointer.child); const n = @typeName(T); return if (std.mem.lastIndexOfScalar(u8, n, \'.\')) |d| n[d + 1 ..] else n; }',
         'fn desc(comptime k: u32, comptime n: []const u8, comptime S: type) void { inline for (std.meta.fields(S)) |f| out.print("{d}\\tT\\t{s}\\t{s}\\t{s}\\n", .{ k, n, f.name, comptime short(f.type) }) catch unreachable; }',
         'fn cons(comptime k: u32, comptime n: []const u8, comptime S: type) void { out.print("{d}\\tE\\t{s}\\t\\t{s}\\n", .{ k, n, @typeName(@typeInfo(S).Enum.tag_type) }) catch unreachable; inline for (std.meta.fields(S)) |f| out.print("{d}\\tE\\t{s}\\t{s}\\t{d}\\n", .{ k, n, f.name, @as(i64, @intFromEnum(@field(S, f.name))) }) catch unreachable; }',
         "pub fn main() !void { @setEvalBranchQuota(10000000); var bw = std.io.bufferedWriter(std.io.getStdOut().writer()); const w = bw.writer(); out = w.any();"]
    for k, p in enumerate(protos):
        o += [f'desc({k}, "{s.name}", @import("p{k}.zig").{s.name});' for s in types(p)] + [f'cons({k}, "{e}", @import("p{k}.zig").{e});' for e in p.enums]
    o.append("try bw.flush(); }")
    src = os.path.join(root, "iface.zig")
    open(src, "w").write("\n".join(o))
    must("zig", common.run(["zig", "build-exe", "-ODebug", f"-femit-bin={src[:-4]}", src], cwd=root, timeout=600))
    return parse(must("zig", common.run([src[:-4]], timeout=60), "run"))


# the compiler's own idea of every member's type; the numeric types of AssemblyScript are declared apart from one another
JS = r'''
import { createRequire } from "module"; import fs from "fs";
const require = createRequire("@NM@/x.js"); const ts = require("typescript");
const [, , as, ...files] = process.argv;
const options = { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, noEmit: true, strict: true, skipLibCheck: true, types: [] };
const prog = ts.createProgram(as === "as" ? [...files, "@ROOT@/num.d.ts"] : files, options); const ck = prog.getTypeChecker();
let out = "";
files.forEach((f, k) => {
  const sf = prog.getSourceFile(f); const top = ck.getSymbolAtLocation(sf);
  let list = top ? ck.getExportsOfModule(top) : ck.getSymbolsInScope(sf, ts.SymbolFlags.Namespace | ts.SymbolFlags.Class | ts.SymbolFlags.Enum).filter((s) => s.declarations?.some((d) => d.getSourceFile() === sf));
  list = list.flatMap((s) => s.flags & ts.SymbolFlags.Module && !(s.flags & (ts.SymbolFlags.Class | ts.SymbolFlags.Enum)) ? (out += `${k}\tP\tpackage\t${s.name}\t\n`, ck.getExportsOfModule(s)) : [s]);
  for (const s of list) {
    if (s.flags & ts.SymbolFlags.Class) {
      for (const q of ck.getDeclaredTypeOfSymbol(s).getProperties()) {
        if (!(q.flags & (ts.SymbolFlags.Property | ts.SymbolFlags.Accessor))) continue;
        const d = q.valueDeclaration ?? q.declarations?.[0]; if (!d) continue; if (ts.getCombinedModifierFlags(d) & (ts.ModifierFlags.Private | ts.ModifierFlags.Protected)) continue;
        // [] of something reads as Array<> where Array is AssemblyScript's
        out += `${k}\tT\t${s.name}\t${q.name}\t${ck.typeToString(ck.getTypeOfSymbolAtLocation(q, d)).replace(/^Array<(.*)>$/, "$1[]").replace(/\w+\./g, "")}\n`;
      }
    } else if (s.flags & ts.SymbolFlags.Enum) {
      for (const m of s.exports.values()) out += `${k}\tE\t${s.name}\t${m.name}\t${ck.getConstantValue(m.valueDeclaration)}\n`;
    }
  }
});
fs.writeSync(1, out);
'''


def js(lang, protos, root, extra=()):
    files = gen(lang, protos, root, ".ts", extra)
    open(os.path.join(root, "iface.mjs"), "w").write(JS.replace("@NM@", lang_js.NODE_MODULES).replace("@ROOT@", root))
    # `number` is what a literal is; a class of its own name per type keeps u8 and u16 apart
    open(os.path.join(root, "num.d.ts"), "w").write("\n".join(f"declare class {t} {{ private readonly {t}_: never; }}" for t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bool", "usize", "isize")))
    got = parse(must(lang, common.run(["node", os.path.join(root, "iface.mjs"), "as" if lang == "assemblyscript" else "ts"] + files, cwd=root, timeout=300), "ask the compiler"))
    return got


def typescript(protos, root, extra=(), rename=True):
    return js("typescript", protos, root, extra)


def assemblyscript(protos, root, extra=(), rename=True):
    return js("assemblyscript", protos, root, extra)


def swift(protos, root, extra=(), rename=True):
    """there is no Swift compiler here: the declarations as our own front end of Swift understands them"""
    files = gen("swift", protos, root, ".swift", extra)
    got = {}

    def ty(t):
        # an unannotated or unusual type is not held against the code
        if t and t[0] == "array":
            return f"[{ty(t[1])}]"
        return {"Float": "Float32", "Double": "Float64"}.get(t[1][-1], t[1][-1]) if t and t[0] == "name" and not t[2] else "?"

    def num(e, last):
        if e is None:
            return last + 1 if isinstance(last, int) else "?"
        if e[0] == "int":
            return e[1]
        return -e[2][1] if e[0] == "unary" and e[1] == "-" and e[2][0] == "int" else "?"

    def walk(k, ds):
        for d in ds:
            if d[0] == "ext":
                walk(k, d[3])
            if d[0] != "type":
                continue
            kind, name, inh, ms = d[1:5]
            if kind in ("struct", "class"):
                for m in ms:
                    if m[0] == "var" and not m[3] and not {"static", "private", "fileprivate"} & set(m[4] or ()):
                        got.setdefault((k, "T", name), []).extend((n, ty(t)) for n, t, _ in m[1] if isinstance(n, str))
            elif kind == "enum":
                last = -1
                for m in ms:
                    if m[0] == "case":
                        if (k, "E", name) not in got:
                            got[(k, "E", name)] = [("", ty(inh[0]) if inh else "?")]
                        last = num(m[2], last)
                        got[(k, "E", name)].append((m[1], str(last)))
            walk(k, ms)
    for k, f in enumerate(files):
        try:
            walk(k, swift_front.Parser(open(f, encoding="utf-8").read()).module())
        except (swift_front.Unsupported, RecursionError) as e:
            got[(k, "SKIP", "")] = str(e)
    return got


def observe(lang, protos, root, extra=(), rename=True):
    os.makedirs(root, exist_ok=True)
    return globals()[lang](protos, root, extra, rename)
