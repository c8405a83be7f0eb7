"""C13: everything the generator accepts compiles, strictly for C and C++."""
import json, os, re
from mon import harness as H, model, common, engine, lang_swift
from mon.lang_cs import compile_cs
from mon.model import Member as M, Struct, Enum, Proto

# member names that generated code might be using itself, and that are legal identifiers in every target language
NAMES = ["el", "err", "size", "s", "i", "i0", "i1", "i2", "idx", "j", "n", "len", "data", "reader", "writer", "buffer", "tag", "da", "offset", "position", "value", "result", "msg", "message", "output",
         "input", "count", "bytes", "b", "r", "w", "e", "ret", "length", "allocator", "offs", "local_offset", "total", "temp", "tmp", "m", "d", "da_w", "bytes_read", "retval", "max", "type_", "name", "num",
         "errors", "header", "kind", "text", "out_", "src", "dst", "ptr", "info", "item", "items", "elem", "list_", "lst", "str_", "st", "x", "y", "_z"[1:], "key", "val", "pos", "end", "start", "res", "obj"]

SUFFIXES = ["_read", "_Length", "_Buffer", "_buffer", "_length", "_size", "_i", "_el", "_val", "_tmp", "Length", "_count", "_bytes", "_buf", "_idx", "_offset", "_value", "2", "_0", "_ptr", "_enum", "_raw", "Read", "Count", "Size", "Value", "List", "_list", "_item", "_struct", "_string", "s"]


def paired(ns, lst, sst, suffixes, cross):
    """for every suffix: members that are called the same but for it, of the same kind or (cross) of every two kinds"""
    kinds = [("Role", False), ("Role", True), ("string", False), ("string", True), ("Inner", False), ("Inner", True), ("Flat", False), ("Flat", True), ("byte", True), ("double", False)]
    msgs = []
    for n, s in enumerate(suffixes):
        ms = []
        for i, a in enumerate(kinds):
            for j, b in enumerate(kinds):
                if i == j or (cross and i < 8 and j < 8):
                    w = "%s%s" % ("abcdefghkl"[i], "abcdefghkl"[j])
                    ms += [M("v" + w, *a), M("v" + w + s, *b)]
        msgs.append(Struct(f"Pair{n}", ms))
    return Proto(ns, [Enum("Role", [("Able", 3), ("Baker", 0)])], [Struct("Flat", [M("p", "byte"), M("q", "Role")]), Struct("Inner", [M("t", "string"), M("ts", "Flat", True)])], msgs, lst, sst)


def hygiene(rng, ns, lst, sst, names):
    """the given names in every role: scalar, string, list, struct, list of structs, at the top and nested"""
    e = Enum("Role", [("Able", 3), ("Baker", 0)])
    kinds = [("byte", False), ("string", False), ("double", True), ("string", True), ("Role", False), ("Role", True), ("Inner", False), ("Inner", True), ("Flat", False), ("Flat", True), ("bool", True)]
    pick = lambda ns_, ks: [M(n, *rng.choice(ks)) for n in ns_]
    flat = Struct("Flat", pick(rng.sample(names, min(4, len(names))), [("byte", False), ("Role", False), ("int64", False)]))
    inner = Struct("Inner", pick(rng.sample(names, min(6, len(names))), kinds[:6]))
    mid = Struct("Mid", pick(rng.sample(names, min(6, len(names))), kinds))
    top = Struct("Top", pick(names, kinds + [("Mid", False), ("Mid", True)]))
    return Proto(ns, [e], [mid, inner, flat], [top, Struct("FlatMsg", pick(names[:5], [("byte", False), ("Role", False), ("Flat", False)]))], lst, sst)


def protocols(ck):
    rng = ck.rng
    ps = []
    ps += H.suite(ck, ck.budget(4, 14), core=ck.budget(2, 4), big=True)
    names = [n for n in dict.fromkeys(NAMES) if n]
    # members whose names only differ by something a generator might append or prepend
    for n in rng.sample(names, 14):
        names.append(n + rng.choice(SUFFIXES))
        names.append(rng.choice(["n", "new_", "read_", "write_", "get_", "set_", "tmp_", "my", "m_", "the_", "num_"]) + n)
    names = list(dict.fromkeys(names))
    rng.shuffle(names)
    per = ck.budget(24, 12)
    for i in range(0, len(names), per):
        ps.append(hygiene(rng, f"Hyg{i}", *H.size_pair(rng), names[i:i + per]))
    some = rng.sample(SUFFIXES, ck.budget(3, len(SUFFIXES)))
    ps.append(paired("Pairs", *H.size_pair(rng), SUFFIXES, False))
    ps.append(paired("Crossed", *H.size_pair(rng), some, True))
    E = lambda: Enum("Mode", [("Able", 9), ("Baker", 3), ("Charlie", -5)])
    ps.append(Proto("OnlyStructs", [E()], [Struct("Alpha", [M("a", "Mode"), M("b", "[string]"[1:-1], True)]), Struct("Beta", [M("x", "Alpha", True), M("y", "float")])], []))
    ps.append(Proto("OnlyEnums", [E(), Enum("Kind", [("Delta", 0), ("Echo", 1)], explicit=False)], [], []))
    ps.append(Proto("Nothing", [], [], []))
    ps.append(Proto("OneEmpty", [], [], [Struct("Ping", [])]))
    ps.append(Proto("EmptyStructs", [], [Struct("Hollow", [])], [Struct("Holder", [M("a", "Hollow"), M("b", "Hollow", True), M("c", "byte")]), Struct("Only", [M("a", "Hollow")])]))
    ps.append(Proto("ManyMessages", [E()], [], [Struct(f"Msg{i}", [M("a", rng.choice(["byte", "string", "Mode", "uint64"]), rng.random() < 0.3)] if i % 3 else []) for i in range(255)]))
    # structs used before they are declared, in every order
    sts = [Struct("Last", [M("v", "int16"), M("t", "string")]), Struct("Third", [M("l", "Last"), M("ls", "Last", True)]), Struct("Second", [M("t", "Third", True), M("p", "Plain")]),
           Struct("Plain", [M("a", "byte"), M("m", "Mode")]), Struct("First", [M("s", "Second"), M("p", "Plain", True)])]
    rng.shuffle(sts)
    q = Proto("Shuffled", [E()], sts, [Struct("Wrap", [M("f", "First"), M("s", "Second", True)])])
    q.order = rng.choice([("messages", "structs", "enums"), ("structs", "messages", "enums"), ("messages", "enums", "structs")])
    ps.append(q)
    for t in model.SIZE_TYPES if ck.thorough else rng.sample(model.SIZE_TYPES, 3):
        u = rng.choice(model.SIZE_TYPES)
        p = model.gen_proto(rng, f"Size_{t}_{u}", t, u)
        ps.append(p)
    # every single type as the only thing in a message, alone and listed
    ps.append(Proto("Singles", [E()], [Struct("Pod", [M("x", "float")]), Struct("Rich", [M("x", "string")])],
                    [Struct(f"S{i}{'l' if l else ''}", [M("only", t, l)]) for i, t in enumerate(model.BASE + ["string", "Mode", "Pod", "Rich"]) for l in (False, True)], *H.size_pair(rng)))
    for i, (t, l) in enumerate([("byte", True), ("string", False), ("Mode", False), ("bool", False), ("Mode", True)] if not ck.thorough else
                               [(t, l) for t in model.BASE + ["string", "Mode"] for l in (False, True)]):
        ps.append(Proto(f"Lone{i}", [E()] if t == "Mode" else [], [], [Struct("Just", [M("only", t, l)])], *H.size_pair(rng)))
    return ps


INDENTS = ["\t", " ", "  ", "   ", "        "]
LANG_OPTS = {"go": ["--go-no-rename"], "rust": ["--rust-no-rename"], "typescript": ["--typescript-use-namespace"]}
CFLAGS = ["-pedantic-errors", "-Wall", "-Wextra", "-Werror", "-O0", "-Wno-unused-parameter"]
C99 = ["gcc-13", "-std=c99", "-Wno-declaration-after-statement"] + CFLAGS
C11 = ["gcc-13", "-std=c17"] + CFLAGS
CXX = ["g++-13", "-x", "c++", "-std=c++20"] + CFLAGS
CLANG = ["clang", "-std=c99", "-pedantic-errors", "-Wall", "-Wextra", "-Werror", "-Wno-unused-parameter"]
AS_DTS = """
declare type u8 = number; declare type i8 = number; declare type u16 = number; declare type i16 = number; declare type u32 = number; declare type i32 = number;
declare type u64 = number; declare type i64 = number; declare type f32 = number; declare type f64 = number; declare type bool = any; declare type usize = number; declare type isize = number;
interface StringConstructor { UTF8: { encode(s: string, nul?: boolean): ArrayBuffer; decode(b: ArrayBuffer, nul?: boolean): string; decodeUnsafe(p: usize, n: usize): string; byteLength(s: string, nul?: boolean): i32; }; }
interface Uint8ArrayConstructor { wrap(b: ArrayBuffer, off?: i32, n?: i32): Uint8Array; }
interface DataView { getInt64(o: i32, le?: boolean): i64; getUint64(o: i32, le?: boolean): u64; setInt64(o: i32, v: i64, le?: boolean): void; setUint64(o: i32, v: u64, le?: boolean): void; }
interface StaticArray<T> extends Array<T> { }
declare function unreachable(): never; declare function changetype<T>(v: any): T; declare function assert<T>(v: T, m?: string): T; declare function abort(m?: string | null): never; declare function trace(m: string): void;
"""


def first_error(out):
    ls = [l for l in out.splitlines() if re.search(r"error|warning|panic|TS\d{4}", l)]
    return "\n".join((ls or out.splitlines())[:6])


class Item:
    """one generated source: protocol, language, options"""
    def __init__(self, k, p, lang, opts, text, ns):
        self.k, self.p, self.lang, self.opts, self.text, self.ns = k, p, lang, opts, text, ns
        self.path = None
        self.bad = None

    def sub(self, ck, what, log, how):
        ck.violation(f"{self.lang}: does not compile ({how})", lang=self.lang, args=self.opts, protocol_text=self.text, got=first_error(log)[:3000])


def main():
    ck = H.Check("C13", rule="a case is one generated source (protocol, language, options) given to one compiler in one mode; protocols: random ones, the every-type-in-every-place one, members named "
                 "like the generated code's own variables, no messages, no members, no namespace, 255 messages, structs in shuffled order, size types, one lone member of each type; a case counts "
                 "as non-trivial when the protocol declares something")
    rng = ck.rng
    ps = protocols(ck)
    items = []
    root = common.subdir("c13")
    for k, p in enumerate(ps):
        for lang in model.ALL_LANGS:
            variants = [[]]
            r = rng.random()
            o = []
            if r < 0.8 or ck.thorough:
                if rng.random() < 0.5:
                    o += ["--indent", rng.choice(INDENTS)]
                if rng.random() < 0.4:
                    o += ["--embed-protocol"]
                if rng.random() < 0.5:
                    o += LANG_OPTS.get(lang, [])
                if o:
                    variants.append(o)
            for v, opts in enumerate(variants):
                ns = f"{p.ns}V{v}" if p.ns else None
                # the same namespace twice would collide when all sources of a language are compiled together
                extra = ["--namespace", ns] if v else []
                items.append(Item(k, p, lang, list(opts) + extra, p.toml(comments=["a comment", "with */ and /*"]), ns if v else p.ns))
    # protocols without any namespace: alone in their compilation
    for k in range(ck.budget(2, 5)):
        p = model.gen_proto(rng, None, *H.size_pair(rng), out_of_order=True)
        for lang in model.ALL_LANGS:
            items.append(Item(len(ps) + k, p, lang, [], p.toml(), None))
            if lang in LANG_OPTS:
                items.append(Item(len(ps) + k, p, lang, LANG_OPTS[lang], p.toml(), None))
    ext = {"c": ".h", "csharp": ".cs", "go": ".go", "rust": ".rs", "swift": ".swift", "typescript": ".ts", "assemblyscript": ".ts", "zig": ".zig"}

    def gen(n):
        it = items[n]
        d = common.subdir("c13", f"{it.lang}{n}")
        try:
            it.path = engine.generate(it.lang, it.text, d, f"g{n}", ext[it.lang], it.opts)
        except engine.BuildError as e:
            it.bad = str(e)
        it.dir, it.n = d, n
    common.pmap(gen, range(len(items)))
    for it in items:
        ck.count(f"generated {it.lang}")
        if it.bad:
            ck.violation(f"{it.lang}: accepted protocol is not generated", lang=it.lang, args=it.opts, protocol_text=it.text, got=it.bad[:3000])
    by = {l: [it for it in items if it.lang == l and not it.bad] for l in model.ALL_LANGS}

    def ok(it, how):
        ck.count(f"{it.lang} {how}")
        ck.observe((it.lang, it.text, tuple(it.opts), how), {"lang": it.lang, "options": it.opts, "compiled as": how, "protocol": it.p.describe()[:500]},
                   trivial=not (it.p.structs or it.p.messages or it.p.enums))

    def solo(it, how, cmd, cwd=None, env=None):
        r = common.run(cmd, cwd=cwd or it.dir, env=env, timeout=300)
        if r.timeout:
            ck.inconclusive.append(f"{it.lang}: compiler time out")
            return
        ok(it, how)
        if r.rc != 0:
            it.sub(ck, how, r.out + r.err, how)

    # ---- C: header alone, implementation, two unrelated protocols together; C99, C17, C++20, clang
    def c_one(it):
        h = os.path.basename(it.path)
        pre = (it.ns.upper() + "_") if it.ns else ""
        m = re.search(r"#if(?:def| defined\()\s*(\w*IMPLEMENTATION)", open(it.path, encoding="utf-8").read())
        guard = m.group(1) if m else pre + "IMPLEMENTATION"
        hdr, imp = os.path.join(it.dir, "hdr.c"), os.path.join(it.dir, "imp.c")
        open(hdr, "w").write(f'#include "{h}"\n#include "{h}"\nint beschi_only_header(void);\nint beschi_only_header(void) {{ return 0; }}\n')
        open(imp, "w").write(f'#define {guard}\n#include "{h}"\n')
        it.guard = guard
        o = ["-I", it.dir, "-c", "-o", "/dev/null"]
        for how, cc in (("C99", C99), ("C++20", CXX)) + ((("C17", C17), ("clang", CLANG)) if ck.thorough or it.n % 3 == 0 else ()):
            solo(it, how, cc + o + [imp])
        solo(it, "C99 header", C99 + o + [hdr])
        if ck.thorough or it.n % 2 == 0:
            solo(it, "C++20 header", CXX + o + [hdr])

    def c_pairs(its):
        """the same two protocols in one program: declarations in one file, the implementations in another"""
        a, b = its
        d = common.subdir("c13", f"pair{a.n}_{b.n}")
        ia, ib = os.path.basename(a.path), os.path.basename(b.path)
        open(d + "/both.c", "w").write(f'#define {a.guard}\n#define {b.guard}\n#include "{ia}"\n#include "{ib}"\n')
        open(d + "/user.c", "w").write(f'#include "{ib}"\n#include "{ia}"\nint main(void) {{ return 0; }}\n')
        for how, cc in (("two in one program, C99", C99), ("two in one program, C++20", CXX)):
            r = common.run(cc + ["-I", a.dir, "-I", b.dir, "-o", d + "/x", d + "/both.c", d + "/user.c"], cwd=d)
            ok(a, how)
            if r.rc != 0:
                a.sub(ck, how, r.err, how)

    # ---- the others are compiled together, and one by one only if that fails
    def together(lang, its, how, batch, single):
        if not its:
            return
        r = batch(its)
        if r.timeout:
            ck.inconclusive.append(f"{lang}: compiler time out")
            return
        for it in its:
            ok(it, how)
        if r.rc != 0:
            n0 = len(ck.violations)
            for it in its:
                r1 = single(it)
                if r1.rc != 0:
                    it.sub(ck, how, r1.out + r1.err, how)
                if len(ck.violations) - n0 > 5:
                    break
            if len(ck.violations) == n0:
                ck.violation(f"{lang}: sources compile one by one, but not together ({how})", lang=lang, got=first_error(r.out + r.err)[:3000])

    def do_c():
        common.pmap(c_one, by["c"], 4)
        named = [it for it in by["c"] if it.ns]
        pairs = [(named[i], named[(i * 7 + 3) % len(named)]) for i in range(0, len(named), ck.budget(5, 2))]
        pairs = [(a, b) for a, b in pairs if a.ns != b.ns]
        common.pmap(c_pairs, pairs, 4)

    def do_cs():
        named = [it for it in by["csharp"] if it.ns]
        for_all = lambda its, name: compile_cs([it.path for it in its], os.path.join(root, f"{name}.dll"), root, target="library", warnaserror=False)
        together("csharp", named, "csc", lambda its: for_all(its, "all"), lambda it: for_all([it], f"one{it.n}"))
        for it in [it for it in by["csharp"] if not it.ns]:
            together("csharp", [it], "csc", lambda its: for_all(its, f"none{its[0].n}"), lambda it: for_all([it], f"none{it.n}"))

    def do_go():
        d = common.subdir("c13go")
        open(d + "/go.mod", "w").write("module drv\n\ngo 1.23\n")
        for it in by["go"]:
            os.makedirs(f"{d}/g{it.n}", exist_ok=True)
            os.replace(it.path, f"{d}/g{it.n}/gen.go")
        env = {"GOCACHE": "/root/.cache/go-build"} if os.access("/root/.cache/go-build", os.W_OK) else {}
        together("go", by["go"], "go build", lambda its: common.run(["go", "build", "./..."], cwd=d, env=env, timeout=600), lambda it: common.run(["go", "build", f"./g{it.n}"], cwd=d, env=env, timeout=300))
        together("go", by["go"], "go vet", lambda its: common.run(["go", "vet", "./..."], cwd=d, env=env, timeout=600), lambda it: common.run(["go", "vet", f"./g{it.n}"], cwd=d, env=env, timeout=300))

    def do_rust():
        def comp(its, name, edition="2021"):
            src = os.path.join(root, name + ".rs")
            open(src, "w").write("#![allow(warnings)]\n" + "".join(f'#[path = "{it.path}"] pub mod g{it.n};\n' for it in its))
            return common.run(["rustc", "--edition", edition, "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(root, name + ".rmeta"), src], cwd=root, timeout=600)
        for g in range(3):
            together("rust", by["rust"][g::3], "rustc 2021", lambda its, g=g: comp(its, f"all{g}"), lambda it: comp([it], f"one{it.n}"))
        if ck.thorough:
            together("rust", by["rust"], "rustc 2024", lambda its: comp(its, "e2024", "2024"), lambda it: comp([it], f"o24{it.n}", "2024"))

    TS = {"module": "umd", "target": "es2020", "moduleResolution": "node", "ignoreDeprecations": "5.0", "lib": ["es2020", "dom"], "types": [], "esModuleInterop": True, "noImplicitAny": True, "noEmit": True,
          "noErrorTruncation": True, "noFallthroughCasesInSwitch": True, "noPropertyAccessFromIndexSignature": True, "noImplicitOverride": True, "noImplicitReturns": True, "noImplicitThis": True}

    def tsc(its, name, opts, pre=()):
        cfg = os.path.join(root, f"tsconfig.{name}.json")
        json.dump({"compilerOptions": opts, "files": list(pre) + [it.path for it in its]}, open(cfg, "w"))
        return common.run(["node", "/opt/veriftools/node/node_modules/typescript/bin/tsc", "-p", cfg], cwd=root, timeout=300)

    def do_ts():
        together("typescript", by["typescript"], "tsc", lambda its: tsc(its, "ts", TS), lambda it: tsc([it], f"ts{it.n}", TS))
        together("typescript", by["typescript"], "tsc strict null checks", lambda its: tsc(its, "tsn", {**TS, "strictNullChecks": True}), lambda it: tsc([it], f"tsn{it.n}", {**TS, "strictNullChecks": True}))

    def do_as():
        dts = os.path.join(root, "as.d.ts")
        open(dts, "w").write(AS_DTS)
        opts = {**TS, "lib": ["es2020"], "strictNullChecks": True, "noFallthroughCasesInSwitch": False}

        def run(its, name):
            r = tsc(its, name, opts, [dts])
            ls = [l for l in r.out.splitlines() if re.search(r"error TS", l) and "TS2352" not in l]
            r.out = "\n".join(ls)
            r.rc = 1 if ls else (0 if "error TS" in r.out or r.rc in (0, 1, 2) else r.rc)
            return r
        together("assemblyscript", by["assemblyscript"], "type check as AssemblyScript", lambda its: run(its, "as"), lambda it: run([it], f"as{it.n}"))

    def do_zig():
        def comp(its, name):
            src = os.path.join(root, name + ".zig")
            # every declaration is referenced, so that nothing is left unanalysed
            body = 'const std = @import("std");\n'
            for it in its:
                dst = os.path.join(root, f"zg{it.n}.zig")
                if it.path != dst:
                    os.replace(it.path, dst)
                    it.path = dst
                body += f'const g{it.n} = @import("zg{it.n}.zig");\n'
            body += "test {\n    @setEvalBranchQuota(1000000);\n" + "".join(f"    std.testing.refAllDeclsRecursive(g{it.n});\n" for it in its) + "}\n"
            open(src, "w").write(body)
            return common.run(["zig", "test", "-fno-emit-bin", src], cwd=root, timeout=800)
        for g in range(2):
            together("zig", by["zig"][g::2], "zig", lambda its, g=g: comp(its, f"zall{g}"), lambda it: comp([it], f"zone{it.n}"))

    def do_swift():
        d = common.subdir("c13swift")
        its = {it.n: it for it in by["swift"]}
        skipped, wrong = lang_swift.prepare(d, {n: (it.path, it.p, it.ns) for n, it in its.items()})
        for n, why in skipped.items():
            ck.count("left out swift")
        for n, why in wrong.items():
            its[n].sub(ck, "swift", "error: " + why, "swift: no compiler accepts it")
        live = [n for n in its if n not in skipped and n not in wrong]
        b = lang_swift.units(d, live)
        cmds = [(n, f"F {mi}") for n in live for mi in (range(len(its[n].p.msgs)) if len(its[n].p.msgs) < 30 else range(0, len(its[n].p.msgs), 40))]
        done = set()
        for (n, c), r in zip(cmds, b.ask(cmds)):
            if r is None or r.startswith("SKIPPED"):
                ck.count("left out swift")
            elif "PANIC swift does not compile" in r and n not in done:
                done.add(n)
                its[n].sub(ck, "swift", "error: " + r, "swift: no compiler accepts it")
            elif n not in done:
                ok(its[n], "interpreted")
    errs = []

    def guard(f):
        try:
            f()
        except Exception as e:
            errs.append(e)
            import traceback
            traceback.print_exc()
    common.pmap(guard, [do_zig, do_c, do_rust, do_ts, do_as, do_go, do_cs, do_swift])
    if errs:
        raise errs[0]
    return ck.finish(300, [f"{l} " for l in H.LANGS])


C17 = C11
