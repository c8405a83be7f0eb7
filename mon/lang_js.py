"""TypeScript and AssemblyScript: one node process per group of protocols, one schema-driven driver.

TypeScript is transpiled with the real compiler.  There is no AssemblyScript compiler here, so its
output is run on an emulation of the AssemblyScript primitives it uses: numeric casts and typed
declarations truncate, DataView has the AssemblyScript method names, String.UTF8 and
Uint8Array.wrap exist.
"""
import json, os
from . import common, engine
from .engine import Built, Unit, BuildError
from .lang_c import extra_for

NODE_MODULES = "/opt/veriftools/node/node_modules"

CONV = r'''
import { createRequire } from "module"; import fs from "fs";
const require = createRequire("@NM@/x.js"); const ts = require("typescript");
const as = process.argv[2] === "as";
const NUM = new Set(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "usize", "isize", "bool"]);
function xf(ctx) {
  const f = ctx.factory;
  const call = (t, e) => f.createCallExpression(f.createIdentifier("__as"), undefined, [f.createStringLiteral(t), e]);
  const visit = (n) => {
    n = ts.visitEachChild(n, visit, ctx);
    if (ts.isAsExpression(n) && NUM.has(n.type.getText ? n.type.getText() : "")) return call(n.type.getText(), n.expression);
    if (ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(n) && NUM.has(n.type.getText())) return call(n.type.getText(), n.expression);
    if (ts.isVariableDeclaration(n) && n.type && n.initializer && NUM.has(n.type.getText()))
      return f.updateVariableDeclaration(n, n.name, n.exclamationToken, undefined, call(n.type.getText(), n.initializer));
    if (ts.isPropertyDeclaration(n) && n.type && n.initializer && NUM.has(n.type.getText()))
      return f.updatePropertyDeclaration(n, n.modifiers, n.name, n.questionToken, undefined, call(n.type.getText(), n.initializer));
    return n;
  };
  return (sf) => ts.visitNode(sf, visit);
}
const PRE = `
const __as = (t, v) => {
  if (t === "u64" || t === "i64") { const b = typeof v === "bigint" ? v : BigInt(Math.trunc(Number(v))); return t === "u64" ? BigInt.asUintN(64, b) : BigInt.asIntN(64, b); }
  if (t === "f64") return Number(v); if (t === "f32") return Math.fround(Number(v)); if (t === "bool") return !!v && v != 0;
  const bits = { u8: 8, i8: 8, u16: 16, i16: 16, u32: 32, i32: 32, usize: 32, isize: 32 }[t];
  const b = typeof v === "bigint" ? v : BigInt(Math.trunc(Number(v)) || 0);
  return Number(t[0] === "u" ? BigInt.asUintN(bits, b) : BigInt.asIntN(bits, b));
};
const __b = (v) => typeof v === "bigint" ? v : BigInt(v);
class DataView extends globalThis.DataView {
  getInt64(o, le) { return super.getBigInt64(o, le); }
  getUint64(o, le) { return super.getBigUint64(o, le); }
  setInt64(o, v, le) { super.setBigInt64(o, __b(v), le); }
  setUint64(o, v, le) { super.setBigUint64(o, __b(v), le); }
}
const __ab = (b) => b instanceof globalThis.ArrayBuffer ? b : b.buffer;
const String = { UTF8: { encode: (s, nul) => { const a = new TextEncoder().encode(s); const r = new globalThis.Uint8Array(a.length + (nul ? 1 : 0)); r.set(a); return r.buffer; },
  decode: (b, nul) => new TextDecoder("utf-8", { ignoreBOM: true }).decode(new globalThis.Uint8Array(b)) } };
class Uint8Array extends globalThis.Uint8Array { static wrap(b, off = 0, n = undefined) { return new globalThis.Uint8Array(b, off, n); } }
const Array = class extends globalThis.Array { constructor(n) { if (arguments.length === 1) { if (!(n >= 0 && n <= 268435455)) throw new RangeError("Invalid length"); } super(...arguments); } };
`;
for (const f of process.argv.slice(3)) {
  const src = fs.readFileSync(f, "utf8");
  const out = ts.transpileModule(src, { compilerOptions: { module: ts.ModuleKind.ESNext, target: process.argv[2] === "es2020" ? ts.ScriptTarget.ES2020 : ts.ScriptTarget.ES2022 }, reportDiagnostics: true, transformers: as ? { before: [xf] } : undefined });
  const errs = (out.diagnostics || []).map((d) => ts.flattenDiagnosticMessageText(d.messageText, " "));
  if (errs.length) { console.error(f + ": " + errs.join(" / ")); process.exit(1); }
  let js = out.outputText;
  const nsm = process.env.DRV_NS ? new RegExp("^(?:export )?namespace\\s+(\\w+)", "m").exec(src) : null;
  if (nsm) js += `\nexport { ${nsm[1]} };\n`;
  if (process.argv[2] === "min") js = require("esbuild").transformSync(src, { loader: "ts", minify: true, target: "es2020", format: "esm" }).code;
  if (as) js = PRE + js + "\nexport { DataView as __DataView };\n";
  fs.writeFileSync(f.replace(/\.ts$/, ".mjs"), js);
}
'''

# how much room the code asks for when it makes an array, a typed array or a buffer of a given length
HOOK = r'''
const H = globalThis.__asked = { n: 0 };
const watch = (name, size) => { const C = globalThis[name]; globalThis[name] = new Proxy(C, { construct(t, args, nt) { if (args.length === 1 && typeof args[0] === "number" && args[0] >= 0) H.n += args[0] * size; return Reflect.construct(t, args, nt === globalThis[name] ? t : nt); } }); };
watch("Array", 8); watch("ArrayBuffer", 1); watch("Uint8Array", 1);
'''

DRV = r'''
import "./hook.mjs";
import fs from "fs";
const AS = @AS@;
const M = {};
@IMPORTS@
const S = JSON.parse(fs.readFileSync("@SCHEMA@", "utf8"));
const CONVB = new DataView(new ArrayBuffer(8));
const BIG = new Set(["int64", "uint64"]);
let toks, ti;
const next = () => { if (ti >= toks.length) throw new Error("driver: missing token"); return toks[ti++]; };
const num = () => Number(next());
const hex = () => { const s = next(); if (s[0] !== "x") throw new Error("driver: hex expected " + s); return new Uint8Array(Buffer.from(s.slice(1), "hex")); };
const xhex = (u8) => "x" + Buffer.from(u8.buffer, u8.byteOffset, u8.byteLength).toString("hex");
function rdOne(P, mod, t) {
  if (t === "string") return Buffer.from(hex()).toString("utf8");
  if (t in P.enums) { const v = num(); const nm = P.enums[t].find((e) => e[1] === v); if (!nm) throw new Error("driver: enum"); return mod[t][nm[0]]; }
  if (t in P.structs) { const o = new mod[t](); rdInto(P, mod, P.structs[t], o); return o; }
  if (BIG.has(t)) return BigInt(next());
  if (t === "bool") return num() !== 0;
  if (t === "float") { CONVB.setUint32(0, num()); return CONVB.getFloat32(0); }
  if (t === "double") { CONVB.setBigUint64(0, BigInt(next())); return CONVB.getFloat64(0); }
  return num();
}
function rdInto(P, mod, ms, o) { for (const [n, t, l] of ms) { if (l) { const c = num(); const a = []; for (let i = 0; i < c; i++) a.push(rdOne(P, mod, t)); o[n] = a; } else o[n] = rdOne(P, mod, t); } }
function refillInto(P, mod, ms, o) { for (const [n, t, l] of ms) { if (l) { const c = num(); const a = o[n]; if (a.length > c) a.length = c; for (let i = 0; i < c; i++) { if (t in P.structs && i < a.length) refillInto(P, mod, P.structs[t], a[i]); else a[i] = rdOne(P, mod, t); } } else if (t in P.structs) refillInto(P, mod, P.structs[t], o[n]); else o[n] = rdOne(P, mod, t); } }
const INT = new Set(["byte", "uint16", "int16", "uint32", "int32"]);
function dOne(P, mod, t, v, o) {
  if (t === "string") { if (typeof v !== "string") o.push("!TYPE" + typeof v); else { const b = Buffer.from(v, "utf8"); o.push("x" + b.toString("hex") + (b.toString("utf8") === v ? "" : "!UTF16")); } return; }
  if (t in P.enums) { const e = P.enums[t].find((e) => mod[t][e[0]] === v); o.push(e ? String(e[1]) : "?" + v); return; }
  if (t in P.structs) { dInto(P, mod, P.structs[t], v, o); return; }
  if (BIG.has(t)) { if (typeof v !== "bigint" && !AS) o.push("!TYPE" + typeof v); else o.push(BigInt(v).toString()); return; }
  if (t === "bool") { if (typeof v !== "boolean" && !(AS && (v === 0 || v === 1))) o.push("!TYPE" + typeof v); else o.push(v ? "1" : "0"); return; }
  if (typeof v !== "number") { o.push("!TYPE" + typeof v); return; }
  if (t === "float") { if (!Object.is(Math.fround(v), v)) { o.push("!F32"); return; } CONVB.setFloat32(0, v); o.push(CONVB.getUint32(0).toString()); return; }
  if (t === "double") { CONVB.setFloat64(0, v); o.push(CONVB.getBigUint64(0).toString()); return; }
  o.push(Object.is(v, -0) ? "0" : String(v));
}
function dInto(P, mod, ms, m, o) { for (const [n, t, l] of ms) { if (l) { o.push(String(m[n].length)); for (let i = 0; i < m[n].length; i++) dOne(P, mod, t, m[n][i], o); } else dOne(P, mod, t, m[n], o); } }
const dump = (P, mod, mi, m) => { const o = []; dInto(P, mod, P.msgs[mi][1], m, o); return o.map((x) => " " + x).join(""); };
const make = (P, mod, mi) => { const m = new mod[P.msgs[mi][0]](); rdInto(P, mod, P.msgs[mi][1], m); return m; };
function poke(P, mod, ms, m) { for (const [n, t, l] of ms) { if (l) m[n].push(t in P.structs ? new mod[t]() : t === "string" ? "poked" : BIG.has(t) ? 7n : t === "bool" ? true : t in P.enums ? mod[t][P.enums[t][P.enums[t].length - 1][0]] : 7); else if (t in P.structs) poke(P, mod, P.structs[t], m[n]); else m[n] = t === "string" ? "poked" : BIG.has(t) ? 7n : t === "bool" ? true : t in P.enums ? mod[t][P.enums[t][P.enums[t].length - 1][0]] : 7; } }
const items = (P, mod) => { const n = num(); const r = []; for (let i = 0; i < n; i++) { const mi = num(); r.push([mi, make(P, mod, mi)]); } return r; };
const typeIdx = (m) => m.getMessageType() - 1;
const list = (P, mod, l) => { let s = " " + l.length; for (const m of l) { const mi = typeIdx(m); s += " | " + mi + (mi >= 0 && mi < P.msgs.length && m instanceof mod[P.msgs[mi][0]] ? dump(P, mod, mi, m) : " !CLASS"); } return s; };
const DV = (mod) => AS ? mod.__DataView : DataView;
// bytes as a view in the middle of a larger buffer, surrounded by data that decodes to something
function surround(mod, b, base = 8, fill = 0x41) { const buf = new Uint8Array(base + b.length + 24).fill(fill); buf.set(b, base); return [new (DV(mod))(buf.buffer, base, b.length), buf, base]; }
function exact(mod, b) { const c = new Uint8Array(b.length); c.set(b); return [new (DV(mod))(c.buffer), c, 0]; }
function rdDA(mod, P, mi, da) { const C = mod[P.msgs[mi][0]]; if (AS) { const m = C.fromBytesDA(da); if (m == null) throw new Error("null"); return m; } return C.fromBytes(da); }
function wr(mod, m, dv, tag) { if (AS) { if (!m.writeBytes(dv, tag)) throw new Error("false"); } else m.writeBytes(dv, tag); }
function wrDA(mod, m, da, tag) { if (AS) { if (!m.writeBytesDA(da, tag)) throw new Error("false"); } else m.writeBytes(da, tag); }
const size = (m) => Number(m.getSizeInBytes());
const eq = (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0;
function attempt(f) { try { return [true, f()]; } catch (e) { if (!(e instanceof Error) || /^driver/.test(e.message)) throw e; return [false, e]; } }
function safe(e) { return String(e && e.message || e).replace(/\s+/g, " ").slice(0, 200); }
function guardOk(buf, from, to, fill) { for (let i = from; i < to; i++) if (buf[i] !== fill) return false; return true; }
// write f(view at base, da) into a guarded buffer with the given capacity
function guarded(mod, cap, off, f) {
  const base = 16; const buf = new Uint8Array(base + off + cap + 16).fill(0xAA); const dv = new (DV(mod))(buf.buffer, base, off + cap); const da = new mod.DataAccess(dv); da.currentOffset = off;
  const [ok, r] = attempt(() => f(dv, da));
  return { ok, r, buf, base, end: da.currentOffset, clean: guardOk(buf, 0, base + off, 0xAA) && guardOk(buf, base + off + cap, buf.length, 0xAA), body: buf.slice(base + off, base + off + cap) };
}
const OPS = {
  E(P, mod, refill) {
    const mi = num(); const mode = refill ? num() : -1; let m = make(P, mod, mi);
    if (mode >= 0) {
      const w = guarded(mod, size(m) + 1, 0, (dv, da) => wrDA(mod, m, da, true)); if (!w.ok) return "ERR " + safe(w.r);
      if (mode === 1) { const da = new mod.DataAccess(exact(mod, w.body)[0]); da.currentOffset = 1; m = rdDA(mod, P, mi, da); }
      size(m); guarded(mod, size(m) + 1, 0, (dv, da) => wrDA(mod, m, da, mode === 0)); const ps = Number(mod.GetPackedSize([m])); guarded(mod, ps, 0, (dv) => mod.PackMessages([m], dv)); refillInto(P, mod, P.msgs[mi][1], m);
    }
    const before = dump(P, mod, mi, m); const s = size(m);
    const a = guarded(mod, s + 1, 0, (dv, da) => wrDA(mod, m, da, true)); const b = guarded(mod, s, 0, (dv, da) => wrDA(mod, m, da, false)); const c = guarded(mod, s + 1, 0, (dv, da) => wr(mod, m, dv, true));
    if (!a.ok || !b.ok || !c.ok) return `ERR ${safe(a.ok ? (b.ok ? c.r : b.r) : a.r)}`;
    const same = eq(a.body, c.body) && eq(a.body.slice(1), b.body) && a.end === b.end + 1 && size(m) === s && dump(P, mod, mi, m) === before;
    return `OK ${s} ${a.end} ${b.end} ${same ? 1 : 0} ${xhex(a.body.slice(0, a.end))} ${xhex(b.body.slice(0, b.end))}` + (a.clean && b.clean && c.clean ? "" : " CLOBBER");
  },
  V(P, mod) { return OPS.E(P, mod, true); },
  D(P, mod, ow) {
    const mi = num(), off = num(), b = hex(); const C = mod[P.msgs[mi][0]]; const res = []; let changed = false;
    for (const mk of [exact, surround]) {
      const [dv, buf, base] = mk(mod, b); const copy = buf.slice(); const da = new mod.DataAccess(dv); da.currentOffset = off;
      const [ok, m] = attempt(() => rdDA(mod, P, mi, da)); if (!eq(buf, copy)) changed = true; if (ow) buf.fill(0xEE);
      res.push(ok ? `${da.currentOffset}${ow ? " 1" : ""}${dump(P, mod, mi, m)}` : null);
      if (!ok && process.env.DRV_DEBUG) console.error(m);
    }
    if (off === 0) {
      const tail = res[0] === null ? null : res[0].slice(res[0].indexOf(" "));
      for (const mk of [exact, surround]) { const [dv] = mk(mod, b); const [ok, m] = attempt(() => { const v = C.fromBytes(dv); if (v == null) throw new Error("null"); return v; }); const t = ok ? (ow ? " 1" : "") + dump(P, mod, mi, m) : null; if (t !== (res[0] === null ? null : " " + res[0].split(" ").slice(1).join(" ")) && !(t === "" && tail === null)) if (!(res[0] !== null && t === "" && res[0].indexOf(" ") < 0)) return "VIEWS-DISAGREE " + t + " vs " + res[0]; }
      if (!AS) { const c = new Uint8Array(b); const [ok, m] = attempt(() => C.fromBytes(c.buffer.slice(0, b.length))); if (ok !== (res[0] !== null)) return "VIEWS-DISAGREE arraybuffer"; }
    }
    if (res[0] !== res[1]) return `VIEWS-DISAGREE ${res[0]} vs ${res[1]}`;
    return (res[0] === null ? "ERR" : "OK " + res[0]) + (changed ? " BUFFERCHANGED" : "");
  },
  I(P, mod) { return OPS.D(P, mod, true); },
  Q(P, mod) {
    const off = num(); const [dv] = surround(mod, hex()); const da = new mod.DataAccess(dv); da.currentOffset = off; let s = "OK";
    while (ti < toks.length) { const mi = num(); const [ok, m] = attempt(() => rdDA(mod, P, mi, da)); if (!ok) { s += " ERR"; break; } s += ` | ${da.currentOffset}${dump(P, mod, mi, m)}`; }
    return s;
  },
  N(P, mod) {
    const tag = num() !== 0, off = num(); const l = items(P, mod); let total = 0; for (const [, m] of l) total += size(m) + (tag ? 1 : 0);
    const g = guarded(mod, total, off, (dv, da) => { for (const [, m] of l) wrDA(mod, m, da, tag); });
    if (!g.ok) return "ERR " + safe(g.r);
    return `OK ${g.end} ${xhex(g.buf.slice(g.base))}` + (g.clean ? "" : " CLOBBER");
  },
  S(P, mod) {
    const max = num(), off = num(), b = hex(); const out = [];
    for (const mk of [exact, surround]) {
      const [dv, buf] = mk(mod, b); const da = new mod.DataAccess(dv); da.currentOffset = off;
      const [ok, l] = attempt(() => AS ? mod.ProcessRawBytesDA(da, max) : mod.ProcessRawBytes(da, max)); buf.fill(0xEE);
      out.push(ok ? `OK ${da.currentOffset}${list(P, mod, l)}` : "ERR");
      if (off === 0) { const [dv2] = mk(mod, b); const [ok2, l2] = attempt(() => mod.ProcessRawBytes(dv2, max)); if (ok2 !== ok || (ok && list(P, mod, l2) !== list(P, mod, l))) return "VIEWS-DISAGREE DataView/DataAccess"; }
    }
    if (out[0] !== out[1]) return `VIEWS-DISAGREE ${out[0]} vs ${out[1]}`;
    return out[0];
  },
  P(P, mod) {
    const off = num(); const l = items(P, mod).map((x) => x[1]); const ps = Number(mod.GetPackedSize(l));
    const g = guarded(mod, ps, off, (dv, da) => { if (AS) mod.PackMessages(l, new (DV(mod))(dv.buffer, dv.byteOffset + off, ps)); else mod.PackMessages(l, da); });
    if (!g.ok) return "ERR " + safe(g.r);
    if (off === 0) { const h = guarded(mod, ps, 0, (dv) => mod.PackMessages(l, dv)); if (!h.ok || !h.clean || !eq(h.body, g.body)) return "VIEWS-DISAGREE pack"; }
    return `OK ${ps} ${AS ? ps : g.end - off} ${xhex(g.body)}` + (g.clean ? "" : " CLOBBER");
  },
  U(P, mod) {
    const off = num(), b = hex(); const out = [];
    for (const mk of [exact, surround]) {
      const [dv, buf] = mk(mod, b); let pos = -1;
      const [ok, l] = attempt(() => { if (AS) { return mod.UnpackMessages(new (DV(mod))(dv.buffer, dv.byteOffset + off, b.length - off)); } const da = new mod.DataAccess(dv); da.currentOffset = off; const r = mod.UnpackMessages(da); pos = da.currentOffset; return r; }); buf.fill(0xEE);
      out.push(ok ? `OK ${pos}${list(P, mod, l)}` : "ERR");
    }
    if (out[0] !== out[1]) return `VIEWS-DISAGREE ${out[0]} vs ${out[1]}`;
    return out[0];
  },
  F(P, mod) {
    const mi = num(); const m = new mod[P.msgs[mi][0]](); const s = size(m); const g = guarded(mod, s, 0, (dv, da) => wrDA(mod, m, da, false)); if (!g.ok) return "ERR " + safe(g.r);
    const m2 = new mod[P.msgs[mi][0]](); poke(P, mod, P.msgs[mi][1], m2); const m3 = new mod[P.msgs[mi][0]](); const h = guarded(mod, size(m3), 0, (dv, da) => wrDA(mod, m3, da, false));
    return `OK ${s} ${xhex(g.body.slice(0, g.end))} ${xhex(h.body.slice(0, h.end))} ${typeIdx(m)}${dump(P, mod, mi, m)} /${dump(P, mod, mi, m3)}`;
  },
  T(P, mod) {
    const mi = num(); const C = mod[P.msgs[mi][0]]; const m = make(P, mod, mi); const s = size(m); const a = guarded(mod, s + 1, 0, (dv, da) => wrDA(mod, m, da, true)); if (!a.ok) return "ERR " + safe(a.r);
    const ps = Number(mod.GetPackedSize([m])); const pk = guarded(mod, ps, 0, (dv) => mod.PackMessages([m], dv)); if (!pk.ok) return "ERR " + safe(pk.r);
    const da = (b, at = 0) => { const d = new mod.DataAccess(exact(mod, b)[0]); d.currentOffset = at; return d; };
    const ty = (x) => { if (x == null) return -2; const w = guarded(mod, size(x) + 1, 0, (dv, q) => wrDA(mod, x, q, true)); return Number(x.getMessageType()) + (w.ok && eq(w.body, a.body) && x instanceof C ? 0 : 1000); };
    const one = (f) => { const [ok, l] = attempt(f); return !ok ? -2 : l.length !== 1 ? -1 : ty(l[0]); };
    const [rok, r] = attempt(() => rdDA(mod, P, mi, da(a.body, 1)));
    const cst = mod.MessageType[P.msgs[mi][0] + "Type"]; let g;
    if (AS) { const x = mod.Message.fromBytes(exact(mod, a.body)[0]); const y = mod.Message.fromBytesDA(da(a.body)); g = ty(x) === ty(y) ? ty(x) : -3; }
    else { const K = mod.MessageTypeMap.get(cst); g = K === C && mod.MessageTypeMap.size === P.msgs.length ? new K().getMessageType() : -3; }
    return `OK ${cst} ${new C().getMessageType()} ${ty(m)} ${rok ? ty(r) : -2} ${one(() => AS ? mod.ProcessRawBytesDA(da(a.body), -1) : mod.ProcessRawBytes(da(a.body), -1))} ${one(() => mod.UnpackMessages(exact(mod, pk.body)[0]))} ${g} ${xhex(a.body.slice(0, 1))}`;
  },
  R(P, mod) {
    const kind = next(), arg = num(), w = next(), a = num(), b = hex(); let src, da = null;
    if (kind === "arraybuffer") src = new mod.DataAccess(b.buffer.slice(b.byteOffset, b.byteOffset + b.length));
    else if (kind === "pool") { const p = Buffer.alloc(arg % 7 + b.length + 9, 1); p.set(b, arg % 7); src = new DataView(p.buffer, p.byteOffset + arg % 7, b.length); }
    else if (kind === "resizable") { const r = new ArrayBuffer(b.length + 3, { maxByteLength: b.length + 64 }); new Uint8Array(r).set(b); src = new mod.DataAccess(new DataView(r, 0, b.length)); }
    else if (kind === "typed") { const t = new Float64Array(Math.ceil((b.length + 8) / 8)); new Uint8Array(t.buffer, 8 * 0).set(b); src = new DataView(t.buffer, 0, b.length); }
    else throw new Error("driver: source " + kind);
    da = src instanceof mod.DataAccess ? src : null; const C = mod[P.msgs[Math.max(a, 0)]?.[0]];
    const [ok, l] = attempt(() => w === "D" ? C.fromBytes(src) : w === "S" ? mod.ProcessRawBytes(src, a) : mod.UnpackMessages(src));
    return !ok ? "ERR" : `OK ${da === null ? -1 : da.currentOffset}${w === "D" ? dump(P, mod, a, l) : list(P, mod, l)}`;
  },
  Z(P, mod) {
    const kind = next(); const l = items(P, mod).map((x) => x[1]); let out = "OK";
    const to = (n, f) => {
      let buf, at = 0;
      if (kind === "arraybuffer") buf = new Uint8Array(n); else if (kind === "pool") { buf = Buffer.alloc(n + 12, 0xAA); at = 5; }
      else if (kind === "resizable") { buf = new Uint8Array(new ArrayBuffer(n + 8, { maxByteLength: n + 64 })); at = 3; } else if (kind === "typed") { buf = new Uint8Array(new Float64Array(Math.ceil(n / 8) + 2).buffer); at = 8; }
      else throw new Error("driver: sink " + kind);
      buf.fill(0xAA); const view = new DataView(buf.buffer, buf.byteOffset + at, n); let end = n; const da = n % 2 ? new mod.DataAccess(kind === "arraybuffer" ? buf.buffer : view) : null;
      const [ok] = attempt(() => f(da === null ? view : da)); if (da !== null) end = da.currentOffset;
      out += ok ? " " + xhex(buf.subarray(at, at + end)) : " ERR"; if (!guardOk(buf, 0, at, 0xAA) || !guardOk(buf, at + n, buf.length, 0xAA)) out += " CLOBBER";
    };
    for (const m of l) for (const tag of [true, false]) to(size(m) + (tag ? 1 : 0), (d) => m.writeBytes(d, tag));
    to(Number(mod.GetPackedSize(l)), (d) => mod.PackMessages(l, d));
    return out;
  },
  X(P, mod) {
    const w = next(), a = w === "D" ? num() : 0, b = hex(); const best = []; const from = process.hrtime.bigint(); let why = "";
    for (let rep = 0; rep < 6 && why === "" && (rep < 1 || process.hrtime.bigint() - from < 300000000n); rep++) {
      const [dv] = exact(mod, b); const da = new mod.DataAccess(dv); let k = 0; const timed = (f) => { const t0 = process.hrtime.bigint(); const r = f(); const d = Number(process.hrtime.bigint() - t0); if (!(best[k] <= d)) best[k] = d; k++; return r; };
      const [ok, e] = attempt(() => {
        if (w === "D") { const m = timed(() => rdDA(mod, P, a, da)); const s = timed(() => size(m)); const [o, buf] = exact(mod, Buffer.alloc(s)); const q = new mod.DataAccess(o); timed(() => wrDA(mod, m, q, false)); if (!eq(buf, b)) why = "other bytes"; }
        else { const l = timed(() => mod.ProcessRawBytes(dv, -1)); const s = timed(() => Number(mod.GetPackedSize(l))); const [o] = exact(mod, Buffer.alloc(s)); timed(() => mod.PackMessages(l, o)); const l2 = timed(() => mod.UnpackMessages(o)); if (l2.length !== l.length) why = "other list"; }
      });
      if (!ok) why = safe(e);
    }
    return why !== "" ? "ERR " + why : "OK " + best.join(" ");
  },
  M(P, mod) {
    const w = next(), a = w === "U" ? 0 : num(), b = hex(); const H = globalThis.__asked; let least = Infinity, heap = Infinity, ok = false;
    for (let i = 0; i < 3; i++) {
      const [dv] = exact(mod, b); const da = new mod.DataAccess(dv); H.n = 0; const h0 = process.memoryUsage().heapUsed;
      [ok] = attempt(() => w === "D" ? rdDA(mod, P, a, da) : w === "S" ? mod.ProcessRawBytes(dv, a) : mod.UnpackMessages(dv));
      heap = Math.min(heap, Math.max(0, process.memoryUsage().heapUsed - h0)); least = Math.min(least, H.n); if ((least < 65536 && heap < 65536) || least > 2 ** 27) break;
    }
    return `${ok ? "OK" : "ERR"} ${Math.max(least, heap)}`;
  },
  C(P, mod) {
    const mi = num(); const m = make(P, mod, mi); const s = size(m); const a = guarded(mod, s + 1, 0, (dv, da) => wrDA(mod, m, da, true)); let ok = a.ok;
    for (let i = 0; i < 4; i++) { mod.GetPackedSize([m]); const b = guarded(mod, s + 1, 0, (dv, da) => wrDA(mod, m, da, true)); if (!b.ok || size(m) !== s || !eq(a.body, b.body)) ok = false; }
    return `OK ${ok ? 1 : 0} ${xhex(a.body)}${dump(P, mod, mi, m)}`;
  },
  W(P, mod) {
    const tag = num() !== 0, mi = num(); const m = make(P, mod, mi); const s = size(m) + (tag ? 1 : 0); let n = 0;
    for (let cap = 0; cap <= s; cap++) {
      if (s > 300 && cap > 40 && cap + 40 < s && cap % 17) continue;
      for (const off of [0, 5]) { const g = guarded(mod, cap, off, (dv, da) => wrDA(mod, m, da, tag)); n++; if (g.ok !== (cap >= s)) return `BAD cap=${cap} size=${s} ok=${g.ok}`; if (!g.clean) return `BAD wrote outside cap=${cap} off=${off}`; }
      const g = guarded(mod, cap, 0, (dv) => wr(mod, m, dv, tag)); if (g.ok !== (cap >= s)) return `BAD cap=${cap} size=${s} ok=${g.ok} DataView`; if (!g.clean) return `BAD wrote outside cap=${cap} DataView`;
    }
    return `OK ${s} ${n}`;
  },
  K(P, mod) {
    const l = items(P, mod).map((x) => x[1]); const ps = Number(mod.GetPackedSize(l)); let n = 0;
    for (let cap = 0; cap <= ps; cap++) {
      if (ps > 300 && cap > 40 && cap + 40 < ps && cap % 17) continue;
      for (const off of AS ? [0] : [0, 5]) { const g = guarded(mod, cap, off, (dv, da) => mod.PackMessages(l, AS ? dv : da)); n++; if (!AS && g.ok !== (cap >= ps)) return `BAD cap=${cap} size=${ps} ok=${g.ok}`; if (!g.clean) return `BAD wrote outside cap=${cap} off=${off}`; }
    }
    return `OK ${ps} ${n}`;
  },
};
const lines = fs.readFileSync(0, "utf8").split("\n");
for (const line of lines) {
  if (!line) continue;
  toks = line.split(" ").filter((x) => x); ti = 2; const k = toks[0], op = toks[1]; let out;
  try { out = OPS[op](S[k], M[k]); } catch (e) { out = "PANIC " + safe(e) + " / " + String(e && e.stack || "").replace(/\n/g, " / ").slice(0, 600); }
  fs.writeSync(1, "> " + out.replace(/\n/g, " / ") + "\n");
}
'''


def schema(p):
    ms = lambda s: [[m.name, m.type, 1 if m.is_list else 0] for m in s.members]
    return {"enums": {e.name: e.values for e in p.enums.values()}, "structs": {s.name: ms(s) for s in p.structs.values()}, "msgs": [[m.name, ms(m)] for m in p.msgs]}


def build(protos, wd, extra=(), mode="ts", idx=None, ns=False):
    lang = "assemblyscript" if mode == "as" else "typescript"
    idx = list(idx) if idx is not None else list(range(len(protos)))
    root = os.path.join(wd, f"js_{mode}")
    os.makedirs(root, exist_ok=True)
    files = common.pmap(lambda k: engine.generate(lang, protos[k].toml(), root, f"p{k}", ".ts", extra_for(extra, protos[k])), idx)
    open(os.path.join(root, "conv.mjs"), "w").write(CONV.replace("@NM@", NODE_MODULES))
    r = common.run(["node", os.path.join(root, "conv.mjs"), mode] + files, cwd=root, env={"DRV_NS": "1"} if ns else None)
    if r.rc != 0:
        raise BuildError(lang, "transpile", r.err[-3000:])
    open(os.path.join(root, "schema.json"), "w").write(json.dumps({str(k): schema(protos[k]) for k in idx}))
    imports = []
    for k in idx:
        imports.append(f'import * as m{k} from "./p{k}.mjs"; M[{k}] = ' + (f"Object.values(m{k})[0];" if ns else f"m{k};"))
    drv = DRV.replace("@AS@", "true" if mode == "as" else "false").replace("@IMPORTS@", "\n".join(imports)).replace("@SCHEMA@", os.path.join(root, "schema.json"))
    open(os.path.join(root, "hook.mjs"), "w").write(HOOK)
    open(os.path.join(root, "drv.mjs"), "w").write(drv)
    return Built(lang, [Unit(["node", "--stack-size=2000", os.path.join(root, "drv.mjs")], idx)])
