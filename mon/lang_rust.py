"""Rust: one crate, one module per protocol; overflow checks and debug assertions on."""
import os, re, threading
from . import common, engine
from .engine import Built, Unit, BuildError
from .lang_c import extra_for

EXT = ".rs"
MAIN = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use std::io::{BufRead, Write};
use std::panic;
mod h;
@MODS@

// every allocation is counted: the bytes live now, and the most there ever were since the mark
pub struct Count;
pub static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static PEAK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const REL: std::sync::atomic::Ordering = std::sync::atomic::Ordering::Relaxed;
fn more(n: usize) { let v = LIVE.fetch_add(n, REL).wrapping_add(n); PEAK.fetch_max(v, REL); }
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { more(l.size()); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { more(l.size()); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size(), REL); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if n > l.size() { more(n - l.size()) } else { LIVE.fetch_sub(l.size() - n, REL); } std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static COUNT: Count = Count;
pub fn mark() -> usize { let l = LIVE.load(REL); PEAK.store(l, REL); l }
pub fn peak(from: usize) -> usize { PEAK.load(REL).saturating_sub(from) }

fn one(k: usize, t: &mut h::T) -> String {
    match k {
@CASES@
        _ => panic!("driver: protocol index"),
    }
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split_whitespace().collect();
        let k: usize = f[0].parse().unwrap();
        let mut t = h::T { toks: f[1..].iter().map(|s| s.to_string()).collect(), i: 0 };
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| one(k, &mut t)));
        let out = match r { Ok(s) => s, Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".to_string() };
            format!("PANIC {}", m) } };
        println!("> {}", out.replace("\n", " / "));
    }
}
'''
HELP = r'''
use std::fmt::Write;
pub struct T { pub toks: Vec<String>, pub i: usize }
impl T {
    pub fn next(&mut self) -> String { if self.i >= self.toks.len() { panic!("driver: missing token") } self.i += 1; self.toks[self.i - 1].clone() }
    pub fn more(&self) -> bool { self.i < self.toks.len() }
    pub fn s(&mut self) -> i64 { self.next().parse().unwrap() }
    pub fn u(&mut self) -> u64 { self.next().parse().unwrap() }
    pub fn n(&mut self) -> usize { self.next().parse().unwrap() }
    pub fn b(&mut self) -> bool { self.u() != 0 }
    pub fn f32(&mut self) -> f32 { f32::from_bits(self.u() as u32) }
    pub fn f64(&mut self) -> f64 { f64::from_bits(self.u()) }
    pub fn hex(&mut self) -> Vec<u8> { let s = self.next(); let b = s.as_bytes(); assert!(b[0] == b'x'); let v = |c: u8| if c <= 57 { c - 48 } else { c - 87 }; let mut r = Vec::with_capacity(b.len() / 2); let mut i = 1; while i + 1 < b.len() { r.push(v(b[i]) * 16 + v(b[i + 1])); i += 2; } r }
    pub fn str(&mut self) -> String { String::from_utf8(self.hex()).unwrap() }
}
pub struct O { pub s: String }
impl O {
    pub fn p(&mut self, s: &str) { self.s.push_str(s) }
    pub fn i(&mut self, v: i64) { write!(self.s, " {}", v).unwrap() }
    pub fn u(&mut self, v: u64) { write!(self.s, " {}", v).unwrap() }
    pub fn b(&mut self, v: bool) { self.p(if v { " 1" } else { " 0" }) }
    pub fn f32(&mut self, v: f32) { self.u(v.to_bits() as u64) }
    pub fn f64(&mut self, v: f64) { self.u(v.to_bits()) }
    pub fn x(&mut self, v: &[u8]) { self.p(" x"); let d = b"0123456789abcdef"; let mut r = Vec::with_capacity(v.len() * 2); for c in v { r.push(d[(c >> 4) as usize]); r.push(d[(c & 15) as usize]); } self.s.push_str(std::str::from_utf8(&r).unwrap()) }
    pub fn str(&mut self, v: &str) { self.x(v.as_bytes()) }
}
'''
OPS = r'''
fn at(b: &[u8], off: usize) -> BufferReader { let mut r = BufferReader::new(b); r.current_position = off; r }
fn read_items(t: &mut T) -> Vec<Message> { let n = t.n(); let mut v = Vec::new(); for _ in 0..n { let mi = t.n(); v.push(mk(mi, t)); } v }
fn dump_list(o: &mut O, l: &[Message]) { o.p(&format!(" {}", l.len())); for m in l { o.p(&format!(" | {}", index_of(&m.get_message_type()))); dump(o, m); } }
pub fn run_op(t: &mut T) -> String {
    let mut o = O { s: String::new() };
    let op = t.next();
    match op.as_str() {
        "E" | "V" => {
            let mi = t.n(); let mode = if op == "V" { t.n() } else { 9 }; let mut m = mk(mi, t);
            if mode != 9 {
                let mut w = Vec::new(); m.write_bytes(&mut w, true);
                if mode == 1 { match read(mi, &mut at(&w, 1)) { Ok(x) => m = x, Err(e) => { return format!("ERR {:?}", e); } } }
                let _ = m.get_size_in_bytes(); m.write_bytes(&mut w, mode == 0); let l = vec![m]; let mut pk = Vec::new(); let _ = get_packed_size(&l); pack_messages(&l, &mut pk); m = l.into_iter().next().unwrap();
                refill(&mut m, t);
            }
            let size = m.get_size_in_bytes();
            let (mut a, mut b, mut c) = (Vec::new(), Vec::new(), Vec::new());
            m.write_bytes(&mut a, true); m.write_bytes(&mut b, false); m.write_bytes(&mut c, true);
            let same = a == c && a.len() == b.len() + 1 && a[1..] == b[..] && size == m.get_size_in_bytes() && index_of(&m.get_message_type()) == mi;
            o.p(&format!("OK {} {} {}", size, a.len(), b.len())); o.b(same); o.x(&a); o.x(&b);
        }
        "D" | "I" => {
            let mi = t.n(); let off = t.n(); let mut buf = t.hex(); let copy = buf.clone();
            let (res, pos) = { let mut r = at(&buf, off); let m = read(mi, &mut r); (m, r.current_position) };
            let same = buf == copy;
            if op == "I" { for c in buf.iter_mut() { *c = 0xEE } drop(buf); }
            match res { Err(e) => o.p(&format!("ERR {:?}", e)), Ok(m) => { o.p(&format!("OK {}", pos)); if op == "I" { o.b(same) } dump(&mut o, &m); } }
            if !same { o.p(" BUFFERCHANGED") }
        }
        "Q" => {
            let off = t.n(); let b = t.hex(); let mut r = at(&b, off); o.p("OK");
            while t.more() { let mi = t.n(); match read(mi, &mut r) { Err(_) => { o.p(" ERR"); break }, Ok(m) => { o.p(&format!(" | {}", r.current_position)); dump(&mut o, &m) } } }
        }
        "N" => {
            let tag = t.b(); let off = t.n(); let l = read_items(t); let mut w = vec![0xAA_u8; off];
            for m in &l { m.write_bytes(&mut w, tag) }
            o.p(&format!("OK {}", w.len())); w.extend([0xAA_u8; 16]); o.x(&w);
        }
        "S" => {
            let max = t.s() as i32; let off = t.n(); let b = t.hex(); let (res, pos) = { let mut r = at(&b, off); let l = process_raw_bytes(&mut r, max); (l, r.current_position) }; drop(b);
            match res { Err(e) => o.p(&format!("ERR {:?}", e)), Ok(l) => { o.p(&format!("OK {}", pos)); dump_list(&mut o, &l) } }
        }
        "P" => {
            let off = t.n(); let l = read_items(t); let mut w = vec![0xAA_u8; off]; let ps = get_packed_size(&l); pack_messages(&l, &mut w);
            o.p(&format!("OK {} {}", ps, w.len() - off)); o.x(&w[off..]); if w[..off].iter().any(|c| *c != 0xAA) { o.p(" CLOBBER") }
        }
        "U" => {
            let off = t.n(); let b = t.hex(); let (res, pos) = { let mut r = at(&b, off); let l = unpack_messages(&mut r); (l, r.current_position) }; drop(b);
            match res { Err(e) => o.p(&format!("ERR {:?}", e)), Ok(l) => { o.p(&format!("OK {}", pos)); dump_list(&mut o, &l) } }
        }
        "F" => {
            let mi = t.n(); let m = fresh(mi); let mut a = Vec::new(); m.write_bytes(&mut a, false);
            o.p(&format!("OK {}", m.get_size_in_bytes())); o.x(&a); o.x(&a); o.i(index_of(&m.get_message_type()) as i64); dump(&mut o, &m); o.p(" /"); dump(&mut o, &m);
        }
        "T" => {
            let mi = t.n(); let m = mk(mi, t); let mut a = Vec::new(); m.write_bytes(&mut a, true); let mut pk = Vec::new(); let l = vec![m]; pack_messages(&l, &mut pk);
            let ty = |x: &Message| { let mut w = Vec::new(); x.write_bytes(&mut w, true); index_of(&x.get_message_type()) as i64 + 1 + if w == a && index_of_msg(x) == mi { 0 } else { 1000 } };
            let one = |r: Result<Vec<Message>, _>| match r { Err::<_, @ERR@>(_) => -2, Ok(l) => if l.len() != 1 { -1 } else { ty(&l[0]) } };
            let r = match read(mi, &mut at(&a, 1)) { Err(_) => -2, Ok(x) => ty(&x) }; let g = match Message::from_bytes(&mut at(&a, 0)) { Err(_) => -2, Ok(x) => ty(&x) };
            o.p("OK"); o.i(specific(mi) as i64 + 1); o.i(index_of(&fresh(mi).get_message_type()) as i64 + 1); o.i(ty(&l[0])); o.i(r); o.i(one(process_raw_bytes(&mut at(&a, 0), -1))); o.i(one(unpack_messages(&mut at(&pk, 0)))); o.i(g); o.x(&a[..1]);
        }
        "C" => {
            let mi = t.n(); let m = mk(mi, t); let mut a = Vec::new(); m.write_bytes(&mut a, true); let mut ok = true;
            std::thread::scope(|s| { let hs: Vec<_> = (0..4).map(|_| s.spawn(|| { let mut w = Vec::new(); for _ in 0..5 { w.clear(); m.write_bytes(&mut w, true); assert!(m.get_size_in_bytes() + 1 == w.len()); } w })).collect(); for h in hs { if h.join().unwrap() != a { ok = false } } });
            o.p("OK"); o.b(ok); o.x(&a); dump(&mut o, &m);
        }
        "R" => {
            let kind = t.next(); let arg = t.n(); let w = t.next(); let a = t.s(); let b = t.hex(); let n = b.len();
            let whole: Vec<u8> = [vec![1u8; arg % 7], b.clone(), vec![1u8; 5]].concat(); let boxed = b.clone().into_boxed_slice();
            let mut r = match kind.as_str() { "vec" => BufferReader::from_vec(b), "part" => BufferReader::new(&whole[arg % 7..arg % 7 + n]), "box" => BufferReader::new(&boxed), _ => panic!("driver: source") };
            if r.is_finished() != (n == 0) || !r.has_remaining(n) || r.has_remaining(n + 1) || r.has_remaining(usize::MAX) { o.p("SOURCE before ") }
            let (res, one) = match w.as_str() { "D" => (read(a as usize, &mut r).map(|m| vec![m]), true), "S" => (process_raw_bytes(&mut r, a as i32), false), _ => (unpack_messages(&mut r), false) };
            match res { Err(e) => o.p(&format!("ERR {:?}", e)), Ok(l) => { let p = r.current_position; if r.is_finished() != (p == n) || !r.has_remaining(n - p) || r.has_remaining(n - p + 1) { o.p("SOURCE after ") } o.p(&format!("OK {}", p)); if one { dump(&mut o, &l[0]) } else { dump_list(&mut o, &l) } } }
        }
        "Z" => {
            let kind = t.next(); let l = read_items(t); o.p("OK");
            let to = |o: &mut O, n: usize, f: &dyn Fn(&mut Vec<u8>)| {
                let mut w: Vec<u8> = match kind.as_str() { "empty" => Vec::new(), "exact" => Vec::with_capacity(n), "after" => vec![0x41u8; 5], "tight" => { let mut v = Vec::with_capacity(3); v.extend([0x41u8; 3]); v }, _ => panic!("driver: sink") };
                let before = w.len(); f(&mut w); if w[..before].iter().any(|x| *x != 0x41) { o.p(" CLOBBER"); } o.x(&w[before..]);
            };
            for m in &l { for tag in [true, false] { to(&mut o, m.get_size_in_bytes() + tag as usize, &|w| m.write_bytes(w, tag)); } }
            to(&mut o, get_packed_size(&l), &|w| pack_messages(&l, w));
        }
        "Y" => {
            let n = t.n(); let jobs: Vec<(usize, Vec<u8>, Vec<u8>)> = (0..n).map(|_| { let mi = t.n(); let b = t.hex(); let d = t.hex(); (mi, b, d) }).collect();
            let bad: Vec<&'static str> = std::thread::scope(|s| { let hs: Vec<_> = (0..4usize).map(|g| { let jobs = &jobs; s.spawn(move || -> &'static str {
                let same = |m: &Message, b: &[u8]| { let mut w = Vec::new(); m.write_bytes(&mut w, true); m.get_size_in_bytes() + 1 == b.len() && w == b };
                for it in 0..3 * n {
                    let (mi, b, d) = &jobs[(it * (if g % 2 == 0 { n - 1 } else { 1 }) + g * n / 4) % n];
                    let m = match read(*mi, &mut at(b, 1)) { Ok(m) => m, Err(_) => return "read" }; if !same(&m, b) { return "reread" }
                    let l = vec![m]; let mut pk = Vec::new(); if get_packed_size(&l) != b.len() + 9 { return "packed size" } pack_messages(&l, &mut pk);
                    match unpack_messages(&mut at(&pk, 0)) { Ok(l) => if l.len() != 1 || !same(&l[0], b) { return "unpacked" }, Err(_) => return "unpack" }
                    match process_raw_bytes(&mut at(b, 0), -1) { Ok(l) => if l.len() != 1 || !same(&l[0], b) { return "processed" }, Err(_) => return "process" }
                    if b.len() > 1 && process_raw_bytes(&mut at(&b[..b.len() - 1], 0), -1).is_ok() { return "cut accepted" }
                    if !same(&fresh(*mi), d) { return "default" }
                }
                "" }) }).collect(); hs.into_iter().map(|h| h.join().unwrap_or("panic")).collect() });
            o.p("OK"); for x in bad { if x != "" { o.p(" BAD "); o.p(x) } }
        }
        "M" => {
            let w = t.next(); let a = if w != "U" { t.s() } else { 0 }; let b = t.hex(); let mut r = at(&b, 0); let from = crate::mark();
            let ok = match w.as_str() { "D" => read(a as usize, &mut r).is_ok(), "S" => process_raw_bytes(&mut r, a as i32).is_ok(), _ => unpack_messages(&mut r).is_ok() };
            let p = crate::peak(from); o.p(if ok { "OK" } else { "ERR" }); o.u(p as u64);
        }
        "X" => {
            let w = t.next(); let a = if w == "D" { t.s() } else { 0 }; let b = t.hex(); let mut best = [u128::MAX; 5]; let from = std::time::Instant::now(); let mut rep = 0; let mut why = String::new();
            while rep < 5 && why == "" && (rep < 1 || from.elapsed().as_millis() < 300) {
                rep += 1; let mut r = at(&b, 0); let mut k = 0; let mut t0 = std::time::Instant::now(); let mut put = |t0: std::time::Instant, k: usize| { let d = t0.elapsed().as_nanos(); if d < best[k] { best[k] = d; } };
                if w == "D" {
                    let m = read(a as usize, &mut r); put(t0, 0); let m = match m { Ok(m) => m, Err(e) => { why = e.to_string(); break; } };
                    t0 = std::time::Instant::now(); m.get_size_in_bytes(); put(t0, 1); let mut out: Vec<u8> = Vec::new(); t0 = std::time::Instant::now(); m.write_bytes(&mut out, false); put(t0, 2);
                    t0 = std::time::Instant::now(); drop(m); put(t0, 3); if out != b { why = "other bytes".to_string(); }
                } else {
                    let l = process_raw_bytes(&mut r, -1); put(t0, 0); let l = match l { Ok(l) => l, Err(e) => { why = e.to_string(); break; } };
                    t0 = std::time::Instant::now(); get_packed_size(&l); put(t0, 1); let mut out: Vec<u8> = Vec::new(); t0 = std::time::Instant::now(); pack_messages(&l, &mut out); put(t0, 2);
                    let mut r2 = at(&out, 0); t0 = std::time::Instant::now(); let l2 = unpack_messages(&mut r2); put(t0, 3); match l2 { Ok(x) => { if x.len() != l.len() { why = "other list".to_string(); } } Err(e) => { why = e.to_string(); } }
                }
            }
            if why != "" { o.p("ERR "); o.p(&why); } else { o.p("OK"); for d in best { if d != u128::MAX { o.u(d as u64); } } }
        }
        _ => panic!("driver: unknown op {}", op),
    }
    o.s
}
'''

RT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64", "float": "f32",
      "double": "f64", "string": "String"}


def snake(s):
    s = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', s)
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', s).lower()


def emit(p, k, rename=True):
    err = (p.ns if p.ns is not None else "Beschi") + "Error"
    o = ["#![allow(warnings)]", f"use crate::p{k}::*;", "use crate::h::{T, O};"]
    w = o.append
    nm = snake if rename else (lambda s: s)

    def rd(t):
        kd = p.kind(t)
        if kd == "base":
            if t == "bool":
                return "t.b()"
            if t in ("float", "double"):
                return "t." + RT[t] + "()"
            return f"t.{'u' if t in ('byte', 'uint16', 'uint32', 'uint64') else 's'}() as {RT[t]}"
        if kd == "string":
            return "t.str()"
        if kd == "enum":
            return f"rd_e_{t}(t.s())"
        return f"rd_s_{t}(t)"

    def dump(t, lv, ref):
        kd = p.kind(t)
        d = "*" if ref else ""
        if kd == "base":
            if t == "bool":
                return f"o.b({d}{lv});"
            if t in ("float", "double"):
                return f"o.{RT[t]}({d}{lv});"
            return f"o.u({d}{lv} as u64);" if t in ("byte", "uint16", "uint32", "uint64") else f"o.i({d}{lv} as i64);"
        if kd == "string":
            return f"o.str(&{lv});"
        if kd == "enum":
            return f"d_e_{t}(o, &{lv});"
        return f"d_s_{t}(o, &{lv});"
    for e in p.enums.values():
        w(f"fn rd_e_{e.name}(v: i64) -> {e.name} {{ match v {{")
        for n, v in e.values:
            w(f"{v} => {e.name}::{n},")
        w('_ => panic!("driver: enum value") } }')
        w(f"fn d_e_{e.name}(o: &mut O, v: &{e.name}) {{ match v {{")
        for n, v in e.values:
            w(f"{e.name}::{n} => o.i({v}),")
        w("} }")
    for s in list(p.structs.values()) + p.msgs:
        w(f"fn rd_s_{s.name}(t: &mut T) -> {s.name} {{ let mut d = {s.name}::default(); f_s_{s.name}(&mut d, t); d }}")
        w(f"fn f_s_{s.name}(d: &mut {s.name}, t: &mut T) {{")
        for m in s.members:
            f = f"d.{nm(m.name)}"
            if m.is_list:
                w(f"{{ let n = t.n(); {f}.clear(); for _ in 0..n {{ let e = {rd(m.type)}; {f}.push(e); }} }}")
            elif p.kind(m.type) == "struct":
                w(f"f_s_{m.type}(&mut {f}, t);")
            else:
                w(f"{f} = {rd(m.type)};")
        w("}")
        w(f"fn d_s_{s.name}(o: &mut O, d: &{s.name}) {{")
        for m in s.members:
            f = f"d.{nm(m.name)}"
            if m.is_list:
                w(f"o.u({f}.len() as u64); for e in {f}.iter() {{ {dump(m.type, 'e', True)} }}")
            else:
                w(dump(m.type, f, False))
        w("}")

    def sw(sig, arm):
        w(sig + " { match mi {")
        for i, m in enumerate(p.msgs):
            w(f"{i} => {arm(m.name)},")
        w('_ => panic!("driver: message index") } }')
    sw("fn mk(mi: usize, t: &mut T) -> Message", lambda n: f"Message::{n}(rd_s_{n}(t))")
    sw("fn fresh(mi: usize) -> Message", lambda n: f"Message::{n}({n}::default())")
    sw(f"fn read(mi: usize, r: &mut BufferReader) -> Result<Message, {err}>", lambda n: f"{n}::from_bytes(r).map(Message::{n})")
    w("fn index_of(mt: &MessageType) -> usize { match mt {")
    for i, m in enumerate(p.msgs):
        w(f"MessageType::{m.name} => {i},")
    w("} }")
    sw("fn specific(mi: usize) -> usize", lambda n: f"index_of(&{n}::default().get_message_type())")
    w("fn index_of_msg(m: &Message) -> usize { match m {")
    for i, m in enumerate(p.msgs):
        w(f"Message::{m.name}(_) => {i},")
    w("} }")
    w("fn refill(m: &mut Message, t: &mut T) { match m {")
    for m in p.msgs:
        w(f"Message::{m.name}(v) => f_s_{m.name}(v, t),")
    w("} }")
    w("fn dump(o: &mut O, m: &Message) { match m {")
    for m in p.msgs:
        w(f"Message::{m.name}(v) => d_s_{m.name}(o, v),")
    w("} }")
    w(OPS.replace("@ERR@", err))
    return "\n".join(o)


# machines there is no hardware for here, interpreted by Miri (which also watches for undefined behaviour and data races)
MIRI = {"be": "s390x-unknown-linux-gnu", "m32": "i686-unknown-linux-gnu", "miri": "x86_64-unknown-linux-gnu"}
_sysroots = {}
_sysroot_lock = threading.Lock()


def miri(target):
    """command that interprets a Rust source file for a machine; its standard library is compiled on first use"""
    with _sysroot_lock:
        if target not in _sysroots:
            _sysroots[target] = [threading.Lock(), None]
    slot = _sysroots[target]
    with slot[0]:
        if slot[1] is None:
            d = common.subdir("miri-" + target)
            r = common.run(["cargo", "+nightly", "miri", "setup", "--target", target], env={"MIRI_SYSROOT": d, "CARGO_NET_OFFLINE": "true"}, timeout=600)
            if not os.path.isdir(os.path.join(d, "lib")):
                r = common.run(["cargo", "+nightly", "miri", "setup", "--target", target], env={"XDG_CACHE_HOME": d, "CARGO_NET_OFFLINE": "true"}, timeout=600)
                d = os.path.join(d, "miri")
            if r.rc != 0 or not os.path.isdir(os.path.join(d, "lib")):
                raise engine.Unavailable(f"miri for {target}: {r.err[-600:]}")
            w = common.run(["rustup", "which", "--toolchain", "nightly", "miri"])
            slot[1] = [w.out.strip(), "--edition", "2021", "--sysroot", d, "--target", target, "-Zmiri-disable-isolation", "-Zmiri-disable-stacked-borrows"]
    return slot[1]


def build(protos, wd, extra=(), mode="plain", rename=True, idx=None):
    idx = list(idx) if idx is not None else list(range(len(protos)))
    root = os.path.join(wd, f"rust_{mode}")
    os.makedirs(root, exist_ok=True)

    def one(k):
        p = protos[k]
        engine.generate("rust", p.toml(), root, f"p{k}", ".rs", extra_for(extra, p))
        open(os.path.join(root, f"d{k}.rs"), "w").write(emit(p, k, rename))
    common.pmap(one, idx)
    open(os.path.join(root, "h.rs"), "w").write(HELP)

    # split over several crates so that the compiler runs in parallel
    ngroups = min(4, len(idx))
    groups = [idx[i::ngroups] for i in range(ngroups)]

    def comp(gi):
        g = groups[gi]
        main = MAIN.replace("@MODS@", "\n".join(f"mod p{k}; mod d{k};" for k in g)).replace("@CASES@", "\n".join(f"        {k} => d{k}::run_op(t)," for k in g))
        src = os.path.join(root, f"main{gi}.rs")
        open(src, "w").write(main)
        exe = os.path.join(root, f"drv{gi}")
        if mode in MIRI:
            return Unit(miri(MIRI[mode]) + [src], g, cpu=400)
        opt = ["opt-level=3", "debug-assertions=off", "overflow-checks=off"] if mode == "release" else ["opt-level=0", "debug-assertions=on", "overflow-checks=on"]
        r = common.run(["rustc", "--edition", "2021"] + [x for o in opt for x in ("-C", o)] + ["-C", "debuginfo=0", "-o", exe, src], cwd=root, timeout=600)
        if r.rc != 0:
            raise BuildError("rust", f"compile group {g}", r.err[:3000])
        return Unit([exe], g)
    return Built("rust", common.pmap(comp, range(len(groups))))
