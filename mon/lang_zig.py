"""Zig: all protocols in one executable, safety checks on, a leak-checking and failing allocator underneath."""
import os
from . import common, engine
from .engine import Built, Unit, BuildError
from .lang_c import extra_for

EXT = ".zig"
HELP = r'''
const std = @import("std");
pub var arena = std.heap.ArenaAllocator.init(std.heap.page_allocator);

// counts live allocations, refuses absurd sizes, fails the k-th allocation on demand
pub const Track = struct {
    inner: std.mem.Allocator, live: i64 = 0, bytes: u64 = 0, peak: u64 = 0, count: i64 = 0, fail_at: i64 = -1, triggered: bool = false,
    pub fn allocator(self: *Track) std.mem.Allocator { return .{ .ptr = self, .vtable = &.{ .alloc = alloc, .resize = resize, .free = free } }; }
    fn alloc(ctx: *anyopaque, len: usize, a: u8, ra: usize) ?[*]u8 {
        const self: *Track = @ptrCast(@alignCast(ctx));
        self.count += 1;
        if (self.fail_at >= 0 and self.count - 1 == self.fail_at) { self.triggered = true; return null; }
        self.peak = @max(self.peak, self.bytes +| len);
        if (len > (1 << 28)) return null;
        const r = self.inner.rawAlloc(len, a, ra);
        if (r != null) { self.live += 1; self.bytes += len; }
        return r;
    }
    fn resize(ctx: *anyopaque, buf: []u8, a: u8, n: usize, ra: usize) bool {
        const self: *Track = @ptrCast(@alignCast(ctx));
        if (self.fail_at >= 0) return false;
        self.peak = @max(self.peak, self.bytes - buf.len +| n);
        if (n > (1 << 28) or !self.inner.rawResize(buf, a, n, ra)) return false;
        self.bytes = self.bytes - buf.len + n;
        return true;
    }
    fn free(ctx: *anyopaque, buf: []u8, a: u8, ra: usize) void {
        const self: *Track = @ptrCast(@alignCast(ctx));
        self.live -= 1;
        self.bytes -= buf.len;
        self.inner.rawFree(buf, a, ra);
    }
};

pub const T = struct {
    it: std.mem.TokenIterator(u8, .scalar), a: std.mem.Allocator,
    pub fn next(self: *T) []const u8 { return self.it.next() orelse @panic("driver: missing token"); }
    pub fn more(self: *T) bool { return self.it.peek() != null; }
    pub fn s(self: *T) i64 { return std.fmt.parseInt(i64, self.next(), 10) catch @panic("driver: number"); }
    pub fn u(self: *T) u64 { return std.fmt.parseInt(u64, self.next(), 10) catch @panic("driver: number"); }
    pub fn n(self: *T) usize { return @intCast(self.s()); }
    pub fn b(self: *T) bool { return self.u() != 0; }
    pub fn f32_(self: *T) f32 { return @bitCast(@as(u32, @intCast(self.u()))); }
    pub fn f64_(self: *T) f64 { return @bitCast(self.u()); }
    pub fn hexIn(self: *T, a: std.mem.Allocator) []u8 { const t = self.next(); const r = a.alloc(u8, (t.len - 1) / 2) catch @panic("driver: oom"); _ = std.fmt.hexToBytes(r, t[1..]) catch @panic("driver: hex"); return r; }
    pub fn hex(self: *T) []u8 { return self.hexIn(arena.allocator()); }
};
pub const O = struct {
    l: std.ArrayList(u8),
    pub fn p(self: *O, comptime f: []const u8, args: anytype) void { self.l.writer().print(f, args) catch @panic("driver: oom"); }
    pub fn i(self: *O, v: i64) void { self.p(" {d}", .{v}); }
    pub fn u(self: *O, v: u64) void { self.p(" {d}", .{v}); }
    pub fn b(self: *O, v: bool) void { self.p(" {d}", .{@intFromBool(v)}); }
    pub fn f32_(self: *O, v: f32) void { self.u(@as(u32, @bitCast(v))); }
    pub fn f64_(self: *O, v: f64) void { self.u(@bitCast(v)); }
    pub fn x(self: *O, v: []const u8) void { self.p(" x{s}", .{std.fmt.fmtSliceHexLower(v)}); }
};
'''
MAIN = r'''
const std = @import("std"); const h = @import("h.zig");
@IMPORTS@
pub fn main() !void {
    var br = std.io.bufferedReader(std.io.getStdIn().reader());
    var line = std.ArrayList(u8).init(std.heap.page_allocator);
    while (true) {
        line.clearRetainingCapacity();
        br.reader().streamUntilDelimiter(line.writer(), '\n', null) catch |e| { if (e == error.EndOfStream) break; return e; };
        if (line.items.len == 0) continue;
        _ = h.arena.reset(.free_all);
        var gpa = std.heap.GeneralPurposeAllocator(.{ .stack_trace_frames = 0 }){};
        var tr = h.Track{ .inner = gpa.allocator() };
        var t = h.T{ .it = std.mem.tokenizeScalar(u8, line.items, ' '), .a = tr.allocator() };
        var o = h.O{ .l = std.ArrayList(u8).init(h.arena.allocator()) };
        const k = t.n();
        switch (k) {
@CASES@
            else => @panic("driver: protocol index"),
        }
        if (tr.live != 0) o.p(" LEAK {d}", .{tr.live});
        const out = std.io.getStdOut().writer();
        try out.print("> {s}\n", .{o.l.items});
    }
}
'''
OPS = r'''
fn deinitMsg(m: *P.Message, a: std.mem.Allocator) void { switch (m.*) { inline else => |*inner| { if (comptime @hasDecl(@TypeOf(inner.*), "deinit")) { inner.deinit(a); } } } }
fn Items(t: *h.T) []P.Message { const n = t.n(); const l = h.arena.allocator().alloc(P.Message, n) catch @panic("driver: oom"); for (0..n) |i| { const mi = t.n(); l[i] = mk(mi, t); } return l; }
fn dumpList(o: *h.O, l: []P.Message) void { o.p(" {d}", .{l.len}); for (l) |*m| { o.p(" | {d}", .{@intFromEnum(std.meta.activeTag(m.*))}); dump(o, m); } }
fn freeList(l: []P.Message, a: std.mem.Allocator) void { for (l) |*m| deinitMsg(m, a); a.free(l); }
fn conc(m: *const P.Message, want: []const u8, ok: *bool) void { var buf: [65536]u8 = undefined; for (0..5) |_| { const n = m.writeBytes(0, buf[0..want.len], true); if (n != want.len or m.getSizeInBytes() + 1 != n or !std.mem.eql(u8, buf[0..n], want)) ok.* = false; } }
fn ty(m: *const P.Message, want: []const u8) i64 { const b = h.arena.allocator().alloc(u8, m.getSizeInBytes() + 1) catch @panic("driver: oom"); const n = m.writeBytes(0, b, true); return @intFromEnum(std.meta.activeTag(m.*)) + @as(i64, if (std.mem.eql(u8, b[0..n], want)) 1 else 1001); }
const Job = struct { mi: usize, b: []u8, d: []u8 };
fn sameAs(m: *const P.Message, b: []const u8) bool { const o = std.heap.page_allocator.alloc(u8, m.getSizeInBytes() + 1) catch return false; defer std.heap.page_allocator.free(o); const n = m.writeBytes(0, o, true); return n == b.len and std.mem.eql(u8, o[0..n], b); }
fn work(jobs: []const Job, g: usize, bad: *[]const u8) void {
    var gpa = std.heap.GeneralPurposeAllocator(.{ .thread_safe = false }){}; const a = gpa.allocator(); const n = jobs.len;
    for (0..3 * n) |it| {
        const j = jobs[(it * (if (g % 2 == 0) n - 1 else 1) + g * n / 4) % n]; var pos: usize = 1;
        if (readMsg(j.mi, a, &pos, j.b)) |*m0| { var m = m0.*; if (!sameAs(&m, j.b)) bad.* = "reread";
            var l1 = [_]P.Message{m}; const pk = a.alloc(u8, P.getPackedSize(l1[0..])) catch return; P.packMessages(l1[0..], pk); deinitMsg(&m, a);
            if (P.unpackMessages(a, pk)) |l| { if (l.len != 1 or !sameAs(&l[0], j.b)) bad.* = "unpacked"; freeList(l, a); } else |_| bad.* = "unpack"; a.free(pk); } else |_| { bad.* = "read"; }
        if (P.processRawBytes(a, j.b, -1)) |l| { if (l.len != 1 or !sameAs(&l[0], j.b)) bad.* = "processed"; freeList(l, a); } else |_| bad.* = "process";
        if (j.b.len > 1) { if (P.processRawBytes(a, j.b[0 .. j.b.len - 1], -1)) |l| { bad.* = "cut accepted"; freeList(l, a); } else |_| {} }
        var f = fresh(j.mi); if (!sameAs(&f, j.d)) bad.* = "default"; deinitMsg(&f, a);
    }
    if (gpa.deinit() == .leak) bad.* = "leak";
}
pub fn runOp(t: *h.T, o: *h.O, tr: *h.Track) void {
    const A = h.arena.allocator(); const op = t.next(); const a = tr.allocator();
    const oom = "driver: oom";
    switch (op[0]) {
        'E', 'V' => { const mi = t.n(); const mode: usize = if (op[0] == 'V') t.n() else 9; var m = mk(mi, t);
            if (mode != 9) { const w0 = A.alloc(u8, m.getSizeInBytes() + 1) catch @panic(oom); const n0 = m.writeBytes(0, w0, true);
                if (mode == 1) { var pos: usize = 1; if (readMsg(mi, a, &pos, w0[0..n0])) |m1| { deinitMsg(&m, a); m = m1; } else |e| { o.p("ERR {s}", .{@errorName(e)}); deinitMsg(&m, a); return; } }
                var l1 = [_]P.Message{m}; const pk = A.alloc(u8, P.getPackedSize(l1[0..])) catch @panic(oom); P.packMessages(l1[0..], pk); _ = m.writeBytes(0, w0, mode == 0); deinitMsg(&m, a); refill(&m, t); }
            const size = m.getSizeInBytes(); const b1 = A.alloc(u8, size + 1) catch @panic(oom); const b2 = A.alloc(u8, size) catch @panic(oom); const b3 = A.alloc(u8, size + 1) catch @panic(oom);
            const n1 = m.writeBytes(0, b1, true); const n2 = m.writeBytes(0, b2, false); const n3 = P.writeBytes(&m, 0, b3, true);
            const same = n1 == n3 and std.mem.eql(u8, b1, b3) and n1 == n2 + 1 and std.mem.eql(u8, b1[1..], b2) and size == m.getSizeInBytes() and @intFromEnum(std.meta.activeTag(m)) == mi;
            o.p("OK {d} {d} {d}", .{ size, n1, n2 }); o.b(same); o.x(b1[0..n1]); o.x(b2[0..n2]); deinitMsg(&m, a); },
        'D', 'I' => { const mi = t.n(); const off = t.n(); const b = t.hexIn(std.heap.page_allocator); const cp = A.dupe(u8, b) catch @panic(oom); var pos: usize = off;
            if (readMsg(mi, a, &pos, b)) |*m0| { var m = m0.*; const same = std.mem.eql(u8, b, cp); if (op[0] == 'I') @memset(b, 0xEE); o.p("OK {d}", .{pos}); if (op[0] == 'I') o.b(same); dump(o, &m); if (!same) o.p(" BUFFERCHANGED", .{}); deinitMsg(&m, a); }
            else |e| { o.p("ERR {s}", .{@errorName(e)}); } if (b.len > 0) std.heap.page_allocator.free(b); },
        'Q' => { var pos = t.n(); const b = t.hex(); o.p("OK", .{}); while (t.more()) { const mi = t.n(); if (readMsg(mi, a, &pos, b)) |*m0| { var m = m0.*; o.p(" | {d}", .{pos}); dump(o, &m); deinitMsg(&m, a); } else |e| { o.p(" ERR {s}", .{@errorName(e)}); break; } } },
        'N' => { const tag = t.b(); const off = t.n(); const l = Items(t); var total: usize = 0; for (l) |*m| total += m.getSizeInBytes() + @as(usize, @intFromBool(tag)); const w = A.alloc(u8, off + total + 16) catch @panic(oom); @memset(w, 0xAA); var pos = off;
            for (l) |*m| { pos += m.writeBytes(pos, w[0 .. off + total], tag); } o.p("OK {d}", .{pos}); o.x(w); for (l) |*m| deinitMsg(m, a); },
        'S' => { const max: i32 = @intCast(t.s()); const off = t.n(); const b = t.hex(); const r = P.processRawBytes(a, b[off..], max); @memset(b, 0xEE);
            if (r) |l| { o.p("OK -1", .{}); dumpList(o, l); freeList(l, a); } else |e| { o.p("ERR {s}", .{@errorName(e)}); } },
        'P' => { const off = t.n(); const l = Items(t); const ps = P.getPackedSize(l); const w = A.alloc(u8, off + ps + 16) catch @panic(oom); @memset(w, 0xAA); P.packMessages(l, w[off .. off + ps]); o.p("OK {d} {d}", .{ ps, ps }); o.x(w[off .. off + ps]);
            for (w[0..off]) |c| { if (c != 0xAA) { o.p(" CLOBBER", .{}); break; } } for (w[off + ps ..]) |c| { if (c != 0xAA) { o.p(" CLOBBER", .{}); break; } } for (l) |*m| deinitMsg(m, a); },
        'U' => { const off = t.n(); const b = t.hex(); const r = P.unpackMessages(a, b[off..]); @memset(b, 0xEE);
            if (r) |l| { o.p("OK -1", .{}); dumpList(o, l); freeList(l, a); } else |e| { o.p("ERR {s}", .{@errorName(e)}); } },
        'F' => { const mi = t.n(); var m = fresh(mi); var m2 = fresh(mi); const s = m.getSizeInBytes(); const b = A.alloc(u8, s) catch @panic(oom); const c = A.alloc(u8, s) catch @panic(oom); const n = m.writeBytes(0, b, false); const n2 = m2.writeBytes(0, c, false);
            o.p("OK {d}", .{s}); o.x(b[0..n]); o.x(c[0..n2]); o.u(@intFromEnum(std.meta.activeTag(m))); dump(o, &m); o.p(" /", .{}); dump(o, &m2); deinitMsg(&m, a); deinitMsg(&m2, a); },
        'T' => { const mi = t.n(); var m = mk(mi, t); const s = m.getSizeInBytes(); const b = A.alloc(u8, s + 1) catch @panic(oom); const n = m.writeBytes(0, b, true); var l1 = [_]P.Message{m}; const pk = A.alloc(u8, P.getPackedSize(l1[0..])) catch @panic(oom); P.packMessages(l1[0..], pk); var pos: usize = 1;
            o.p("OK {d} {d} {d}", .{ constOf(mi), @intFromEnum(std.meta.activeTag(fresh(mi))) + @as(i64, 1), @intFromEnum(std.meta.activeTag(m)) + @as(i64, 1) });
            if (readMsg(mi, a, &pos, b[0..n])) |*m0| { var r = m0.*; o.i(ty(&r, b[0..n])); deinitMsg(&r, a); } else |_| o.i(-2);
            if (P.processRawBytes(a, b[0..n], -1)) |l| { o.i(if (l.len == 1) ty(&l[0], b[0..n]) else -1); freeList(l, a); } else |_| o.i(-2);
            if (P.unpackMessages(a, pk)) |l| { o.i(if (l.len == 1) ty(&l[0], b[0..n]) else -1); freeList(l, a); } else |_| o.i(-2);
            if (P.processRawBytes(a, b[0..n], 1)) |l| { o.i(if (l.len == 1) ty(&l[0], b[0..n]) else -1); freeList(l, a); } else |_| o.i(-2);
            o.x(b[0..1]); deinitMsg(&m, a); },
        'C' => { const mi = t.n(); var m = mk(mi, t); const s = m.getSizeInBytes(); const b = A.alloc(u8, s + 1) catch @panic(oom); const n = m.writeBytes(0, b, true); var ok = [_]bool{true} ** 3; if (n <= 65536) { var th: [3]std.Thread = undefined; for (0..3) |i| th[i] = std.Thread.spawn(.{}, conc, .{ &m, b[0..n], &ok[i] }) catch @panic("driver: thread"); for (th) |x| x.join(); }
            o.p("OK", .{}); o.b(ok[0] and ok[1] and ok[2]); o.x(b[0..n]); dump(o, &m); deinitMsg(&m, a); },
        // one capacity: writing into too small a buffer must be stopped by a bounds check
        'W' => { const cap = t.n(); const tag = t.b(); const mi = t.n(); var m = mk(mi, t); const w = A.alloc(u8, cap) catch @panic(oom); const n = m.writeBytes(0, w, tag); o.p("OK {d}", .{n}); deinitMsg(&m, a); },
        'K' => { const cap = t.n(); const l = Items(t); const w = A.alloc(u8, cap) catch @panic(oom); P.packMessages(l, w); o.p("OK", .{}); for (l) |*m| deinitMsg(m, a); },
        'A' => { const what = t.next(); const mi = if (what[0] == 'D') t.n() else 0; const max: i32 = if (what[0] == 'S') @intCast(t.s()) else -1; const b = t.hex(); var k: i64 = 0; var bad = false;
            while (k < 4000 and !bad) : (k += 1) {
                tr.count = 0; tr.triggered = false; tr.fail_at = k; tr.live = 0; var err: ?anyerror = null; var nothing: usize = 0;
                switch (what[0]) {
                    'D' => { if (readMsg(mi, a, &nothing, b)) |*m0| { var m = m0.*; tr.fail_at = -1; deinitMsg(&m, a); } else |e| { err = e; } },
                    'S' => { if (P.processRawBytes(a, b, max)) |l| { tr.fail_at = -1; freeList(l, a); } else |e| { err = e; } },
                    else => { if (P.unpackMessages(a, b)) |l| { tr.fail_at = -1; freeList(l, a); } else |e| { err = e; } },
                }
                tr.fail_at = -1;
                if (!tr.triggered) { if (err) |e| { o.p("BAD no fault but error {s}", .{@errorName(e)}); bad = true; } if (tr.live != 0) { o.p("BAD leak without fault", .{}); bad = true; } break; }
                if (err) |e| { if (e != error.OutOfMemory) { o.p("BAD fault at allocation {d} reported as {s}", .{ k, @errorName(e) }); bad = true; } else if (tr.live != 0) { o.p("BAD fault at allocation {d} leaks {d}", .{ k, tr.live }); bad = true; } }
                else { o.p("BAD fault at allocation {d} reported as success", .{k}); bad = true; }
            }
            tr.live = 0; if (!bad) o.p("OK {d}", .{k}); },
        'Y' => { const n = t.n(); const jobs = A.alloc(Job, n) catch @panic(oom); for (0..n) |i| { jobs[i].mi = t.n(); jobs[i].b = t.hex(); jobs[i].d = t.hex(); }
            var th: [4]std.Thread = undefined; var bad = [_][]const u8{""} ** 4; for (0..4) |i| th[i] = std.Thread.spawn(.{}, work, .{ jobs, i, &bad[i] }) catch @panic("driver: thread"); for (th) |x| x.join();
            o.p("OK", .{}); for (bad) |x| { if (x.len > 0) o.p(" BAD {s}", .{x}); } },
        // the bytes at the very end or start of pages that can only be read, next to ones that cannot even be read; or in a constant
        'R' => { const kind = t.next(); _ = t.n(); const what = t.next(); const v = t.s(); const x = t.hex(); const pg = std.mem.page_size; const len = (x.len / pg + 1) * pg;
            const map = std.posix.mmap(null, len + 2 * pg, std.posix.PROT.READ | std.posix.PROT.WRITE, .{ .TYPE = .PRIVATE, .ANONYMOUS = true }, -1, 0) catch @panic("driver: mmap"); @memset(map, 1);
            const b = if (kind[0] == 'e') map[pg + len - x.len .. pg + len] else map[pg .. pg + x.len]; @memcpy(b, x); std.posix.mprotect(@alignCast(map[pg .. pg + len]), std.posix.PROT.READ) catch @panic("driver: mprotect");
            std.posix.mprotect(@alignCast(map[0..pg]), std.posix.PROT.NONE) catch @panic("driver: mprotect"); std.posix.mprotect(@alignCast(map[pg + len ..]), std.posix.PROT.NONE) catch @panic("driver: mprotect"); var pos: usize = 0;
            switch (what[0]) {
                'D' => { const r = readMsg(@intCast(v), a, &pos, b); std.posix.munmap(map); if (r) |*m0| { var m = m0.*; o.p("OK {d}", .{pos}); dump(o, &m); deinitMsg(&m, a); } else |e| { o.p("ERR {s}", .{@errorName(e)}); } },
                'S' => { const r = P.processRawBytes(a, b, @intCast(v)); std.posix.munmap(map); if (r) |l| { o.p("OK -1", .{}); dumpList(o, l); freeList(l, a); } else |e| { o.p("ERR {s}", .{@errorName(e)}); } },
                else => { const r = P.unpackMessages(a, b); std.posix.munmap(map); if (r) |l| { o.p("OK -1", .{}); dumpList(o, l); freeList(l, a); } else |e| { o.p("ERR {s}", .{@errorName(e)}); } },
            } },
        'Z' => { const kind = t.next(); const l = Items(t); o.p("OK", .{});
            for (0..2 * l.len + 1) |i| {
                const n = if (i < 2 * l.len) l[i / 2].getSizeInBytes() + (1 - i % 2) else P.getPackedSize(l); const pg = std.mem.page_size; const len = (n / pg + 1) * pg;
                const map = std.posix.mmap(null, len + 2 * pg, std.posix.PROT.READ | std.posix.PROT.WRITE, .{ .TYPE = .PRIVATE, .ANONYMOUS = true }, -1, 0) catch @panic("driver: mmap"); @memset(map, 0xAA); defer std.posix.munmap(map);
                std.posix.mprotect(@alignCast(map[0..pg]), std.posix.PROT.NONE) catch @panic("driver: mprotect"); std.posix.mprotect(@alignCast(map[pg + len ..]), std.posix.PROT.NONE) catch @panic("driver: mprotect");
                const from = if (kind[0] == 'e') pg + len - n else pg; const b = map[from .. from + n]; var end = n;
                if (i == 2 * l.len) { P.packMessages(l, b); } else { end = l[i / 2].writeBytes(0, b, i % 2 == 0); }
                o.x(b[0..end]); for (map[pg..from]) |c| { if (c != 0xAA) { o.p(" CLOBBER", .{}); break; } } for (map[from + n .. pg + len]) |c| { if (c != 0xAA) { o.p(" CLOBBER", .{}); break; } }
            } for (l) |*m| deinitMsg(m, a); },
        'M' => { const what = t.next(); const mi = if (what[0] == 'D') t.n() else 0; const max: i32 = if (what[0] == 'S') @intCast(t.s()) else -1; const b = t.hex(); var pos: usize = 0; tr.bytes = 0; tr.peak = 0; var ok = true;
            switch (what[0]) {
                'D' => { if (readMsg(mi, a, &pos, b)) |*m0| { var m = m0.*; deinitMsg(&m, a); } else |_| { ok = false; } },
                'S' => { if (P.processRawBytes(a, b, max)) |l| { freeList(l, a); } else |_| { ok = false; } },
                else => { if (P.unpackMessages(a, b)) |l| { freeList(l, a); } else |_| { ok = false; } },
            }
            o.p("{s} {d}", .{ if (ok) "OK" else "ERR", tr.peak }); },
        'X' => { const what = t.next(); const mi = if (what[0] == 'D') t.n() else 0; const b = t.hex(); var best = [_]u64{0} ** 5; var ok = true; var from = std.time.Timer.start() catch @panic("driver: timer"); var rep: usize = 0;
            while (rep < 5 and ok and (rep < 1 or from.read() < 300000000)) : (rep += 1) {
                var ar = std.heap.ArenaAllocator.init(std.heap.page_allocator); defer ar.deinit(); const q = ar.allocator(); var tm = std.time.Timer.start() catch @panic("driver: timer"); var pos: usize = 0;
                if (what[0] == 'D') {
                    if (readMsg(mi, q, &pos, b)) |*m0| { var m = m0.*; put(&best[0], tm.lap()); const s = m.getSizeInBytes(); put(&best[1], tm.lap()); const w = A.alloc(u8, s) catch @panic(oom); _ = tm.lap(); _ = m.writeBytes(0, w, false); put(&best[2], tm.lap()); if (!std.mem.eql(u8, w, b)) ok = false; A.free(w); _ = tm.lap(); deinitMsg(&m, q); put(&best[3], tm.lap()); } else |_| { ok = false; }
                } else {
                    if (P.processRawBytes(q, b, -1)) |l| { put(&best[0], tm.lap()); const s = P.getPackedSize(l); put(&best[1], tm.lap()); const w = A.alloc(u8, s) catch @panic(oom); _ = tm.lap(); P.packMessages(l, w); put(&best[2], tm.lap()); freeList(l, q); put(&best[3], tm.lap());
                        if (P.unpackMessages(q, w)) |l2| { put(&best[4], tm.lap()); if (l2.len != l.len) ok = false; } else |_| { ok = false; } A.free(w); } else |_| { ok = false; }
                }
            }
            o.p("{s}", .{if (ok) "OK" else "ERR"}); for (best) |d| { if (d > 0) o.u(d); } },
        else => @panic("driver: unknown op"),
    }
}
fn put(best: *u64, d: u64) void { if (best.* == 0 or d + 1 < best.*) best.* = d + 1; }
'''
ZT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64", "float": "f32",
      "double": "f64", "string": "[]const u8"}


def emit(p, k):
    o = [f'const std = @import("std"); const h = @import("h.zig"); const P = @import("p{k}.zig");']
    w = o.append
    zt = lambda t: ZT.get(t, "P." + t)

    def rd(t):
        kd = p.kind(t)
        if kd == "base":
            if t == "bool":
                return "t.b()"
            if t in ("float", "double"):
                return f"t.{ZT[t]}_()"
            return f"@intCast(t.{'u' if t in ('byte', 'uint16', 'uint32', 'uint64') else 's'}())"
        if kd == "string":
            return "t.hexIn(t.a)"
        if kd == "enum":
            return f"rdE_{t}(t.s())"
        return f"rdS_{t}(t)"

    def dump(t, lv):
        kd = p.kind(t)
        if kd == "base":
            if t == "bool":
                return f"o.b({lv});"
            if t in ("float", "double"):
                return f"o.{ZT[t]}_({lv});"
            return f"o.u({lv});" if t in ("byte", "uint16", "uint32", "uint64") else f"o.i({lv});"
        if kd == "string":
            return f"o.x({lv});"
        if kd == "enum":
            return f"dE_{t}(o, {lv});"
        return f"dS_{t}(o, &{lv});"
    for e in p.enums.values():
        w(f"fn rdE_{e.name}(v: i64) P.{e.name} {{ return switch (v) {{")
        for n, v in e.values:
            w(f"{v} => P.{e.name}.{n},")
        w('else => @panic("driver: enum") }; }')
        w(f"fn dE_{e.name}(o: *h.O, v: P.{e.name}) void {{ switch (v) {{")
        for n, v in e.values:
            w(f"P.{e.name}.{n} => o.i({v}),")
        w("} }")
    for s in list(p.structs.values()) + p.msgs:
        e = not s.members
        w(f"fn rdS_{s.name}({'_' if e else 't'}: *h.T) P.{s.name} {{ {'const' if e else 'var'} d = P.{s.name}{{}}; {'' if e else f'f_{s.name}(&d, t); '}return d; }}")
        w(f"fn f_{s.name}({'_' if e else 'd'}: *P.{s.name}, {'_' if e else 't'}: *h.T) void {{")
        for m in s.members:
            if m.is_list:
                w(f"{{ const n = t.n(); d.{m.name} = t.a.alloc({zt(m.type)}, n) catch @panic(\"driver: oom\"); for (0..n) |i| {{ d.{m.name}[i] = {rd(m.type)}; }} }}")
            elif p.kind(m.type) == "struct":
                w(f"f_{m.type}(&d.{m.name}, t);")
            else:
                w(f"d.{m.name} = {rd(m.type)};")
        w("}")
        w(f"fn dS_{s.name}({'_' if e else 'o'}: *h.O, {'_' if e else 'd'}: *const P.{s.name}) void {{")
        for m in s.members:
            if m.is_list:
                ref = "*" if p.kind(m.type) == "struct" else ""
                w(f"o.u(d.{m.name}.len); for (d.{m.name}) |{ref}e| {{ {dump(m.type, 'e.*' if ref else 'e')} }}")
            else:
                w(dump(m.type, "d." + m.name))
        w("}")

    def sw(sig, arm):
        w(sig + " { return switch (mi) {")
        for i, m in enumerate(p.msgs):
            w(f"{i} => {arm(m)},")
        w('else => @panic("driver: message index") }; }')
    sw("fn mk(mi: usize, t: *h.T) P.Message", lambda m: f"P.Message{{ .{m.name} = rdS_{m.name}(t) }}")
    sw("fn fresh(mi: usize) P.Message", lambda m: f"P.Message{{ .{m.name} = P.{m.name}{{}} }}")
    sw("fn constOf(mi: usize) i64", lambda m: f"@as(i64, @intFromEnum(P.MessageType.{m.name})) + 1")
    an = "_" if all(p.is_simple_msg(m) for m in p.msgs) else "a"
    sw(f"fn readMsg(mi: usize, {an}: std.mem.Allocator, pos: *usize, b: []const u8) anyerror!P.Message",
       lambda m: f"blk: {{ const r = try P.{m.name}.fromBytes({'' if p.is_simple_msg(m) else 'a, '}pos.*, b); pos.* += r.bytes_read; break :blk P.Message{{ .{m.name} = r.value }}; }}")
    w("fn refill(m: *P.Message, t: *h.T) void { switch (m.*) {")
    for m in p.msgs:
        w(f".{m.name} => |*v| f_{m.name}(v, t),")
    w("} }")
    w("fn dump(o: *h.O, m: *const P.Message) void { switch (m.*) {")
    for m in p.msgs:
        w(f".{m.name} => |*v| dS_{m.name}(o, v),")
    w("} }")
    w(OPS)
    return "\n".join(o)


def build(protos, wd, extra=(), mode="plain", idx=None):
    idx = list(idx) if idx is not None else list(range(len(protos)))
    root = os.path.join(wd, f"zig_{mode}")
    os.makedirs(root, exist_ok=True)
    common.pmap(lambda k: engine.generate("zig", protos[k].toml(), root, f"p{k}", ".zig", extra_for(extra, protos[k])), idx)
    for k in idx:
        open(os.path.join(root, f"d{k}.zig"), "w").write(emit(protos[k], k))
    open(os.path.join(root, "h.zig"), "w").write(HELP)
    ng = min(2, len(idx))
    groups = [idx[i::ng] for i in range(ng)]

    def comp(gi):
        g = groups[gi]
        main = os.path.join(root, f"main{gi}.zig")
        open(main, "w").write(MAIN.replace("@IMPORTS@", "\n".join(f'const d{k} = @import("d{k}.zig");' for k in g))
                              .replace("@CASES@", "\n".join(f"            {k} => d{k}.runOp(&t, &o, &tr)," for k in g)))
        exe = os.path.join(root, f"drv{gi}")
        flags = {"plain": ["-ODebug", "-fno-strip"], "m32": ["-target", "x86-linux-musl", "-ODebug"], "tsan": ["-ODebug", "-fsanitize-thread"], "safe": ["-OReleaseSafe"], "fast": ["-OReleaseFast"], "small32": ["-target", "x86-linux-musl", "-OReleaseSmall"]}[mode]
        r = common.run(["zig", "build-exe"] + flags + [f"-femit-bin={exe}", main], cwd=root, timeout=600)
        if r.rc != 0:
            raise BuildError("zig", f"compile group {g}", r.err[:3000])
        return Unit([exe], g, env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"} if mode == "tsan" else {}, cpu=240 if mode == "tsan" else 60)
    return Built("zig", common.pmap(comp, range(len(groups))))
