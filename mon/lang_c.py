"""C: one executable per protocol; ASan+UBSan (or MSan/TSan) and a counting, failing allocator."""
import os
from . import common, engine
from .model import SIZE
from .engine import Built, Unit, BuildError

EXT = ".h"
PRELUDE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef DRV_THREADS
#include <pthread.h>
#endif
#ifdef DRV_PAGES
#include <sys/mman.h>
#endif

/* ---- counting allocator: every allocation of the generated code comes through here */
static void** drv_tab; static size_t* drv_len; static size_t drv_n, drv_cap;
static long drv_live, drv_count, drv_fail_at = -1, drv_triggered;
static uint64_t drv_bytes, drv_peak; static size_t drv_cap_bytes = (size_t)1 << 28;
static void drv_ask(size_t n) { if (drv_bytes + n > drv_peak || drv_bytes + n < n) drv_peak = drv_bytes + n < n ? UINT64_MAX : drv_bytes + n; }
static void drv_die(const char* why) { fprintf(stderr, "DRIVER: %s\n", why); fflush(stderr); abort(); }
static void drv_add(void* p, size_t n) {
    if (drv_n == drv_cap) { drv_cap = drv_cap ? drv_cap * 2 : 256; drv_tab = (void**)realloc(drv_tab, drv_cap * sizeof(void*)); drv_len = (size_t*)realloc(drv_len, drv_cap * sizeof(size_t)); }
    drv_tab[drv_n] = p; drv_len[drv_n] = n; drv_n++; drv_live++; drv_bytes += n;
}
static int drv_del(void* p) {
    size_t i = drv_n;
    while (i > 0) { i--; if (drv_tab[i] == p) { drv_bytes -= drv_len[i]; drv_n--; drv_tab[i] = drv_tab[drv_n]; drv_len[i] = drv_len[drv_n]; drv_live--; return 1; } }
    return 0;
}
#ifdef DRV_THREADS
static __thread int drv_raw;      /* in a worker thread: plain allocations, so that nothing here orders one thread after another */
#elif defined(DRV_TIME)
#include <time.h>
enum { drv_raw = 1 };
#else
enum { drv_raw = 0 };
#endif
static void* drv_malloc(size_t n) {
    if (drv_raw) return malloc(n);
    drv_count++;
    if (drv_fail_at >= 0 && drv_count - 1 == drv_fail_at) { drv_triggered = 1; return NULL; }
    drv_ask(n);
    if (n > drv_cap_bytes) return NULL;
    void* p = malloc(n);
    if (p) { if (n) memset(p, 0xA5, n);
#ifdef DRV_MSAN
        __msan_poison(p, n);
#endif
        drv_add(p, n); }
    return p;
}
static void drv_free(void* p) {
    if (!p) return;
    if (drv_raw) { free(p); return; }
    if (!drv_del(p)) drv_die("free of memory that was not allocated (or freed twice)");
    free(p);
}
static void* drv_realloc(void* p, size_t n) {
    if (drv_raw) return realloc(p, n);
    drv_count++;
    if (drv_fail_at >= 0 && drv_count - 1 == drv_fail_at) { drv_triggered = 1; return NULL; }
    drv_ask(n);
    if (n > drv_cap_bytes) return NULL;
    if (p && !drv_del(p)) drv_die("realloc of memory that was not allocated");
    p = realloc(p, n);
    if (p) drv_add(p, n);
    return p;
}
'''
MSAN_PRELUDE = "#define DRV_MSAN 1\n#include <sanitizer/msan_interface.h>\n"

COMMON = r'''
/* ---- tokens */
static char* drv_p;
static char* tok(void) {
    while (*drv_p == ' ') drv_p++;
    if (!*drv_p) drv_die("missing token");
    char* s = drv_p;
    while (*drv_p && *drv_p != ' ') drv_p++;
    if (*drv_p) *drv_p++ = 0;
    return s;
}
static int more(void) { while (*drv_p == ' ') drv_p++; return *drv_p != 0; }
static uint64_t tu(void) { return strtoull(tok(), NULL, 10); }
static int64_t ts(void) { return strtoll(tok(), NULL, 10); }
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static uint8_t* unhex(const char* s, size_t* n) {
    *n = strlen(s) / 2;
    uint8_t* b = (uint8_t*)malloc(*n);   /* exact size: red zones right behind */
    for (size_t i = 0; i < *n; i++) b[i] = (uint8_t)(hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]));
    return b;
}
static void puthex(const uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", b[i]); }
static float tf(void) { uint32_t u = (uint32_t)tu(); float f; memcpy(&f, &u, 4); return f; }
static double td(void) { uint64_t u = tu(); double f; memcpy(&f, &u, 8); return f; }
static void df(float f) { uint32_t u; memcpy(&u, &f, 4); printf(" %u", u); }
static void dd(double f) { uint64_t u; memcpy(&u, &f, 8); printf(" %llu", (unsigned long long)u); }
static void dx(const char* s, uint64_t n) { printf(" x"); puthex((const uint8_t*)s, (size_t)n); if (s && s[n] != 0) printf("!NUL"); }
'''


def prefix(p):
    return (p.ns if p.ns is not None else "beschi") + "_"


class Emit:
    def __init__(self, p):
        self.p, self.px, self.o = p, prefix(p), []
        self.up = self.px.upper()

    def w(self, s):
        self.o.append(s)

    def rd(self, m, acc, d):
        p, px, up = self.p, self.px, self.up

        def one(t, lv, lenlv):
            k = p.kind(t)
            if k == "base":
                if t == "float":
                    self.w(f"{lv} = tf();")
                elif t == "double":
                    self.w(f"{lv} = td();")
                elif t == "bool":
                    self.w(f"{lv} = tu() != 0;")
                elif t in ("byte", "uint16", "uint32", "uint64"):
                    self.w(f"{lv} = ({ {'byte': 'uint8_t'}.get(t, t + '_t') })tu();")
                else:
                    self.w(f"{lv} = ({t}_t)ts();")
            elif k == "string":
                self.w("{ char* s_ = tok(); if (*s_ != 'x') drv_die(\"string token\"); size_t n_; uint8_t* b_ = unhex(s_ + 1, &n_); "
                       f"{lv} = (char*){up}MALLOC(n_ + 1); memcpy({lv}, b_, n_); {lv}[n_] = 0; free(b_); {lenlv} = ({CT[p.sst]})n_; }}")
            elif k == "enum":
                self.w(f"{lv} = rdE_{t}(ts());")
            else:
                self.w(f"rdS_{t}(&({lv}));")
        if not m.is_list:
            one(m.type, f"{acc}{m.name}", f"{acc}{m.name}_len")
            return
        f = f"{acc}{m.name}"
        self.w("{ size_t c_ = (size_t)tu();")
        self.w(f"{f}_len = ({CT[p.lst]})c_;")
        ct = ctype(p, m.type)
        self.w(f"{f} = c_ ? ({ct}*){up}MALLOC(sizeof({ct}) * c_) : NULL;")
        if m.type == "string":
            self.w(f"{f}_els_len = c_ ? ({CT[p.sst]}*){up}MALLOC(sizeof({f}_els_len[0]) * c_) : NULL;")
        self.w("for (size_t i_ = 0; i_ < c_; i_++) {")
        one(m.type, f"{f}[i_]", f"{f}_els_len[i_]")
        self.w("} }")

    def dump(self, m, acc):
        p = self.p

        def one(t, lv, lenlv):
            k = p.kind(t)
            if k == "base":
                if t == "float":
                    self.w(f"df({lv});")
                elif t == "double":
                    self.w(f"dd({lv});")
                elif t == "bool":
                    self.w(f'printf(" %d", {lv} ? 1 : 0);')
                elif t in ("byte", "uint16", "uint32", "uint64"):
                    self.w(f'printf(" %llu", (unsigned long long){lv});')
                else:
                    self.w(f'printf(" %lld", (long long){lv});')
            elif k == "string":
                self.w(f"dx({lv}, (uint64_t){lenlv});")
            elif k == "enum":
                self.w(f"dE_{t}({lv});")
            else:
                self.w(f"dS_{t}(&({lv}));")
        if not m.is_list:
            one(m.type, f"{acc}{m.name}", f"{acc}{m.name}_len")
            return
        f = f"{acc}{m.name}"
        self.w(f'{{ printf(" %llu", (unsigned long long){f}_len); for (size_t i_ = 0; i_ < (size_t){f}_len; i_++) {{')
        one(m.type, f"{f}[i_]", f"{f}_els_len[i_]")
        self.w("} }")

    def source(self, header, before=(), after=()):
        p, px, up = self.p, self.px, self.up
        self.w(PRELUDE)
        for h in before:
            self.w(f'#include "{h}"')
        self.w(f"#define {up}MALLOC(size) drv_malloc(size)\n#define {up}REALLOC(ptr, n) drv_realloc(ptr, n)\n#define {up}FREE(ptr) drv_free(ptr)")
        self.w(f"#define {up}IMPLEMENTATION\n#include \"{header}\"")
        for h in after:
            self.w(f'#include "{h}"')
        self.w(COMMON)
        for e in p.enums.values():
            self.w(f"static {px}{e.name} rdE_{e.name}(int64_t v) {{ switch (v) {{")
            for n, v in e.values:
                self.w(f"case {v}LL: return {px}{e.name}_{n};")
            self.w(f"default: drv_die(\"enum value\"); }} return {px}{e.name}_{e.values[0][0]}; }}")
            self.w(f"static void dE_{e.name}({px}{e.name} v) {{ switch ((int64_t)v) {{")
            for n, v in e.values:
                self.w(f"case (int64_t){px}{e.name}_{n}: printf(\" %lld\", (long long){v}); break;")
            self.w("default: printf(\" ?%lld\", (long long)v); } }")
        for s in list(p.structs.values()) + p.msgs:
            self.w(f"static void rdS_{s.name}({px}{s.name}* d); static void dS_{s.name}(const {px}{s.name}* s);")
        for s in list(p.structs.values()) + p.msgs:
            self.w(f"static void rdS_{s.name}({px}{s.name}* d) {{ (void)d;")
            for m in s.members:
                self.rd(m, "d->", 0)
            self.w("}")
            self.w(f"static void dS_{s.name}(const {px}{s.name}* s) {{ (void)s;")
            for m in s.members:
                self.dump(m, "s->")
            self.w("}")

        for s in p.msgs:
            self.w(f"static void rdP_{s.name}({px}{s.name}* d, uint64_t mask) {{ (void)d; (void)mask;")
            for i, m in enumerate(s.members):
                self.w(f"if ((mask >> {i % 64}) & 1) {{")
                self.rd(m, "d->", 0)
                self.w("}")
            self.w("}")

        def sw(sig, body, default, ret):
            self.w(sig + " { switch (mi) {")
            for i, m in enumerate(p.msgs):
                self.w(f"case {i}: " + body(m.name))
            self.w(f"default: {default} }} {ret} }}")
        die = 'drv_die("message index");'
        sw("static void* msg_new(int mi)", lambda n: f"return {px}{n}_Create();", die, "return NULL;")
        sw("static void msg_fill(int mi, void* m)", lambda n: f"rdS_{n}(({px}{n}*)m); break;", die, "")
        sw("static void msg_fill_some(int mi, void* m, uint64_t mask)", lambda n: f"rdP_{n}(({px}{n}*)m, mask); break;", die, "")
        sw("static void msg_dump(int mi, const void* m)", lambda n: f"dS_{n}((const {px}{n}*)m); break;", die, "")
        sw("static size_t msg_sizeof(int mi)", lambda n: f"return sizeof({px}{n});", die, "return 0;")
        sw("static void msg_default(int mi, void* m)", lambda n: f"memcpy(m, &{px}{n}_default, sizeof({px}{n})); break;", die, "")
        sw("static int msg_size(int mi, const void* m, size_t* n)", lambda n: f"return {px}{n}_GetSizeInBytes((const {px}{n}*)m, n);", die, "return 9;")
        sw(f"static int msg_write(int mi, {px}DataAccess* w, const void* m, bool tag)", lambda n: f"return {px}{n}_WriteBytes(w, (const {px}{n}*)m, tag);", die, "return 9;")
        sw(f"static int msg_read(int mi, {px}DataAccess* r, void* m)", lambda n: f"return {px}{n}_FromBytes(r, ({px}{n}*)m);", die, "return 9;")
        sw("static void msg_destroy(int mi, void* m)", lambda n: f"{px}{n}_Destroy(({px}{n}*)m); break;", die, "")
        sw("static void msg_cleanup(int mi, void* m)", lambda n: f"{px}{n}_Cleanup(({px}{n}*)m); break;", die, "")
        sw("static int msg_const(int mi)", lambda n: f"return (int){px}MessageType_{n};", die, "return -1;")
        self.w(f"static const int msg_count = {len(p.msgs)};")
        self.w(OPS.replace("@px@", px).replace("@UP@", up))
        return "\n".join(self.o)


CT = {"byte": "uint8_t", "bool": "bool", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t", "int32": "int32_t", "uint64": "uint64_t",
      "int64": "int64_t", "float": "float", "double": "double"}


def ctype(p, t):
    k = p.kind(t)
    if k == "base":
        return CT[t]
    if k == "string":
        return "char*"
    return prefix(p) + t


OPS = r'''
static const char* errname(int e) {
    switch (e) { case @UP@ERR_OK: return "OK"; case @UP@ERR_EOF: return "EOF"; case @UP@ERR_INVALID_DATA: return "INVALID"; case @UP@ERR_ALLOCATION_FAILURE: return "ALLOC"; default: return "UNKNOWN"; }
}
static void done(void) { if (drv_live) printf(" LEAK %ld", drv_live); printf("\n"); fflush(stdout);
    /* forget what leaked so that the next command starts from zero */
    drv_n = 0; drv_live = 0; drv_bytes = 0; }
typedef struct { int mi; void* m; } drv_item;
static drv_item* items; static size_t nitems;
static void read_items(void) {
    nitems = 0; items = NULL; size_t n = (size_t)tu();
    items = (drv_item*)malloc(sizeof(drv_item) * (n + 1));
    for (size_t i = 0; i < n; i++) { int mi = (int)ts(); void* m = msg_new(mi); if (!m) drv_die("create"); msg_fill(mi, m); items[i].mi = mi; items[i].m = m; nitems++; }
}
static void free_items(void) { for (size_t i = 0; i < nitems; i++) if (items[i].m) { if (i % 2) msg_destroy(items[i].mi, items[i].m); else @px@Destroy(items[i].m); } free(items); items = NULL; nitems = 0; }
static void dump_list(void** l, size_t n) {
    printf(" %zu", n);
    for (size_t i = 0; i < n; i++) { int t = (int)@px@GetMessageType(l[i]); printf(" | %d", t - 1); if (t > 0) msg_dump(t - 1, l[i]); }
}
static uint8_t* place(size_t off, size_t cap, uint8_t** whole) { *whole = (uint8_t*)malloc(off + cap + 16); memset(*whole, 0xAA, off + cap + 16); return *whole + off; }

static void op_encode(int again) {
    int mi = (int)ts(); int mode = again ? (int)ts() : 0; void* m = msg_new(mi); if (!m) drv_die("create"); msg_fill(mi, m);
    if (again) {
        /* a message that was measured and written (and read back), then given other contents in place */
        size_t s0 = 0; int e0 = msg_size(mi, m, &s0); uint8_t* b0 = (uint8_t*)malloc(s0 + 1); @px@DataAccess w0; w0.buffer = b0; w0.bufferSize = s0 + 1; w0.position = 0; if (!e0) e0 = msg_write(mi, &w0, m, true);
        if (!e0 && mode == 1) { msg_cleanup(mi, m); w0.position = 1; e0 = msg_read(mi, &w0, m); }
        w0.position = 0; if (!e0) e0 = msg_write(mi, &w0, m, mode == 0);
        void* one[1]; one[0] = m; size_t ps = 0; if (!e0) e0 = @px@GetPackedSize(one, 1, &ps); uint8_t* pk = (uint8_t*)malloc(ps); @px@DataAccess wp; wp.buffer = pk; wp.bufferSize = ps; wp.position = 0; if (!e0) e0 = @px@PackMessages(one, 1, &wp);
        free(b0); free(pk); if (e0) { printf("> ERR before %s", errname(e0)); msg_destroy(mi, m); done(); return; }
        msg_cleanup(mi, m); msg_fill(mi, m);
    }
    size_t size = 12345, gsize = 54321; int e = msg_size(mi, m, &size); int ge = @px@GetSizeInBytes(m, &gsize);
    if (e != 0 || ge != 0) { printf("> ERR size %s %s", errname(e), errname(ge)); msg_destroy(mi, m); done(); return; }
    uint8_t* b = (uint8_t*)malloc(size + 1); uint8_t* u = (uint8_t*)malloc(size); uint8_t* g = (uint8_t*)malloc(size + 1);
    @px@DataAccess w; w.buffer = b; w.bufferSize = size + 1; w.position = 0; int e1 = msg_write(mi, &w, m, true);
    @px@DataAccess w2; w2.buffer = u; w2.bufferSize = size; w2.position = 0; int e2 = msg_write(mi, &w2, m, false);
    @px@DataAccess w3; w3.buffer = g; w3.bufferSize = size + 1; w3.position = 0; int e3 = @px@WriteBytes(&w3, m, true);
    if (e1 || e2 || e3) printf("> ERR write %s %s %s", errname(e1), errname(e2), errname(e3));
    else {
        int same = gsize == size && w.position == w3.position && memcmp(b, g, w.position) == 0 && w2.position + 1 == w.position && memcmp(b + 1, u, w2.position) == 0;
        printf("> OK %zu %zu %zu %d x", size, w.position, w2.position, same); puthex(b, w.position); printf(" x"); puthex(u, w2.position);
    }
    free(b); free(u); free(g); msg_destroy(mi, m); done();
}
static void op_decode(int overwrite) {
    int mi = (int)ts(); size_t off = (size_t)tu(); size_t n; uint8_t* b = unhex(tok() + 1, &n); uint8_t* copy = (uint8_t*)malloc(n); memcpy(copy, b, n);
    @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = off;
    void* m = @UP@MALLOC(msg_sizeof(mi));
    int e = msg_read(mi, &r, m);
    int same = memcmp(b, copy, n) == 0;
    if (overwrite) { memset(b, 0xEE, n); free(b); b = NULL; }
    if (e) printf("> ERR %s", errname(e)); else { printf("> OK %zu", r.position); if (overwrite) printf(" %d", same); msg_dump(mi, m); }
    if (!same) printf(" BUFFERCHANGED");
    free(b); free(copy);
    msg_destroy(mi, m); done();
}
static void op_seqread(void) {
    size_t off = (size_t)tu(); size_t n; uint8_t* b = unhex(tok() + 1, &n);
    @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = off; printf("> OK");
    while (more()) {
        int mi = (int)ts(); void* m = @UP@MALLOC(msg_sizeof(mi)); int e = msg_read(mi, &r, m);
        if (e) printf(" ERR %s", errname(e)); else { printf(" | %zu", r.position); msg_dump(mi, m); }
        msg_destroy(mi, m); if (e) break;
    }
    free(b); done();
}
static void op_seqwrite(void) {
    int tag = (int)ts(); size_t off = (size_t)tu(); read_items(); size_t total = 0;
    for (size_t i = 0; i < nitems; i++) { size_t s = 0; msg_size(items[i].mi, items[i].m, &s); total += s + (tag ? 1 : 0); }
    uint8_t* whole = (uint8_t*)malloc(off + total + 16); memset(whole, 0xAA, off + total + 16);
    @px@DataAccess w; w.buffer = whole; w.bufferSize = off + total; w.position = off;
    int e = 0; for (size_t i = 0; i < nitems && !e; i++) e = msg_write(items[i].mi, &w, items[i].m, tag != 0);
    if (e) printf("> ERR %s", errname(e)); else { printf("> OK %zu x", w.position); puthex(whole, off + total + 16); }
    free(whole); free_items(); done();
}
static void op_stream(void) {
    int max = (int)ts(); size_t off = (size_t)tu(); size_t n; uint8_t* b = unhex(tok() + 1, &n);
    @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = off;
    void** l = NULL; size_t len = 0; int e = @px@ProcessRawBytes(&r, max, &l, &len);
    memset(b, 0xEE, n); free(b);
    if (e) printf("> ERR %s", errname(e)); else { printf("> OK %zu", r.position); dump_list(l, len); }
    if (l) { int de = @px@DestroyMessageList(l, len); if (de) printf(" DESTROYERR %s", errname(de)); } done();
}
static void op_pack(void) {
    size_t off = (size_t)tu(); read_items(); void** l = (void**)malloc(sizeof(void*) * (nitems + 1)); for (size_t i = 0; i < nitems; i++) l[i] = items[i].m;
    size_t ps = 0; int e = @px@GetPackedSize(l, nitems, &ps);
    uint8_t* whole = (uint8_t*)malloc(off + ps); memset(whole, 0xAA, off + ps);
    @px@DataAccess w; w.buffer = whole; w.bufferSize = off + ps; w.position = off;
    if (!e) e = @px@PackMessages(l, nitems, &w);
    if (e) printf("> ERR %s", errname(e)); else { printf("> OK %zu %zu x", ps, w.position - off); puthex(whole + off, ps); for (size_t i = 0; i < off; i++) if (whole[i] != 0xAA) { printf(" CLOBBER"); break; } }
    free(whole); free(l); free_items(); done();
}
static void op_unpack(void) {
    size_t off = (size_t)tu(); size_t n; uint8_t* b = unhex(tok() + 1, &n);
    @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = off;
    void** l = NULL; size_t len = 0; int e = @px@UnpackMessages(&r, &l, &len);
    memset(b, 0xEE, n); free(b);
    if (e) printf("> ERR %s", errname(e)); else { printf("> OK %zu", r.position); dump_list(l, len); }
    if (l) @px@DestroyMessageList(l, len);
    done();
}
#ifdef DRV_PAGES
/* the bytes at the very end (R end) or start (R start) of a page that can only be read, next to one that cannot even be read */
static void op_source(void) {
    char k = *tok(); ts(); char w = *tok(); int a = (int)ts(); size_t n; uint8_t* b = unhex(tok() + 1, &n);
    size_t pg = 4096, len = (n / pg + 1) * pg; uint8_t* map = (uint8_t*)mmap(NULL, len + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (map == (uint8_t*)MAP_FAILED) drv_die("mmap");
    uint8_t* at = k == 'e' ? map + pg + len - n : map + pg; memset(map, 1, len + 2 * pg); memcpy(at, b, n); free(b);
    mprotect(map + pg, len, PROT_READ); mprotect(map, pg, PROT_NONE); mprotect(map + pg + len, pg, PROT_NONE);
    @px@DataAccess r; r.buffer = at; r.bufferSize = n; r.position = 0; void** l = NULL; size_t cnt = 0; int e; void* m = w == 'D' ? @UP@MALLOC(msg_sizeof(a)) : NULL;
    if (w == 'D') e = msg_read(a, &r, m); else if (w == 'S') e = @px@ProcessRawBytes(&r, a, &l, &cnt); else e = @px@UnpackMessages(&r, &l, &cnt);
    munmap(map, len + 2 * pg);
    if (e) printf("> ERR %s", errname(e)); else { printf("> OK %zu", r.position); if (w == 'D') msg_dump(a, m); else dump_list(l, cnt); }
    if (m) msg_destroy(a, m); if (l) @px@DestroyMessageList(l, cnt); done();
}
/* writing to the very end (Z end) or start (Z start) of pages next to ones that cannot be written */
static void op_sink(void) {
    char k = *tok(); read_items(); void** l = (void**)malloc(sizeof(void*) * (nitems + 1)); for (size_t i = 0; i < nitems; i++) l[i] = items[i].m;
    printf("> OK");
    for (size_t i = 0; i <= 2 * nitems; i++) {
        size_t n = 0; int e = i < 2 * nitems ? msg_size(items[i / 2].mi, items[i / 2].m, &n) : @px@GetPackedSize(l, nitems, &n); bool tag = i % 2 == 0; if (i < 2 * nitems && tag) n++;
        size_t pg = 4096, len = (n / pg + 1) * pg; uint8_t* map = (uint8_t*)mmap(NULL, len + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (map == (uint8_t*)MAP_FAILED) drv_die("mmap");
        uint8_t* at = k == 'e' ? map + pg + len - n : map + pg; memset(map, 0xAA, len + 2 * pg); mprotect(map, pg, PROT_NONE); mprotect(map + pg + len, pg, PROT_NONE);
        @px@DataAccess w; w.buffer = at; w.bufferSize = n; w.position = 0;
        if (!e) e = i < 2 * nitems ? msg_write(items[i / 2].mi, &w, items[i / 2].m, tag) : @px@PackMessages(l, nitems, &w);
        if (e) printf(" ERR"); else { printf(" x"); puthex(at, w.position); }
        for (uint8_t* q = map + pg; q < map + pg + len; q++) if ((q < at || q >= at + n) && *q != 0xAA) { printf(" CLOBBER"); break; }
        munmap(map, len + 2 * pg);
    }
    free(l); free_items(); done();
}
#else
static void op_source(void) { printf("> SKIPPED\n"); fflush(stdout); }
static void op_sink(void) { printf("> SKIPPED\n"); fflush(stdout); }
#endif
static void op_memory(void) {
    /* the largest number of bytes the generated code asked to have at one time while reading */
    char w = *tok(); int mi = 0, max = -1; if (w == 'D') mi = (int)ts(); if (w == 'S') max = (int)ts(); size_t n; uint8_t* b = unhex(tok() + 1, &n);
    @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = 0; void** l = NULL; size_t len = 0; int e;
    void* m = w == 'D' ? malloc(msg_sizeof(mi)) : NULL; drv_peak = drv_bytes = 0; drv_cap_bytes = (size_t)1 << 26;
    if (w == 'D') e = msg_read(mi, &r, m); else if (w == 'S') e = @px@ProcessRawBytes(&r, max, &l, &len); else e = @px@UnpackMessages(&r, &l, &len);
    printf("> %s %llu", e ? "ERR" : "OK", (unsigned long long)drv_peak); drv_cap_bytes = (size_t)1 << 28;
    if (m) { msg_cleanup(mi, m); free(m); } if (l) @px@DestroyMessageList(l, len); free(b); done();
}
#ifdef DRV_TIME
static double tm_best[5]; static int tm_at; static double tm_t0;
static double tm_now(void) { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec * 1e9 + (double)t.tv_nsec; }
static void tm_start(void) { tm_t0 = tm_now(); }
static void tm_stop(void) { double d = tm_now() - tm_t0; if (tm_best[tm_at] < 0 || d < tm_best[tm_at]) tm_best[tm_at] = d; tm_at++; }
static void op_time(void) {
    /* least processor time, in nanoseconds, of: reading, measuring, writing, releasing (and unpacking) */
    char w = *tok(); int mi = 0; if (w == 'D') mi = (int)ts(); size_t n; uint8_t* b = unhex(tok() + 1, &n); double from = tm_now(); int e = 0; for (int i = 0; i < 5; i++) tm_best[i] = -1;
    for (int rep = 0; rep < 5 && !e && (rep < 1 || tm_now() - from < 3e8); rep++) {
        tm_at = 0; @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = 0; size_t s = 0;
        if (w == 'D') {
            void* m = malloc(msg_sizeof(mi)); tm_start(); e |= msg_read(mi, &r, m); tm_stop(); tm_start(); e |= msg_size(mi, m, &s); tm_stop(); uint8_t* o = (uint8_t*)malloc(s); @px@DataAccess q; q.buffer = o; q.bufferSize = s; q.position = 0;
            tm_start(); e |= msg_write(mi, &q, m, false); tm_stop(); tm_start(); msg_cleanup(mi, m); tm_stop(); free(m); if (!e && (q.position != n || memcmp(o, b, n))) e = 9; free(o);
        } else {
            void** l = NULL; size_t len = 0; tm_start(); e |= @px@ProcessRawBytes(&r, -1, &l, &len); tm_stop(); tm_start(); e |= @px@GetPackedSize(l, len, &s); tm_stop(); uint8_t* o = (uint8_t*)malloc(s); @px@DataAccess q; q.buffer = o; q.bufferSize = s; q.position = 0;
            tm_start(); e |= @px@PackMessages(l, len, &q); tm_stop(); tm_start(); @px@DestroyMessageList(l, len); tm_stop(); q.position = 0; l = NULL; size_t len2 = 0; tm_start(); e |= @px@UnpackMessages(&q, &l, &len2); tm_stop(); if (len2 != len) e = 9; @px@DestroyMessageList(l, len2); free(o);
        }
    }
    if (e) printf("> ERR %d", e); else { printf("> OK"); for (int i = 0; i < 5; i++) if (tm_best[i] >= 0) printf(" %.0f", tm_best[i]); } free(b); done();
}
#else
static void op_time(void) { printf("> SKIPPED\n"); fflush(stdout); }
#endif
static void op_fresh(void) {
    int mi = (int)ts();
    /* variant 1: _Create; variant 2: copy of _default on the stack, released with Cleanup */
    void* m = msg_new(mi); void* d = malloc(msg_sizeof(mi)); if (!m) drv_die("create"); msg_default(mi, d);
    size_t s1 = 0, s2 = 0; int e = msg_size(mi, m, &s1); int e2 = msg_size(mi, d, &s2);
    uint8_t* b = (uint8_t*)malloc(s1); uint8_t* c = (uint8_t*)malloc(s2);
    @px@DataAccess w; w.buffer = b; w.bufferSize = s1; w.position = 0; @px@DataAccess v; v.buffer = c; v.bufferSize = s2; v.position = 0;
    if (!e) e = msg_write(mi, &w, m, false);
    if (!e2) e2 = msg_write(mi, &v, d, false);
    if (e || e2) printf("> ERR %s %s", errname(e), errname(e2));
    else { printf("> OK %zu x", s1); puthex(b, w.position); printf(" x"); puthex(c, v.position); printf(" %d", (int)@px@GetMessageType(m) - 1); msg_dump(mi, m); printf(" /"); msg_dump(mi, d); }
    free(b); free(c); msg_destroy(mi, m); msg_cleanup(mi, d); free(d); done();
}
static void op_short(void) {
    /* every capacity 0..size: must fail below the needed size, succeed at it, and touch nothing outside */
    int tag = (int)ts(); int mi = (int)ts(); void* m = msg_new(mi); if (!m) drv_die("create"); msg_fill(mi, m);
    size_t s = 0; msg_size(mi, m, &s); s += tag ? 1 : 0; size_t bad = 0, tested = 0;
    for (size_t cap = 0; cap <= s; cap++) {
        if (s > 300 && cap > 40 && cap + 40 < s && cap % 17) continue;
        uint8_t* exact = (uint8_t*)malloc(cap);
        @px@DataAccess w; w.buffer = exact; w.bufferSize = cap; w.position = 0; int e = msg_write(mi, &w, m, tag != 0); tested++;
        if ((e == 0) != (cap >= s)) { printf("> BAD cap=%zu size=%zu err=%s", cap, s, errname(e)); bad = 1; }
        free(exact); if (bad) break;
        uint8_t* whole; uint8_t* at = place(24, cap, &whole);
        @px@DataAccess g; g.buffer = whole; g.bufferSize = 24 + cap; g.position = 24; e = msg_write(mi, &g, m, tag != 0);
        if ((e == 0) != (cap >= s)) { printf("> BAD cap=%zu size=%zu err=%s at offset", cap, s, errname(e)); bad = 1; }
        for (size_t i = 0; i < 24 && !bad; i++) if (whole[i] != 0xAA) { printf("> BAD wrote before buffer cap=%zu", cap); bad = 1; }
        for (size_t i = 0; i < 16 && !bad; i++) if (at[cap + i] != 0xAA) { printf("> BAD wrote past buffer cap=%zu", cap); bad = 1; }
        free(whole); if (bad) break;
    }
    if (!bad) printf("> OK %zu %zu", s, tested);
    msg_destroy(mi, m); done();
}
static void op_shortpack(void) {
    read_items(); void** l = (void**)malloc(sizeof(void*) * (nitems + 1)); for (size_t i = 0; i < nitems; i++) l[i] = items[i].m;
    size_t ps = 0; @px@GetPackedSize(l, nitems, &ps); int bad = 0; size_t tested = 0;
    for (size_t cap = 0; cap <= ps && !bad; cap++) {
        if (ps > 300 && cap > 40 && cap + 40 < ps && cap % 17) continue;
        uint8_t* exact = (uint8_t*)malloc(cap); @px@DataAccess w; w.buffer = exact; w.bufferSize = cap; w.position = 0;
        int e = @px@PackMessages(l, nitems, &w); tested++;
        if ((e == 0) != (cap >= ps)) { printf("> BAD cap=%zu size=%zu err=%s", cap, ps, errname(e)); bad = 1; }
        free(exact);
    }
    if (!bad) printf("> OK %zu %zu", ps, tested);
    free(l); free_items(); done();
}
static void op_alloc(void) {
    /* fail the k-th allocation of one library call, for every k */
    char* what = tok(); char* save = drv_p; size_t len = strlen(save); char* copy = (char*)malloc(len + 1); memcpy(copy, save, len + 1); long k; int bad = 0;
    for (k = 0; k < 4000 && !bad; k++) {
        memcpy(save, copy, len + 1); drv_p = save; int e = -1, triggered = 0;
        if (*what == 'D') {
            int mi = (int)ts(); size_t n; uint8_t* b = unhex(tok() + 1, &n); @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = 0; void* m = @UP@MALLOC(msg_sizeof(mi));
            drv_count = 0; drv_triggered = 0; drv_fail_at = k; e = msg_read(mi, &r, m); drv_fail_at = -1; triggered = (int)drv_triggered; free(b); msg_destroy(mi, m);
        } else if (*what == 'S' || *what == 'U') {
            int max = -1; if (*what == 'S') max = (int)ts(); size_t n; uint8_t* b = unhex(tok() + 1, &n); @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = 0; void** l = NULL; size_t ln = 0;
            drv_count = 0; drv_triggered = 0; drv_fail_at = k; e = *what == 'S' ? @px@ProcessRawBytes(&r, max, &l, &ln) : @px@UnpackMessages(&r, &l, &ln); drv_fail_at = -1; triggered = (int)drv_triggered;
            free(b); if (l) @px@DestroyMessageList(l, ln);
        } else if (*what == 'C') {
            int mi = (int)ts(); drv_count = 0; drv_triggered = 0; drv_fail_at = k; void* m = msg_new(mi); drv_fail_at = -1; triggered = (int)drv_triggered; e = m ? 0 : @UP@ERR_ALLOCATION_FAILURE; if (m) msg_destroy(mi, m);
        }
        if (!triggered) { if (e != 0) { printf("> BAD no fault but error %s", errname(e)); bad = 1; } if (drv_live) { printf("> BAD leak %ld without fault", drv_live); bad = 1; } break; }
        if (e != @UP@ERR_ALLOCATION_FAILURE) { printf("> BAD fault at allocation %ld reported as %s", k, errname(e)); bad = 1; }
        else if (drv_live) { printf("> BAD fault at allocation %ld leaks %ld", k, drv_live); bad = 1; drv_n = 0; drv_live = 0; }
    }
    if (!bad) printf("> OK %ld", k);
    free(copy); drv_n = 0; drv_live = 0; done();
}
#ifdef DRV_THREADS
static int th_mi; static void* th_m; static size_t th_size; static uint8_t* th_out[4];
static void* th_run(void* arg) {
    size_t i = (size_t)arg;
    for (int it = 0; it < 20; it++) { size_t s = 0; msg_size(th_mi, th_m, &s); if (s != th_size) drv_die("size changed"); @px@DataAccess w; w.buffer = th_out[i]; w.bufferSize = th_size + 1; w.position = 0; if (@px@WriteBytes(&w, th_m, true)) drv_die("write failed"); }
    return NULL;
}
#endif
#ifdef DRV_THREADS
/* several threads work through the same jobs on their own messages; only the encoded bytes are shared, and only read */
typedef struct { int mi; size_t n; uint8_t* b; size_t dn; uint8_t* d; } par_job;
static par_job* par_jobs; static size_t par_n; static long par_bad[4]; static char par_what[4][64];
static void par_fail(size_t i, const char* why) { if (!par_bad[i]++) { strncpy(par_what[i], why, 63); par_what[i][63] = 0; } }
static void par_same(size_t i, const void* m, const uint8_t* b, size_t n, const char* why) {
    size_t s = 0; if (@px@GetSizeInBytes(m, &s) || s + 1 != n) { par_fail(i, why); return; }
    uint8_t* o = (uint8_t*)malloc(n); @px@DataAccess w; w.buffer = o; w.bufferSize = n; w.position = 0; if (@px@WriteBytes(&w, m, true) || memcmp(o, b, n)) par_fail(i, why); free(o);
}
static void* par_run(void* arg) {
    size_t i = (size_t)arg; drv_raw = 1;
    for (size_t it = 0; it < 3 * par_n; it++) {
        par_job* j = &par_jobs[(it * (i % 2 ? 1 : par_n - 1) + i * par_n / 4) % par_n];
        @px@DataAccess r; r.buffer = j->b; r.bufferSize = j->n; r.position = 1; void* m = malloc(msg_sizeof(j->mi));
        if (msg_read(j->mi, &r, m)) par_fail(i, "read"); else par_same(i, m, j->b, j->n, "reread");
        void* one[2]; one[0] = m; one[1] = m; size_t ps = 0; @px@GetPackedSize(one, 2, &ps); uint8_t* pk = (uint8_t*)malloc(ps); @px@DataAccess w; w.buffer = pk; w.bufferSize = ps; w.position = 0; void** l = NULL; size_t n = 0;
        if (@px@PackMessages(one, 2, &w)) par_fail(i, "pack"); else { w.position = 0; if (@px@UnpackMessages(&w, &l, &n) || n != 2) par_fail(i, "unpack"); else { par_same(i, l[0], j->b, j->n, "unpacked"); par_same(i, l[1], j->b, j->n, "unpacked"); } }
        if (l) @px@DestroyMessageList(l, n); free(pk); msg_destroy(j->mi, m);
        l = NULL; r.position = 0; if (@px@ProcessRawBytes(&r, -1, &l, &n) || n != 1) par_fail(i, "process"); else par_same(i, l[0], j->b, j->n, "processed"); if (l) @px@DestroyMessageList(l, n);
        if (j->n > 1) { r.position = 0; r.bufferSize = j->n - 1; l = NULL; if (!@px@ProcessRawBytes(&r, -1, &l, &n)) par_fail(i, "cut accepted"); if (l) @px@DestroyMessageList(l, n); }
        void* f = msg_new(j->mi); if (!f) par_fail(i, "create"); else { par_same(i, f, j->d, j->dn, "default"); msg_destroy(j->mi, f); }
        void* d = malloc(msg_sizeof(j->mi)); msg_default(j->mi, d); par_same(i, d, j->d, j->dn, "default"); msg_cleanup(j->mi, d); free(d);
    }
    return NULL;
}
static void op_parallel(void) {
    par_n = (size_t)tu(); par_jobs = (par_job*)calloc(par_n + 1, sizeof(par_job));
    for (size_t i = 0; i < par_n; i++) { par_jobs[i].mi = (int)ts(); par_jobs[i].b = unhex(tok() + 1, &par_jobs[i].n); par_jobs[i].d = unhex(tok() + 1, &par_jobs[i].dn); }
    pthread_t t[4]; for (size_t i = 0; i < 4; i++) { par_bad[i] = 0; pthread_create(&t[i], NULL, par_run, (void*)i); } for (size_t i = 0; i < 4; i++) pthread_join(t[i], NULL);
    long bad = 0; for (size_t i = 0; i < 4; i++) { if (par_bad[i] && !bad) printf("> BAD %s", par_what[i]); bad += par_bad[i]; } if (!bad) printf("> OK");
    for (size_t i = 0; i < par_n; i++) { free(par_jobs[i].b); free(par_jobs[i].d); } free(par_jobs); done();
}
#else
static void op_parallel(void) { printf("> SKIPPED\n"); fflush(stdout); }
#endif
static uint8_t* th_ref; static size_t th_len;
static int list_one(void** l, size_t n, int mi, const char* want) {
    /* the single message of a list: its type, and 1000 added when its content is not what was written */
    (void)want; if (n != 1) return -1; int t = (int)@px@GetMessageType(l[0]); if (t != mi + 1) return t;
    size_t s = 0; if (msg_size(mi, l[0], &s)) return 1000 + t; uint8_t* b = (uint8_t*)malloc(s + 1); @px@DataAccess w; w.buffer = b; w.bufferSize = s + 1; w.position = 0;
    int e = msg_write(mi, &w, l[0], true); int same = !e && w.position == th_len && memcmp(b, th_ref, th_len) == 0; free(b); return same ? t : 1000 + t;
}
static void op_type(void) {
    int mi = (int)ts(); void* fresh = msg_new(mi); void* m = msg_new(mi); if (!m || !fresh) drv_die("create"); msg_fill(mi, m); void* d = malloc(msg_sizeof(mi)); msg_default(mi, d);
    size_t size = 0; if (@px@GetSizeInBytes(m, &size)) { printf("> ERR size"); msg_destroy(mi, m); msg_destroy(mi, fresh); free(d); done(); return; }
    uint8_t* b = (uint8_t*)malloc(size + 1); @px@DataAccess w; w.buffer = b; w.bufferSize = size + 1; w.position = 0; int e = @px@WriteBytes(&w, m, true); th_ref = b; th_len = w.position;
    void* r = @UP@MALLOC(msg_sizeof(mi)); @px@DataAccess a; a.buffer = b; a.bufferSize = size + 1; a.position = 1; int e2 = msg_read(mi, &a, r);
    void** l = NULL; size_t n = 0; a.position = 0; int e3 = @px@ProcessRawBytes(&a, -1, &l, &n);
    void* one[1]; one[0] = m; size_t ps = 0; int e4 = @px@GetPackedSize(one, 1, &ps); uint8_t* pb = (uint8_t*)malloc(ps + 1); @px@DataAccess pw; pw.buffer = pb; pw.bufferSize = ps; pw.position = 0; int e5 = @px@PackMessages(one, 1, &pw);
    void** pl = NULL; size_t pn = 0; pw.position = 0; int e6 = @px@UnpackMessages(&pw, &pl, &pn);
    if (e || e2 || e3 || e4 || e5 || e6) printf("> ERR %d %d %d %d %d %d", e, e2, e3, e4, e5, e6);
    else { printf("> OK %d %d %d %d", msg_const(mi), (int)@px@GetMessageType(fresh), (int)@px@GetMessageType(m), (int)@px@GetMessageType(r)); printf(" %d", list_one(l, n, mi, NULL)); printf(" %d %d x%02x", list_one(pl, pn, mi, NULL), (int)@px@GetMessageType(d), b[0]); }
    /* a message that is no message: reported, not guessed at */
    for (int z = 0; z < 3; z++) {
        int bad = z == 0 ? 0 : z == 1 ? msg_count + 1 : 255; if (z && (bad > 255 || bad <= msg_count)) continue;
        uint8_t* x = (uint8_t*)malloc(64); memset(x, 0, 64); x[0] = (uint8_t)bad; void* xs[1]; xs[0] = x; size_t s = 0; uint8_t room[64]; memset(room, 0xAA, 64); @px@DataAccess q; q.buffer = room; q.bufferSize = 64; q.position = 0;
        if ((int)@px@GetMessageType(x) != 0) printf(" NOTNULL"); if (!@px@GetSizeInBytes(x, &s)) printf(" SIZED"); if (!@px@WriteBytes(&q, x, true) || q.position) printf(" WRITTEN"); if (!@px@Destroy(x)) drv_die("destroyed no message");
        if (!@px@GetPackedSize(xs, 1, &s)) printf(" PSIZED"); if (!@px@PackMessages(xs, 1, &q)) printf(" PACKED"); free(x);
    }
    if (@px@Destroy(m)) printf(" NOTDESTROYED"); if (@px@Destroy(fresh)) printf(" NOTDESTROYED"); if (!e2 ? @px@Destroy(r) : (msg_destroy(mi, r), 0)) printf(" NOTDESTROYED"); msg_cleanup(mi, d); free(d); free(b); free(pb);
    if (l) @px@DestroyMessageList(l, n); if (pl) @px@DestroyMessageList(pl, pn); done();
}
static void op_conc(void) {
    int mi = (int)ts(); void* m = msg_new(mi); if (!m) drv_die("create"); msg_fill(mi, m); size_t size = 0; msg_size(mi, m, &size);
    uint8_t* b = (uint8_t*)malloc(size + 1); @px@DataAccess w; w.buffer = b; w.bufferSize = size + 1; w.position = 0; msg_write(mi, &w, m, true); int same = 1;
#ifdef DRV_THREADS
    pthread_t t[4]; th_mi = mi; th_m = m; th_size = size;
    for (size_t i = 0; i < 4; i++) th_out[i] = (uint8_t*)calloc(1, size + 1);
    for (size_t i = 0; i < 4; i++) pthread_create(&t[i], NULL, th_run, (void*)i);
    for (size_t i = 0; i < 4; i++) pthread_join(t[i], NULL);
    for (size_t i = 0; i < 4; i++) { if (memcmp(th_out[i], b, size + 1)) same = 0; free(th_out[i]); }
#endif
    printf("> OK %d x", same); puthex(b, w.position); msg_dump(mi, m); free(b); msg_destroy(mi, m); done();
}
static void op_life(void) {
    /* a program over a few message variables, following the documented rules */
    enum { NS = 8 }; void* sl[NS] = {0}; int ty[NS] = {0}; int heap[NS] = {0}; printf("> OK");
    while (more()) {
        char op = *tok();
        if (op == 'l') {
            size_t n = (size_t)tu(); void* l[NS]; for (size_t i = 0; i < n; i++) l[i] = sl[ts()];
            size_t ps = 0; if (@px@GetPackedSize(l, n, &ps)) { printf(" BAD packedsize"); continue; }
            uint8_t* b = (uint8_t*)malloc(ps); @px@DataAccess w; w.buffer = b; w.bufferSize = ps; w.position = 0;
            int e = @px@PackMessages(l, n, &w); if (e) { printf(" BAD pack %s", errname(e)); free(b); continue; }
            printf(" x"); puthex(b, w.position);
            @px@DataAccess r; r.buffer = b; r.bufferSize = ps; r.position = 0; void** out = NULL; size_t len = 0; e = @px@UnpackMessages(&r, &out, &len); free(b);
            if (e) printf(" BAD unpack %s", errname(e)); else { dump_list(out, len); @px@DestroyMessageList(out, len); }
            continue;
        }
        int s = (int)ts();
        switch (op) {
        case 'c': ty[s] = (int)ts(); sl[s] = msg_new(ty[s]); heap[s] = 1; if (!sl[s]) drv_die("create"); break;
        case 'd': ty[s] = (int)ts(); sl[s] = malloc(msg_sizeof(ty[s])); msg_default(ty[s], sl[s]); heap[s] = 0; break;
        case 'f': { uint64_t mask = tu(); msg_fill_some(ty[s], sl[s], mask); break; }
        case 'w': { size_t n = 0; int e = msg_size(ty[s], sl[s], &n); uint8_t* b = (uint8_t*)malloc(n); @px@DataAccess w; w.buffer = b; w.bufferSize = n; w.position = 0;
            if (!e) e = msg_write(ty[s], &w, sl[s], false); if (e) printf(" BAD write %s", errname(e)); else { printf(" x"); puthex(b, w.position); } free(b); break; }
        case 'v': printf(" %d", (int)@px@GetMessageType(sl[s]) - 1); msg_dump(ty[s], sl[s]); break;
        case 'r': { ty[s] = (int)ts(); heap[s] = 0; size_t n; uint8_t* b = unhex(tok() + 1, &n); @px@DataAccess r; r.buffer = b; r.bufferSize = n; r.position = 0;
            sl[s] = malloc(msg_sizeof(ty[s])); memset(sl[s], 0xCD, msg_sizeof(ty[s])); int e = msg_read(ty[s], &r, sl[s]); free(b);
            if (e) { printf(" E"); msg_cleanup(ty[s], sl[s]); free(sl[s]); sl[s] = NULL; } else printf(" %zu", r.position); break; }
        case 'y': if (heap[s]) msg_destroy(ty[s], sl[s]); else { msg_cleanup(ty[s], sl[s]); free(sl[s]); } sl[s] = NULL; break;
        default: drv_die("unknown op");
        }
    }
    for (int i = 0; i < NS; i++) if (sl[i]) { if (heap[i]) msg_destroy(ty[i], sl[i]); else { msg_cleanup(ty[i], sl[i]); free(sl[i]); } }
    done();
}
static void drv_one(char* line) {
        drv_p = line; tok(); char* op = tok();
        switch (*op) {
        case 'E': op_encode(0); break; case 'V': op_encode(1); break; case 'D': op_decode(0); break; case 'I': op_decode(1); break; case 'Q': op_seqread(); break; case 'N': op_seqwrite(); break;
        case 'S': op_stream(); break; case 'P': op_pack(); break; case 'U': op_unpack(); break; case 'F': op_fresh(); break; case 'W': op_short(); break;
        case 'K': op_shortpack(); break; case 'A': op_alloc(); break; case 'L': op_life(); break; case 'C': op_conc(); break; case 'T': op_type(); break; case 'M': op_memory(); break; case 'R': op_source(); break; case 'Z': op_sink(); break; case 'Y': op_parallel(); break; case 'X': op_time(); break;
        default: drv_die("unknown op");
        }
}
#ifdef DRV_ENTRY
void DRV_ENTRY(char* line); void DRV_ENTRY(char* line) { drv_one(line); }
#else
int main(void) {
    size_t cap = (size_t)1 << 24; char* line = (char*)malloc(cap);
    while (fgets(line, (int)cap, stdin)) {
        size_t n = strlen(line); if (n && line[n - 1] == '\n') line[n - 1] = 0;
        drv_one(line);
    }
    free(line); free(drv_tab); free(drv_len); return 0;
}
#endif
'''

FLAGS = {
    "asan": ["clang", "-std=c99", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "msan": ["clang", "-std=c99", "-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"],
    "tsan": ["clang", "-std=c99", "-O1", "-g", "-fsanitize=thread", "-DDRV_THREADS", "-pthread"],
    "pages": ["clang", "-std=gnu99", "-D_GNU_SOURCE", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DDRV_PAGES"],
    "time": ["gcc-13", "-std=gnu99", "-O2", "-g", "-DDRV_TIME"],
    # other machines and ABIs: 32-bit words, unsigned or signed char, enums as small as they can be, other optimisers
    "m32": ["zig", "cc", "-target", "x86-linux-musl", "-std=c99", "-O1", "-g", "-fsanitize=undefined", "-fsanitize-trap=undefined"],
    "o3": ["gcc-13", "-std=c17", "-O3", "-march=native", "-g"],
    "uchar": ["clang", "-std=c11", "-O2", "-g", "-funsigned-char", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "short": ["gcc-13", "-std=c99", "-Os", "-g", "-fshort-enums", "-fsanitize=address"],
    "plain": ["gcc-13", "-std=c99", "-O2", "-g"],
    "cpp": ["g++-13", "-std=c++20", "-x", "c++", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
}
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=66", "MSAN_OPTIONS": "halt_on_error=1:allocator_may_return_null=1"}


def build(protos, wd, extra=(), mode="asan", idx=None):
    if mode.startswith("multi"):
        return build_multi(protos, wd, extra, mode.partition("-")[2] or "asan", idx)
    idx = list(idx) if idx is not None else list(range(len(protos)))

    def one(k):
        p = protos[k]
        d = os.path.join(wd, f"c{k}_{mode}")
        h = engine.generate("c", p.toml(), d, f"p{k}", ".h", extra_for(extra, p))
        src = os.path.join(d, "drv.c")
        pre = MSAN_PRELUDE if mode == "msan" else ""
        with open(src, "w") as f:
            f.write(pre + Emit(p).source(os.path.basename(h)))
        exe = os.path.join(d, "drv")
        r = common.run(FLAGS[mode] + ["-I", d, "-o", exe, src], cwd=d)
        if r.rc != 0:
            raise BuildError("c", f"compile p{k} ({mode})", first_errors(r.err) + "\n" + p.describe())
        return Unit([exe], [k], env=ENV)
    return Built("c", common.pmap(one, idx))


def build_multi(protos, wd, extra=(), mode="asan", idx=None):
    """all protocols in one executable: every source file sees every header, each implements one of them"""
    idx = list(idx) if idx is not None else list(range(len(protos)))
    root = os.path.join(wd, f"cm_{mode}")
    os.makedirs(root, exist_ok=True)
    common.pmap(lambda k: engine.generate("c", protos[k].toml(), root, f"p{k}", ".h", extra_for(extra, protos[k])), idx)
    flags = FLAGS[mode]

    def comp(k):
        others = [f"p{j}.h" for j in idx if j != k]
        cut = len(others) * (k % 3) // 2
        src = os.path.join(root, f"d{k}.c")
        open(src, "w").write(f"#define DRV_ENTRY drv_run_{k}\n" + Emit(protos[k]).source(f"p{k}.h", others[:cut], others[cut:]))
        obj = os.path.join(root, f"d{k}.o")
        r = common.run(flags + ["-I", root, "-c", "-o", obj, src], cwd=root)
        if r.rc != 0:
            raise BuildError("c", f"compile p{k} together with the other headers", first_errors(r.err))
        return obj
    objs = common.pmap(comp, idx)
    # and all implementations in one source file
    one = os.path.join(root, "all.c")
    with open(one, "w") as f:
        f.write("".join(f"#define {prefix(protos[k]).upper()}IMPLEMENTATION\n#include \"p{k}.h\"\n" for k in idx) + "int main(void) { return 0; }\n")
    r = common.run(flags + ["-I", root, "-o", os.path.join(root, "all"), one], cwd=root)
    if r.rc != 0:
        raise BuildError("c", "compile all implementations in one source file", first_errors(r.err))
    main = os.path.join(root, "main.c")
    with open(main, "w") as f:
        f.write("#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n" + "".join(f'#include "p{k}.h"\n' for k in idx) + "".join(f"void drv_run_{k}(char*);\n" for k in idx))
        f.write("int main(void) { size_t cap = (size_t)1 << 24; char* line = (char*)malloc(cap); while (fgets(line, (int)cap, stdin)) { size_t n = strlen(line); if (n && line[n - 1] == '\\n') line[n - 1] = 0; switch (atoi(line)) {\n")
        f.write("".join(f"case {k}: drv_run_{k}(line); break;\n" for k in idx) + "default: abort(); } } free(line); return 0; }\n")
    exe = os.path.join(root, "drv")
    r = common.run(flags + ["-I", root, "-o", exe, main] + objs, cwd=root)
    if r.rc != 0:
        raise BuildError("c", "link several namespaces into one program", first_errors(r.err) + r.err[-600:])
    return Built("c", [Unit([exe], idx, env=ENV)])


def extra_for(extra, p):
    return extra(p) if callable(extra) else extra


def first_errors(log, n=12):
    ls = [l for l in log.splitlines() if "error" in l.lower()]
    return "\n".join((ls or log.splitlines())[:n])
