"""Go: all protocols in one module (one package each); optional race-detector build."""
import os, re
from . import common, engine
from .engine import Built, Unit, BuildError
from .lang_c import extra_for, first_errors

EXT = ".go"
HELP = r'''package h

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"strconv"
	"strings"
	"math"
	"bufio"
	"os"
)

type T struct { Toks []string; I int }
func (t *T) Next() string { if t.I >= len(t.Toks) { panic("driver: missing token") }; s := t.Toks[t.I]; t.I++; return s }
func (t *T) More() bool { return t.I < len(t.Toks) }
func (t *T) S() int64 { v, e := strconv.ParseInt(t.Next(), 10, 64); if e != nil { panic(e) }; return v }
func (t *T) U() uint64 { v, e := strconv.ParseUint(t.Next(), 10, 64); if e != nil { panic(e) }; return v }
func (t *T) N() int { return int(t.S()) }
func (t *T) B() bool { return t.U() != 0 }
func (t *T) F32() float32 { return math.Float32frombits(uint32(t.U())) }
func (t *T) F64() float64 { return math.Float64frombits(t.U()) }
func (t *T) Hex() []byte { s := t.Next(); if !strings.HasPrefix(s, "x") { panic("driver: hex expected") }; b, e := hex.DecodeString(s[1:]); if e != nil { panic(e) }; return b }
func (t *T) Str() string { return string(t.Hex()) }

type O struct { strings.Builder }
func (o *O) P(f string, a ...any) { fmt.Fprintf(o, f, a...) }
func (o *O) I(v int64) { fmt.Fprintf(o, " %d", v) }
func (o *O) U(v uint64) { fmt.Fprintf(o, " %d", v) }
func (o *O) B(v bool) { if v { o.WriteString(" 1") } else { o.WriteString(" 0") } }
func (o *O) F32(v float32) { fmt.Fprintf(o, " %d", math.Float32bits(v)) }
func (o *O) F64(v float64) { fmt.Fprintf(o, " %d", math.Float64bits(v)) }
func (o *O) S(v string) { o.WriteString(" x" + hex.EncodeToString([]byte(v))) }
func (o *O) X(v []byte) { o.WriteString(" x" + hex.EncodeToString(v)) }

// R counts what is consumed; Chunk 1 delivers byte by byte and is not seekable.
type R struct { B []byte; Pos, Chunk int }
func (r *R) Read(p []byte) (int, error) {
	if r.Pos >= len(r.B) { if len(p) == 0 { return 0, nil }; return 0, io.EOF }
	n := len(r.B) - r.Pos
	if n > len(p) { n = len(p) }
	if r.Chunk > 0 && n > r.Chunk { n = r.Chunk }
	copy(p[:n], r.B[r.Pos:r.Pos+n])
	r.Pos += n
	return n, nil
}
// Source: the bytes b behind readers of many kinds; left says how many of them are still to be had, done releases it
type drip struct { b []byte; pos, stop int; seed uint32; mode string }
var Boom = fmt.Errorf("the source failed")
func (d *drip) rnd(n int) int { d.seed = d.seed*1664525 + 1013904223; return int(d.seed>>8) % n }
func (d *drip) Read(p []byte) (int, error) {
	if d.stop >= 0 && d.pos >= d.stop { return 0, Boom }
	if len(p) == 0 { return 0, nil }
	if d.mode == "zero" && d.rnd(2) == 0 { return 0, nil }
	if d.pos >= len(d.b) { return 0, io.EOF }
	n := 1 + d.rnd(5); if n > len(p) { n = len(p) }; if n > len(d.b)-d.pos { n = len(d.b) - d.pos }
	if d.stop >= 0 && n > d.stop-d.pos { n = d.stop - d.pos }
	copy(p[:n], d.b[d.pos:d.pos+n]); d.pos += n
	if d.mode == "eof" && d.pos == len(d.b) { return n, io.EOF }
	if d.mode == "failnow" && d.pos == d.stop { return n, Boom }
	return n, nil
}
func Source(kind string, arg int, b []byte) (r io.Reader, left func() int, done func()) {
	done = func() {}
	d := &drip{b: b, stop: -1, seed: uint32(arg)*2654435761 + 1, mode: kind}
	switch kind {
	case "chunk", "eof", "zero": r = d
	case "fail", "failnow": d.stop = arg; return d, func() int { return len(b) - d.pos }, done
	case "bufio": r = bufio.NewReaderSize(d, 16)
	case "strings": r = strings.NewReader(string(b))
	case "section": pad := append(bytes.Repeat([]byte{1}, arg%7), b...); r = io.NewSectionReader(bytes.NewReader(append(pad, 1, 1, 1, 1)), int64(arg%7), int64(len(b)))
	case "multi": k := 0; if len(b) > 0 { k = arg % len(b) }; r = io.MultiReader(bytes.NewReader(b[:k]), strings.NewReader(""), bytes.NewReader(b[k:]))
	case "pipe":
		pr, pw := io.Pipe(); r = pr; done = func() { pr.Close() }
		go func() { for d.pos < len(b) { n := 1 + d.rnd(9); if n > len(b)-d.pos { n = len(b) - d.pos }; if _, e := pw.Write(b[d.pos : d.pos+n]); e != nil { return }; d.pos += n }; pw.Close() }()
	case "file":
		f, e := os.CreateTemp("", "drv"); if e != nil { panic("driver: " + e.Error()) }
		os.Remove(f.Name()); f.Write(b); f.Seek(0, io.SeekStart); r = f; done = func() { f.Close() }
	default: panic("driver: source " + kind)
	}
	return r, func() int { rest, _ := io.ReadAll(r); return len(rest) }, done
}
// Sink: a writer that has Write and nothing else, takes everything, and spoils what it was given afterwards only in its own copy
type plain struct { b []byte }
func (p *plain) Write(b []byte) (int, error) { p.b = append(p.b, b...); return len(b), nil }
func Sink(kind string, f func(w io.Writer)) []byte {
	p := &plain{}
	switch kind {
	case "plain": f(p)
	case "bufio": w := bufio.NewWriterSize(p, 3); f(w); w.Flush()
	case "builder": var sb strings.Builder; f(&sb); return []byte(sb.String())
	case "multi": var q bytes.Buffer; f(io.MultiWriter(p, &q)); if !bytes.Equal(p.b, q.Bytes()) { return nil }
	case "pipe": pr, pw := io.Pipe(); ch := make(chan []byte); go func() { x, _ := io.ReadAll(pr); ch <- x }(); f(pw); pw.Close(); return <-ch
	case "file":
		t, e := os.CreateTemp("", "drv"); if e != nil { panic("driver: " + e.Error()) }
		os.Remove(t.Name()); f(t); t.Seek(0, io.SeekStart); x, _ := io.ReadAll(t); t.Close(); return x
	default: panic("driver: sink " + kind)
	}
	return p.b
}
func At(b []byte, off int) *bytes.Reader { r := bytes.NewReader(b); r.Seek(int64(off), io.SeekStart); return r }
func Pos(b []byte, r *bytes.Reader) int { return len(b) - r.Len() }
func Line(s string) string { return strings.ReplaceAll(s, "\n", " / ") }
'''
MAIN = r'''package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"
	"runtime/debug"
	"drv/h"
@IMPORTS@
)

func one(k int, t *h.T) (out string) {
	defer func() { if r := recover(); r != nil { st := strings.Split(string(debug.Stack()), "\n"); if len(st) > 24 { st = st[:24] }; out = fmt.Sprintf("PANIC %v / %s", r, strings.Join(st, " / ")) } }()
	switch k {
@CASES@
	}
	panic("driver: protocol index")
}

func main() {
	debug.SetGCPercent(400)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		k, _ := strconv.Atoi(f[0])
		fmt.Println("> " + h.Line(one(k, &h.T{Toks: f[1:]})))
	}
}
'''
OPS = r'''
func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func readItems(t *h.T) []Message { n := t.N(); l := []Message{}; for i := 0; i < n; i++ { mi := t.N(); l = append(l, mkMsg(mi, t)) }; return l }
func dumpList(o *h.O, l []Message) { o.P(" %d", len(l)); for _, m := range l { o.P(" | %d", int(m.GetMessageType())-1); dumpMsg(o, m) } }
func RunOp(t *h.T) string {
	o := &h.O{}
	switch op := t.Next(); op {
	case "E", "V":
		mi := t.N(); mode := 0; if op == "V" { mode = t.N() }; m := mkMsg(mi, t)
		if op == "V" {
			// a message that was measured and written, then given other contents in place
			var w, pk bytes.Buffer; m.WriteBytes(&w, true)
			if mode == 1 { var e error; m, e = readMsg(mi, bytes.NewReader(w.Bytes()[1:])); if e != nil { o.P("ERR %v", e); break } }
			_ = m.GetSizeInBytes(); m.WriteBytes(&w, mode == 0); PackMessages([]Message{m}, &pk); m = refill(m, t)
		}
		size := m.GetSizeInBytes()
		var a, b, c bytes.Buffer
		m.WriteBytes(&a, true); m.WriteBytes(&b, false); m.WriteBytes(&c, true)
		same := bytes.Equal(a.Bytes(), c.Bytes()) && a.Len() == b.Len()+1 && bytes.Equal(a.Bytes()[1:], b.Bytes()) && size == m.GetSizeInBytes()
		o.P("OK %d %d %d", size, a.Len(), b.Len()); o.B(same); o.X(a.Bytes()); o.X(b.Bytes())
	case "D", "I":
		mi := t.N(); off := t.N(); b := t.Hex(); cp := append([]byte{}, b...)
		r := h.At(b, off)
		m, err := readMsg(mi, r)
		r2 := &h.R{B: cp, Pos: off, Chunk: 1}
		m2, err2 := readMsg(mi, r2)
		same := bytes.Equal(b, cp)
		if op == "I" { for i := range b { b[i] = 0xEE } }
		if (err == nil) != (err2 == nil) { o.P("READERS-DISAGREE %v %v", err, err2); break }
		if err != nil { o.P("ERR %v", err); break }
		o.P("OK %d", h.Pos(b, r)); if op == "I" { o.B(same) }
		dumpMsg(o, m)
		o1 := &h.O{}; o2 := &h.O{}; dumpMsg(o1, m); dumpMsg(o2, m2)
		if o1.String() != o2.String() || r2.Pos != h.Pos(b, r) { o.P(" READERS-DISAGREE") }
		if !same { o.P(" BUFFERCHANGED") }
	case "Q":
		off := t.N(); b := t.Hex(); r := h.At(b, off); o.P("OK")
		for t.More() { mi := t.N(); m, err := readMsg(mi, r); if err != nil { o.P(" ERR"); break }; o.P(" | %d", h.Pos(b, r)); dumpMsg(o, m) }
	case "N":
		tag := t.B(); off := t.N(); l := readItems(t)
		var w bytes.Buffer; for i := 0; i < off; i++ { w.WriteByte(0xAA) }
		for _, m := range l { m.WriteBytes(&w, tag) }
		o.P("OK %d", w.Len()); w.Write(bytes.Repeat([]byte{0xAA}, 16)); o.X(w.Bytes())
	case "S":
		max := t.N(); off := t.N(); b := t.Hex(); r := h.At(b, off)
		l, err := ProcessRawBytes(r, max)
		l2, err2 := ProcessRawBytes(&h.R{B: append([]byte{}, b...), Pos: off, Chunk: 1}, max)
		if (err == nil) != (err2 == nil) || (err == nil && len(l) != len(l2)) { o.P("READERS-DISAGREE %v %v", err, err2); break }
		pos := h.Pos(b, r)
		for i := range b { b[i] = 0xEE }
		if err != nil { o.P("ERR %v", err); break }
		o.P("OK %d", pos); dumpList(o, l)
	case "P":
		off := t.N(); l := readItems(t); var w bytes.Buffer; for i := 0; i < off; i++ { w.WriteByte(0xAA) }
		ps := GetPackedSize(l); PackMessages(l, &w)
		o.P("OK %d %d", ps, w.Len()-off); o.X(w.Bytes()[off:])
	case "U":
		off := t.N(); b := t.Hex(); r := h.At(b, off)
		l, err := UnpackMessages(r)
		_, err2 := UnpackMessages(&h.R{B: append([]byte{}, b...), Pos: off, Chunk: 1})
		if (err == nil) != (err2 == nil) { o.P("READERS-DISAGREE %v %v", err, err2); break }
		pos := h.Pos(b, r)
		for i := range b { b[i] = 0xEE }
		if err != nil { o.P("ERR %v", err); break }
		o.P("OK %d", pos); dumpList(o, l)
	case "F":
		mi := t.N(); m := newMsg(mi); var a, b bytes.Buffer; m.WriteBytes(&a, false)
		pokeMsg(mi); m3 := newMsg(mi); m3.WriteBytes(&b, false)
		o.P("OK %d", m.GetSizeInBytes()); o.X(a.Bytes()); o.X(b.Bytes()); o.P(" %d", int(m.GetMessageType())-1); dumpMsg(o, m); o.P(" /"); dumpMsg(o, m3)
	case "T":
		mi := t.N(); m := mkMsg(mi, t); var a, pk bytes.Buffer; m.WriteBytes(&a, true); PackMessages([]Message{m}, &pk)
		one := func(l []Message, err error) int { if err != nil { return -2 }; if len(l) != 1 { return -1 }; var w bytes.Buffer; l[0].WriteBytes(&w, true); n := int(l[0].GetMessageType()); if !bytes.Equal(w.Bytes(), a.Bytes()) || goIndex(l[0]) != mi { n += 1000 }; return n }
		r, err := readMsg(mi, bytes.NewReader(a.Bytes()[1:])); if err != nil { o.P("ERR %v", err); break }
		o.P("OK %d %d %d %d", goConst(mi), int(newMsg(mi).GetMessageType()), int(m.GetMessageType()), int(r.GetMessageType()))
		o.I(int64(one(ProcessRawBytes(bytes.NewReader(a.Bytes()), -1)))); o.I(int64(one(UnpackMessages(bytes.NewReader(pk.Bytes()))))); o.I(int64(one(ProcessRawBytes(bytes.NewReader(a.Bytes()), 1)))); o.X(a.Bytes()[:1])
	case "C":
		mi := t.N(); m := mkMsg(mi, t); var a bytes.Buffer; m.WriteBytes(&a, true)
		var wg sync.WaitGroup; outs := make([]bytes.Buffer, 4); ok := true
		for g := 0; g < 4; g++ { wg.Add(1); go func(g int) { defer wg.Done(); for it := 0; it < 10; it++ { outs[g].Reset(); if m.GetSizeInBytes()+1 != a.Len() { panic("size changed") }; m.WriteBytes(&outs[g], true); _ = GetPackedSize([]Message{m}) } }(g) }
		wg.Wait()
		for g := range outs { if !bytes.Equal(outs[g].Bytes(), a.Bytes()) { ok = false } }
		o.P("OK"); o.B(ok); o.X(a.Bytes()); dumpMsg(o, m)
	case "R":
		kind := t.Next(); arg := t.N(); w := t.Next(); a := t.N(); b := t.Hex(); r, left, done := h.Source(kind, arg, b); var l []Message; var m Message; var err error
		switch w { case "D": m, err = readMsg(a, r); case "S": l, err = ProcessRawBytes(r, a); default: l, err = UnpackMessages(r) }
		if err != nil { o.P("ERR %v", err) } else { o.P("OK %d", len(b)-left()); if w == "D" { dumpMsg(o, m) } else { dumpList(o, l) } }
		done()
	case "Z":
		kind := t.Next(); l := readItems(t); o.P("OK")
		for _, m := range l { for _, tag := range []bool{true, false} { o.X(h.Sink(kind, func(w io.Writer) { m.WriteBytes(w, tag) })) } }
		o.X(h.Sink(kind, func(w io.Writer) { PackMessages(l, w) }))
	case "Y":
		n := t.N(); mis := make([]int, n); bs := make([][]byte, n); ds := make([][]byte, n)
		for i := range bs { mis[i] = t.N(); bs[i] = t.Hex(); ds[i] = t.Hex() }
		var wg sync.WaitGroup; whys := make([]string, 4)
		for g := 0; g < 4; g++ { wg.Add(1); go func(g int) {
			defer wg.Done(); fail := func(s string) { if whys[g] == "" { whys[g] = s } }
			same := func(m Message, b []byte, why string) { var w bytes.Buffer; m.WriteBytes(&w, true); if m.GetSizeInBytes()+1 != len(b) || !bytes.Equal(w.Bytes(), b) { fail(why) } }
			for it := 0; it < 3*n; it++ {
				st := 1; if g%2 == 0 { st = n - 1 }; j := (it*st + g*n/4) % n; b := bs[j]
				m, err := readMsg(mis[j], bytes.NewReader(b[1:])); if err != nil { fail("read"); continue }; same(m, b, "reread")
				var pk bytes.Buffer; if GetPackedSize([]Message{m, m}) != 2*len(b)+9 { fail("packed size") }; PackMessages([]Message{m, m}, &pk)
				l, err := UnpackMessages(&pk); if err != nil || len(l) != 2 { fail("unpack") } else { same(l[0], b, "unpacked"); same(l[1], b, "unpacked") }
				l, err = ProcessRawBytes(bytes.NewReader(b), -1); if err != nil || len(l) != 1 { fail("process") } else { same(l[0], b, "processed") }
				if len(b) > 1 { if _, err := ProcessRawBytes(bytes.NewReader(b[:len(b)-1]), -1); err == nil { fail("cut accepted") } }
				same(newMsg(mis[j]), ds[j], "default")
			}
		}(g) }
		wg.Wait(); o.P("OK"); for _, s := range whys { if s != "" { o.P(" BAD %s", s) } }
	case "M":
		w := t.Next(); a := -1; if w != "U" { a = t.N() }; b := t.Hex(); least := ^uint64(0); ok := "OK"
		for i := 0; i < 3; i++ {
			var m0, m1 runtime.MemStats; var err error; r := bytes.NewReader(b); runtime.ReadMemStats(&m0)
			switch w { case "D": _, err = readMsg(a, r); case "S": _, err = ProcessRawBytes(r, a); default: _, err = UnpackMessages(r) }
			runtime.ReadMemStats(&m1); if err != nil { ok = "ERR" }; if d := m1.TotalAlloc - m0.TotalAlloc; d < least { least = d }; if least < 65536 || least > 1 << 27 { break }
		}
		o.P("%s %d", ok, least)
	case "X":
		w := t.Next(); a := -1; if w == "D" { a = t.N() }; b := t.Hex(); best := []int64{-1, -1, -1, -1}; why := ""; from := time.Now(); defer debug.SetGCPercent(debug.SetGCPercent(-1))
		for rep := 0; rep < 5 && why == "" && (rep < 1 || time.Since(from) < 300*time.Millisecond); rep++ {
			at := 0; runtime.GC(); timed := func(f func() error) { t0 := time.Now(); err := f(); d := int64(time.Since(t0)); if err != nil { why = err.Error() }; if best[at] < 0 || d < best[at] { best[at] = d }; at++ }
			if w == "D" {
				var m Message; timed(func() (err error) { m, err = readMsg(a, bytes.NewReader(b)); return }); if why != "" { break }; timed(func() error { m.GetSizeInBytes(); return nil })
				var out bytes.Buffer; timed(func() error { m.WriteBytes(&out, false); return nil }); if !bytes.Equal(out.Bytes(), b) { why = "other bytes" }
			} else {
				var l []Message; timed(func() (err error) { l, err = ProcessRawBytes(bytes.NewReader(b), -1); return }); if why != "" { break }; timed(func() error { GetPackedSize(l); return nil })
				var out bytes.Buffer; timed(func() error { PackMessages(l, &out); return nil }); timed(func() error { l2, err := UnpackMessages(&out); if err == nil && len(l2) != len(l) { why = "other list" }; return err })
			}
		}
		if why != "" { o.P("ERR %s", why) } else { o.P("OK"); for _, d := range best { if d >= 0 { o.P(" %d", d) } } }
	default:
		panic("driver: unknown op " + op)
	}
	return o.String()
}
'''

GT = {"byte": "byte", "bool": "bool", "float": "float32", "double": "float64", "string": "string"}


def cap(s):
    return s[:1].upper() + s[1:]


def emit(p, pkg, rename=True):
    o = [f"package {pkg}", "", 'import (', '\t"bytes"', '\t"io"', '\t"sync"', '\t"runtime"', '\t"time"', '\t"runtime/debug"', '\t"drv/h"', ')', "var _ time.Duration", "var _ = debug.FreeOSMemory", "var _ io.Reader", "var _ sync.Mutex", "var _ runtime.MemStats"]
    w = o.append
    nm = cap if rename else (lambda s: s)

    def gt(t):
        return GT.get(t, t)

    def rd(t):
        k = p.kind(t)
        if k == "base":
            if t == "bool":
                return "t.B()"
            if t == "float":
                return "t.F32()"
            if t == "double":
                return "t.F64()"
            if t in ("byte", "uint16", "uint32", "uint64"):
                return f"{gt(t)}(t.U())"
            return f"{gt(t)}(t.S())"
        if k == "string":
            return "t.Str()"
        if k == "enum":
            return f"rdE_{t}(t.S())"
        return None

    def dump(t, lv):
        k = p.kind(t)
        if k == "base":
            if t == "bool":
                return f"o.B({lv})"
            if t == "float":
                return f"o.F32({lv})"
            if t == "double":
                return f"o.F64({lv})"
            if t in ("byte", "uint16", "uint32", "uint64"):
                return f"o.U(uint64({lv}))"
            return f"o.I(int64({lv}))"
        if k == "string":
            return f"o.S({lv})"
        if k == "enum":
            return f"dE_{t}(o, {lv})"
        return f"dS_{t}(o, &{lv})"
    for e in p.enums.values():
        w(f"func rdE_{e.name}(v int64) {e.name} {{ switch v {{")
        for n, v in e.values:
            w(f"case {v}: return {e.name}{n}")
        w('}; panic("driver: enum value") }')
        w(f"func dE_{e.name}(o *h.O, v {e.name}) {{ switch v {{")
        for n, v in e.values:
            w(f"case {e.name}{n}: o.I({v})")
        w('default: o.P(" ?%d", int64(v)) } }')
    for s in list(p.structs.values()) + p.msgs:
        w(f"func rdS_{s.name}(t *h.T, d *{s.name}) {{")
        for m in s.members:
            f = f"d.{nm(m.name)}"
            if m.is_list:
                w(f"{{ n := t.N(); if n <= cap({f}) {{ {f} = {f}[:n] }} else {{ {f} = make([]{gt(m.type)}, n) }}; for i := 0; i < n; i++ {{")
                r = rd(m.type)
                w(f"{f}[i] = {r}" if r else f"rdS_{m.type}(t, &{f}[i])")
                w("} }")
            else:
                r = rd(m.type)
                w(f"{f} = {r}" if r else f"rdS_{m.type}(t, &{f})")
        w("}")
        w(f"func dS_{s.name}(o *h.O, d *{s.name}) {{")
        for m in s.members:
            f = f"d.{nm(m.name)}"
            if m.is_list:
                w(f"o.U(uint64(len({f}))); for i := range {f} {{ {dump(m.type, f + '[i]')} }}")
            else:
                w(dump(m.type, f))
        w("}")
    pv = lambda t: '"poked"' if t == "string" else "true" if t == "bool" else t + p.enums[t].values[-1][0] if t in p.enums else None if t in p.structs else f"{gt(t)}(7)"
    for s in list(p.structs.values()) + p.msgs:
        w(f"func pS_{s.name}(d *{s.name}) {{")
        for m in s.members:
            f = f"d.{nm(m.name)}"
            if m.is_list:
                w(f"{f} = append({f}, {pv(m.type)})" if m.type not in p.structs else f"{{ var e {m.type}; pS_{m.type}(&e); {f} = append({f}, e) }}")
            elif m.type in p.structs:
                w(f"pS_{m.type}(&{f})")
            else:
                w(f"{f} = {pv(m.type)}")
        w("}")
    w("func pokeMsg(mi int) { switch mi {")
    for i, m in enumerate(p.msgs):
        w(f"case {i}: m := New{m.name}Default(); pS_{m.name}(&m)")
    w("} }")
    w("func newMsg(mi int) Message { switch mi {")
    for i, m in enumerate(p.msgs):
        w(f"case {i}: m := New{m.name}Default(); return m")
    w('}; panic("driver: message index") }')
    w("func goConst(mi int) int { switch mi {")
    for i, m in enumerate(p.msgs):
        w(f"case {i}: return int({m.name}Type)")
    w("}; return -1 }")
    w("func goIndex(m Message) int { switch m.(type) {")
    for i, m in enumerate(p.msgs):
        w(f"case *{m.name}, {m.name}: return {i}")
    w("}; return -1 }")
    w("func mkMsg(mi int, t *h.T) Message { switch mi {")
    for i, m in enumerate(p.msgs):
        w(f"case {i}: m := New{m.name}Default(); rdS_{m.name}(t, &m); " + ("return &m" if i % 2 else "return m"))
    w('}; panic("driver: message index") }')
    w("func refill(m Message, t *h.T) Message { switch v := m.(type) {")
    for m in p.msgs:
        w(f"case *{m.name}: rdS_{m.name}(t, v); return v")
        w(f"case {m.name}: rdS_{m.name}(t, &v); return v")
    w('default: _ = v }; panic("driver: message type") }')
    w("func readMsg(mi int, r io.Reader) (Message, error) { switch mi {")
    for i, m in enumerate(p.msgs):
        w(f"case {i}: m, err := {m.name}FromBytes(r); if err != nil {{ return nil, err }}; return m, nil")
    w('}; panic("driver: message index") }')
    w("func dumpMsg(o *h.O, m Message) { switch v := m.(type) {")
    for m in p.msgs:
        w(f"case *{m.name}: dS_{m.name}(o, v)")
        w(f"case {m.name}: dS_{m.name}(o, &v)")
    w('default: _ = v; panic("driver: message type") } }')
    w(OPS)
    return "\n".join(o)


def build(protos, wd, extra=(), mode="plain", rename=True, idx=None):
    idx = list(idx) if idx is not None else list(range(len(protos)))
    root = os.path.join(wd, f"go_{mode}")
    os.makedirs(os.path.join(root, "h"), exist_ok=True)
    open(os.path.join(root, "go.mod"), "w").write("module drv\n\ngo 1.23\n")
    open(os.path.join(root, "h", "h.go"), "w").write(HELP)

    def one(k):
        p = protos[k]
        d = os.path.join(root, f"p{k}")
        g = engine.generate("go", p.toml(), d, "gen", ".go", extra_for(extra, p))
        pkg = re.search(r"^package\s+(\w+)", open(g).read(), re.M).group(1)
        open(os.path.join(d, "drv.go"), "w").write(emit(p, pkg, rename))
    common.pmap(one, idx)
    main = MAIN.replace("@IMPORTS@", "\n".join(f'\tp{k} "drv/p{k}"' for k in idx)).replace("@CASES@", "\n".join(f"\tcase {k}: return p{k}.RunOp(t)" for k in idx))
    open(os.path.join(root, "main.go"), "w").write(main)
    exe = os.path.join(root, "drv.exe")
    # the standard library's compiled form may already be cached for root; a private cache also works, only slower
    env = {}
    if os.path.isdir("/root/.cache/go-build") and os.access("/root/.cache/go-build", os.W_OK):
        env["GOCACHE"] = "/root/.cache/go-build"
    if mode == "m32":
        env["GOARCH"] = "386"
    r = common.run(["go", "build"] + (["-race"] if mode == "race" else []) + ["-o", exe, "."], cwd=root, env=env, timeout=600)
    if r.rc != 0:
        raise BuildError("go", f"compile ({mode})", (r.out + r.err)[:3000])
    return Built("go", [Unit([exe], idx, env={"GORACE": "halt_on_error=1 exitcode=66", "GOMEMLIMIT": "6GiB"})])
