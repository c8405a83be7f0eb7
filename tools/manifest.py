#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Holds on every execution of the run: code generated by the real command from /repo's working tree, compiled with the real compilers and driven over randomly generated protocols and data; "
          "the oracle is an independent encoder/decoder written from docs/. AssemblyScript runs as its generated source on a typed emulation of its library on node, Swift as a translation of its generated source onto models of Swift's types and Foundation (no asc or swiftc here). ")
T = {
 "C01": ("exploration", "round-trip monitor on generated code (ASan/UBSan C, checked Rust/Zig, .NET, Go, node) over random protocols and values", ""),
 "C02": ("exploration", "byte-for-byte comparison of observed encodings with a reference encoder; cross-language decoding", ""),
 "C03": ("exploration", "monitor comparing reported sizes with bytes observed to be written", ""),
 "C04": ("exploration", "every cut point of observed encodings, with redzones/exact-size buffers and sanitizers", ""),
 "C05": ("exploration", "enum position/value sweep with an online decoder oracle", ""),
 "C06": ("exploration", "stream trace oracle over random tagged streams, terminators, maxima and corruptions", ""),
 "C07": ("exploration", "packed-list oracle over lists, cuts, header and count corruptions", ""),
 "C08": ("exploration", "mutation fuzzing under sanitizers, judged by a reference decoder", ""),
 "C09": ("exploration", "ASan+UBSan+LSan, MSan and an allocation monitor over random life-cycle programs of the generated C", ""),
 "C10": ("exploration", "allocation-tracking Zig allocator over valid, truncated and corrupted inputs", ""),
 "C11": ("fault_enumeration", "allocation failure injected at every allocation point of every call (C: malloc macros under ASan; Zig: failing allocator)", ""),
 "C12": ("exploration", "fresh-instance monitor against the documented defaults, with other instances filled in between", ""),
 "C13": ("exploration", "generated sources through the real compilers (strict C/C++, csc, go, rustc, tsc, zig)", ""),
 "C14": ("exploration", "CLI decision oracle over random valid, systematically broken and cyclic protocols, with a CPU limit", ""),
 "C15": ("exploration", "file-system and stream monitor around the real command", ""),
 "C16": ("exploration", "differential byte comparison of repeated generations in varied environments and histories", ""),
 "C17": ("exploration", "reference comparison of code generated under every presentation option; embedded text monitor", ""),
 "C18": ("exploration", "position monitor over sequences of messages at random offsets with guard bytes", ""),
 "C19": ("exploration", "every capacity below the size, with guard bytes and sanitizers", ""),
 "C20": ("exploration", "length-boundary sweep over size type pairs against the reference encoder", ""),
 "C21": ("exploration", "mutation monitors on messages and buffers; ThreadSanitizer / Go race detector on concurrent encoders", ""),
 "C22": ("exploration", "Unicode sweep against an independent UTF-8 codec", ""),
 "C23": ("exploration", "type-identity monitor over every way to obtain a message, against its place in the protocol file", ""),
 "C24": ("exploration", "rival protocols linked into one program under sanitizers, interleaved commands judged by the reference", ""),
 "C25": ("exploration", "allocation metering (checking allocators in C, Zig and Rust, runtime allocation counters in Go and .NET, constructor hooks and heap size on node) of readers given inflated lengths", ""),
 "C26": ("exploration", "the same commands on code built for other machines and with other compiler options (32-bit, big-endian under Miri, optimised, minified), judged by the reference", ""),
 "C27": ("fault_enumeration", "the same reads and writes through many kinds of sources and sinks (piecewise, unseekable, protected pages, failing at a chosen byte), judged by the reference", ""),
 "C29": ("exploration", "the drivers time every step on data of one shape and on 16 times as much; what grows far more than that is measured again alone before it counts", ""),
 "C30": ("exploration", "generated programs report their own members, types and constants by reflection or through their compiler, compared with the protocol and the documented tables", ""),
 "C28": ("exploration", "ThreadSanitizer and the Go race detector over threads that read, write, pack and create their own messages at the same time, results judged by the reference", ""),
}
checks = []
for p, (lvl, tech, note) in T.items():
    if not os.path.exists(f"{V}/checks/{p.lower()}.py"):
        continue
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}", "technique": tech, "level": lvl,
                   "evidence_file": f"evidence/{p}.json", "level_note": COMMON + note})
m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed at the command line and at the generated code's public interface. run.py --replay FILE re-runs a recorded violation."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
