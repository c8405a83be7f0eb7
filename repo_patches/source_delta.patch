From 3c13efce6f94d1c180699ab9abaaae4d1ff6c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 01/55] fix: Zig strings are written with the string size type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From 1f330089857482aa7d28d1bde2c6201b08abb1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 02/55] fix: Zig structs without lists or strings write and
 read their enums and nested structs

---
 beschi/writers/zig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..f6276f8 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
@@ -74,8 +74,10 @@ class ZigWriter(Writer):
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
-            if var.vartype in NUMERIC_TYPE_SIZES:
+            if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From 322aafcdcabf68dbadb34c7a7ca061398f60fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 03/55] fix: Zig reading handles signed size types and lengths
 near the integer limit

---
 beschi/writers/boilerplate/Zig.zig | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..02e5dc9 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -73,7 +73,7 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
         }
     }
 
-    if (offset + @sizeOf(T) > buffer.len) {
+    if (offset > buffer.len or @sizeOf(T) > buffer.len - offset) {
         return DataReaderError.EOF;
     }
 
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - len_read.bytes_read) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From 2b21c95ede30be25cdfd441a5e7ef15ab278e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 04/55] fix: Zig reads, processing and unpacking free
 everything when they fail

---
 beschi/writers/boilerplate/Zig.zig | 23 +++++++++++++++++++++--
 beschi/writers/zig.py              | 18 ++++++++++++++++--
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 02e5dc9..a7922f9 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -261,8 +261,23 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
     offset += writeNumber(u8, offset, buffer, 0);
 }
 
+fn deinitMessages(allocator: std.mem.Allocator, msg_list: []Message) void {
+    for (msg_list) |*msg| {
+        switch (msg.*) {
+            inline else => |*inner| {
+                if (comptime @hasDecl(@TypeOf(inner.*), "deinit")) {
+                    inner.deinit(allocator);
+                }
+            },
+        }
+    }
+}
+
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
+    if (buffer.len < 8) {
+        return DataReaderError.EOF;
+    }
     if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
@@ -273,8 +288,12 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
-    errdefer allocator.free(msg_list);
+    const max = std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData;
+    const msg_list = try processRawBytes(allocator, buffer[offset..], max);
+    errdefer {
+        deinitMessages(allocator, msg_list);
+        allocator.free(msg_list);
+    }
 
     if (msg_list.len == 0) {
         return DataReaderError.InvalidData;
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index f6276f8..d9fd823 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -56,6 +56,7 @@ class ZigWriter(Writer):
             if var.is_list:
                 self.write_line(f"const {accessor}_{var.name}_read = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.cleanup_on_error(var, f"{accessor}_")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             elif var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"const {accessor}_{var.name}_read = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
@@ -64,14 +65,25 @@ class ZigWriter(Writer):
             elif var.vartype == "string":
                 self.write_line(f"const {accessor}_{var.name}_read = try readString(allocator, local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.cleanup_on_error(var, f"{accessor}_")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             else:
                 self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"{'const' if var.is_simple() else 'var'} {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.cleanup_on_error(var, f"{accessor}_")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
 
             self.write_line()
 
+    def cleanup_on_error(self, var: Variable, accessor: str):
+        if var.is_simple():
+            return
+        self.write_line("errdefer {")
+        self.indent_level += 1
+        self.destructor(var, accessor)
+        self.indent_level -= 1
+        self.write_line("}")
+
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
             if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
@@ -358,6 +370,7 @@ class ZigWriter(Writer):
         self.indent_level += 1
         self.write_line("var msg_list = std.ArrayList(Message).init(allocator);")
         self.write_line("defer msg_list.deinit();")
+        self.write_line("errdefer deinitMessages(allocator, msg_list.items);")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line("return msg_list.toOwnedSlice();");
@@ -379,12 +392,13 @@ class ZigWriter(Writer):
         for mname, mdata in self.protocol.messages.items():
             self.write_line(f".{mname} => {{")
             self.indent_level += 1
+            self.write_line("try msg_list.ensureUnusedCapacity(1);")
             if mdata.is_simple():
                 self.write_line(f"const msg_read = try {mname}.fromBytes(local_offset, buffer);")
             else:
                 self.write_line(f"const msg_read = try {mname}.fromBytes(allocator, local_offset, buffer);")
             self.write_line("local_offset += msg_read.bytes_read;")
-            self.write_line(f"try msg_list.append(Message{{ .{mname} = msg_read.value }});")
+            self.write_line(f"msg_list.appendAssumeCapacity(Message{{ .{mname} = msg_read.value }});")
             self.indent_level -= 1
             self.write_line("},")
         self.indent_level -= 1
-- 
2.43.0


From 01268f3f550fb7d929244eea51a1130ee6730def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:20 +0000
Subject: [PATCH 05/55] fix: checking for circular references always finishes

---
 beschi/protocol.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..1143489 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -239,15 +239,17 @@ class Protocol():
             raise ValueError("Cannot, at present, have more than 255 types of messages. Sorry. :(")
 
         def check_for_cycles(s: Struct):
-            encountered = set([s.name])
+            encountered: set[str] = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
-                if new_type in encountered:
+                if new_type == s.name:
                     raise RecursionError(f"{s.name} and {new_type} reference each other")
+                if new_type in encountered: continue
+                encountered.add(new_type)
                 for cvar in self.structs[new_type].members:
-                    if cvar.vartype in encountered:
-                        raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
+                    if cvar.vartype == s.name:
+                        raise RecursionError(f"{s.name} and {new_type} reference each other")
                     if cvar.vartype not in self.structs: continue
                     frontier.append(cvar.vartype)
 
-- 
2.43.0


From 5957bab0ff35690e910e2019c8825a0517af53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:20 +0000
Subject: [PATCH 06/55] fix: enums or enum values declared twice are rejected

---
 beschi/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 1143489..5740f9c 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
@@ -184,6 +186,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From e3397e02449429e4ba30b872d1c733afdf51ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:20 +0000
Subject: [PATCH 07/55] fix: members named like a base type are rejected as
 documented

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 5740f9c..39ddfa6 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -229,6 +229,8 @@ class Protocol():
             for var in s.members:
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
+                if var.name in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{s.name}.{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
                 if var.vartype not in valid_types:
                     if s.is_message and var.vartype in self.messages:
-- 
2.43.0


From d6a86259091dce5bdd089ef301d137f159bcc862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 08/55] fix: a namespace given on the command line cannot
 contain whitespace either

---
 beschi/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..633ac8d 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -2,7 +2,7 @@ import sys
 import argparse
 import traceback
 
-from .protocol import Protocol
+from .protocol import Protocol, _contains_whitespace
 from .writers import all_writers, experimental_writers
 from . import LIB_NAME, LIB_VERSION
 
@@ -62,6 +62,9 @@ def main():
         sys.exit(1)
 
     if args.namespace and len(args.namespace) > 0:
+        if _contains_whitespace(args.namespace):
+            sys.stderr.write(f"ERROR: Namespace cannot contain whitespace: '{args.namespace}'\n")
+            sys.exit(1)
         protocol.namespace = args.namespace
 
     if args.lang not in writers and args.lang not in exp_writers:
-- 
2.43.0


From 8022b8f0b3655977805fa561741708fddd860fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 09/55] fix: output is UTF-8 whatever the locale

---
 beschi/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 633ac8d..574ec8e 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -93,9 +93,9 @@ def main():
         sys.exit(1)
 
     if args.output == None:
-        print(output)
+        sys.stdout.buffer.write(f"{output}\n".encode("utf-8"))
     else:
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
-        with open(args.output, "w") as output_file:
+        with open(args.output, "w", encoding="utf-8") as output_file:
             output_file.write(output)
-- 
2.43.0


From d3ac151339ed675966e79944c9f8f0249ac970b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:55 +0000
Subject: [PATCH 10/55] fix: embedded protocol text cannot end the comment it
 is in

---
 beschi/writer.py             | 4 ++++
 beschi/writers/c.py          | 2 +-
 beschi/writers/csharp.py     | 2 +-
 beschi/writers/go.py         | 2 +-
 beschi/writers/rust.py       | 2 +-
 beschi/writers/swift.py      | 2 +-
 beschi/writers/typescript.py | 2 +-
 7 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 990a59e..ecc351c 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -80,6 +80,10 @@ class Writer:
     def generate(self) -> str:
         raise NotImplementedError(f"ERROR: 'generate' function needs to be implemented on {self.__class__.__name__}")
 
+    # the text of the protocol, safe to put inside a block comment
+    def get_embeddable_protocol(self) -> list[str]:
+        return self.protocol.protocol_string.replace("*/", "* /").replace("/*", "/ *").splitlines()
+
     # write line with current indentation level
     def write_line(self, text: str = ""):
         if len(text) == 0:
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..17df289 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -406,7 +406,7 @@ class CWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..31095dd 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -257,7 +257,7 @@ class CSharpWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..bc5caed 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -308,7 +308,7 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..c39436c 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -263,7 +263,7 @@ class RustWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5860b31..2a505b5 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -244,7 +244,7 @@ class SwiftWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..0394c89 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -389,7 +389,7 @@ class TypeScriptWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embeddable_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From b991cdac69a4f1fccb99e94e67abbb4ac3330644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 11/55] fix: C string lists keep their element lengths in the
 string size type

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 17df289..54350ca 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -262,7 +262,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From e93dba9b0e0cd99c9f9f6773d126ed649e3e9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 12/55] fix: C structs are declared before the structs that
 contain them

---
 beschi/writers/c.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 54350ca..99ec380 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -440,8 +440,17 @@ class CWriter(Writer):
         for enum, edata in self.protocol.enums.items():
             self.gen_enum(enum, edata)
 
-        for sname, sdata in self.protocol.structs.items():
-            self.gen_struct(sname, sdata)
+        # C needs a struct to be declared before another one contains it
+        declared: set[str] = set()
+        def declare_struct(sname: str):
+            if sname in declared: return
+            declared.add(sname)
+            for var in self.protocol.structs[sname].members:
+                if var.vartype in self.protocol.structs:
+                    declare_struct(var.vartype)
+            self.gen_struct(sname, self.protocol.structs[sname])
+        for sname in self.protocol.structs:
+            declare_struct(sname)
 
         for mname, mdata in self.protocol.messages.items():
             self.gen_struct(mname, mdata)
-- 
2.43.0


From 670ec47633f243b21136bde4f52b946a02e82953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 13/55] fix: the C header includes string.h, which its
 implementation uses

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..3556fc5 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -8,6 +8,7 @@
 
 #include <stdlib.h>
 #include <stddef.h>
+#include <string.h>
 #include <stdint.h>
 #include <stdbool.h>
 
-- 
2.43.0


From 4823b47ec345210128d7e225ad0ca1c2923fdbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 14/55] fix: C messages made by _Create have all their lengths
 set

---
 beschi/writers/c.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 99ec380..95d00a5 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -338,9 +338,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 40bc5246b3a3787313b99d8b35e1bfc60d7f7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 15/55] fix: C default strings are never passed to free

---
 beschi/writers/boilerplate/C.0.h | 3 +++
 beschi/writers/boilerplate/C.1.h | 2 ++
 beschi/writers/c.py              | 4 ++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 3556fc5..a067f05 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -31,6 +31,9 @@ typedef struct {
     size_t position;
 } beschi_DataAccess;
 
+// the value of strings in default messages; not allocated, so never freed
+extern char beschi_EmptyString[1];
+
 bool beschi_IsFinished(const beschi_DataAccess *r);
 beschi_err_t beschi_ReadUInt8(beschi_DataAccess *r, uint8_t *ui8);
 beschi_err_t beschi_ReadBool(beschi_DataAccess *r, bool *b);
diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..7d049fa 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -27,6 +27,8 @@
 ///////////////////////////////////////
 // standard utility definitions
 
+char beschi_EmptyString[1] = "";
+
 bool beschi_IsFinished(const beschi_DataAccess *r) {
     return r->position >= r->bufferSize;
 }
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 95d00a5..d4f8be2 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -210,7 +210,7 @@ class CWriter(Writer):
                 self.write_line(f".{var.name} = {self.base_defaults[var.vartype]},")
             elif var.vartype == "string":
                 self.write_line(f".{var.name}_len = 0,")
-                self.write_line(f".{var.name} = (char*)\"\",")
+                self.write_line(f".{var.name} = {self.prefix}EmptyString,")
             elif var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f".{var.name} = {self.prefix}{e.name}_{e.get_default_pair()[0]},")
@@ -239,7 +239,7 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
-            self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            self.write_line(f"if ({accessor}{var.name} != {self.prefix}EmptyString) {{ {self.prefix.upper()}FREE({accessor}{var.name}); }}")
         else:
             [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
 
-- 
2.43.0


From 4d8b16ec8903f6d73794562ce1258f514ce19342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 16/55] fix: C reading checks string and list lengths without
 overflowing

---
 beschi/protocol.py               | 11 +++++++++++
 beschi/writers/boilerplate/C.1.h | 14 +++++++-------
 beschi/writers/c.py              | 10 ++++++++--
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 39ddfa6..e69c3bf 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -265,6 +265,17 @@ class Protocol():
     def __str__(self) -> str:
         return f"Protocol (namespace: {self.namespace}, {len(self.structs)} structs, {len(self.messages)} messages)"
 
+    # the fewest bytes that a value of this type can take up when written
+    def get_minimum_size_of(self, var_type: str) -> int:
+        if var_type == "string":
+            return NUMERIC_TYPE_SIZES[self.string_size_type]
+        if var_type in self.structs:
+            return sum([
+                NUMERIC_TYPE_SIZES[self.list_size_type] if var.is_list else self.get_minimum_size_of(var.vartype)
+                for var in self.structs[var_type].members
+            ])
+        return self.get_size_of(var_type)
+
     def get_size_of(self, var_type: str) -> int:
         if var_type in NUMERIC_TYPE_SIZES:
             return NUMERIC_TYPE_SIZES[var_type]
diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index 7d049fa..935d1f7 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -130,14 +130,14 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if ((uint64_t)(r->bufferSize - r->position) < (uint64_t)*len) {
         return BESCHI_ERR_EOF;
     }
-    *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
+    *s = (char*)BESCHI_MALLOC((size_t)*len + 1);
     if (*s == NULL) { return BESCHI_ERR_ALLOCATION_FAILURE; }
-    memcpy(*s, r->buffer + r->position, *len);
+    memcpy(*s, r->buffer + r->position, (size_t)*len);
     (*s)[*len] = '\0';
-    r->position += *len;
+    r->position += (size_t)*len;
     return BESCHI_ERR_OK;
 }
 
@@ -239,11 +239,11 @@ beschi_err_t beschi_WriteString(beschi_DataAccess *w, char* const *s, const {# S
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (w->bufferSize < w->position + len) {
+    if ((uint64_t)(w->bufferSize - w->position) < (uint64_t)len) {
         return BESCHI_ERR_EOF;
     }
-    memcpy(w->buffer + w->position, *s, len);
-    w->position += len;
+    memcpy(w->buffer + w->position, *s, (size_t)len);
+    w->position += (size_t)len;
     return BESCHI_ERR_OK;
 }
 
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index d4f8be2..a9f5e50 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -71,14 +71,20 @@ class CWriter(Writer):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
             self.err_check_return()
+            self.write_line(f"if ((uint64_t){accessor}{var.name}_len > (uint64_t)(r->bufferSize - r->position) / {max(1, self.protocol.get_minimum_size_of(var.vartype))}) {{")
+            self.indent_level += 1
+            self.write_line(f"{accessor}{var.name}_len = 0;")
+            self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+            self.indent_level -= 1
+            self.write_line("}")
             if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                 pref = ""
             else:
                 pref = self.prefix
-            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
+            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * (size_t){accessor}{var.name}_len);")
             self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             if var.vartype == "string":
-                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
+                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * (size_t){accessor}{var.name}_len);")
                 self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
-- 
2.43.0


From 5f0ebbd30ab77b4685cc83b1003ebb25f94cf8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 17/55] fix: C messages that could not be read can be cleaned
 up or destroyed

---
 beschi/writers/c.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index a9f5e50..eb11ce4 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -82,10 +82,17 @@ class CWriter(Writer):
             else:
                 pref = self.prefix
             self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * (size_t){accessor}{var.name}_len);")
-            self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            self.write_line(f"if ({accessor}{var.name} == NULL) {{")
+            self.indent_level += 1
+            self.write_line(f"{accessor}{var.name}_len = 0;")
+            self.write_line(f"return {self.prefix.upper()}ERR_ALLOCATION_FAILURE;")
+            self.indent_level -= 1
+            self.write_line("}")
+            if not var.is_simple(True):
+                self.write_line(f"memset({accessor}{var.name}, 0, sizeof({pref}{self.type_mapping[var.vartype]}) * (size_t){accessor}{var.name}_len);")
             if var.vartype == "string":
                 self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * (size_t){accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.write_line(f"if ({accessor}{var.name}_els_len == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -369,6 +376,8 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_FromBytes({self.prefix}DataAccess* r, {self.prefix}{sname}* dst) {{")
         self.indent_level += 1
         if sdata.is_message:
+            # nothing left uninitialized, so the message can be cleaned up even if reading it fails
+            self.write_line("memset(dst, 0, sizeof(*dst));")
             self.write_line(f"dst->_mt = {self.prefix}MessageType_{sname};")
         if len(sdata.members) > 0:
             self.write_line(f"{self.prefix}err_t err;")
-- 
2.43.0


From 8cf0f3d767b0565b2e021fbeb934509c784383e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 18/55] fix: C packing starts at the current position and stays
 inside the buffer

---
 beschi/writers/c.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index eb11ce4..e13480d 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -679,7 +679,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -705,7 +710,8 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
+        self.write_line(f"err = {self.prefix}WriteUInt8(w, 0);")
+        self.err_check_return()
         self.write_line()
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
         self.indent_level -= 1
-- 
2.43.0


From 0833a56268036376eb98aa13297ab01747fe6450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 19/55] fix: C unpacking starts at the current position, stays
 inside the buffer and frees everything when it fails

---
 beschi/writers/c.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index e13480d..05af1d2 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -721,7 +721,12 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("if (r->bufferSize < r->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("if (memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
@@ -730,14 +735,23 @@ class CWriter(Writer):
         self.write_line("uint32_t msgCount;")
         self.write_line(f"err = {self.prefix}ReadUInt32(r, &msgCount);")
         self.err_check_return()
+        self.write_line("if (msgCount > INT32_MAX) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
+        self.indent_level -= 1
+        self.write_line("}")
         # doing things a little backwards here to let ProcessRawBytes allocate an empty array
         self.write_line(f"err = {self.prefix}ProcessRawBytes(r, (int32_t)msgCount, msgListOut, len);")
-        self.err_check_return()
-        self.write_line("if (len == 0) {")
+        self.write_line(f"if (err != {self.prefix.upper()}ERR_OK) {{")
+        self.indent_level += 1
+        self.write_line("if (*msgListOut != NULL) {")
         self.indent_level += 1
-        self.write_line(f"{self.prefix.upper()}FREE(*msgListOut);")
+        self.write_line(f"{self.prefix}DestroyMessageList(*msgListOut, *len);")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("*msgListOut = NULL;")
-        self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
+        self.write_line("*len = 0;")
+        self.write_line("return err;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("if (*len != (size_t)msgCount) {")
-- 
2.43.0


From b5c788b0b64d9b10948ecb9d2e67f401c81cca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 20/55] fix: C processing keeps its list when it cannot be
 enlarged

---
 beschi/writers/c.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 05af1d2..27daca0 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -558,9 +558,9 @@ class CWriter(Writer):
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
         self.write_line("size_t currCapacity = 8;")
+        self.write_line("*len = 0;")
         self.write_line(f"*msgListDst = (void**){self.prefix.upper()}MALLOC(sizeof(void*) * currCapacity);")
         self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
-        self.write_line("*len = 0;")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
@@ -571,8 +571,9 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** grown = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (grown == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = grown;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-- 
2.43.0


From e77141dae0d2bb9955dac66b18f61e8a6b2cbe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 21/55] fix: C compiles without warnings with 255 messages and
 measures long lists without overflowing

---
 beschi/writers/c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 27daca0..90b4b1c 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -183,7 +183,7 @@ class CWriter(Writer):
                     accum += NUMERIC_TYPE_SIZES[self.protocol.list_size_type]
                     idx = self.indent_level
                     if var.is_simple(True):
-                        lines.append(f"*size += {accessor}{var.name}_len * {self.protocol.get_size_of(var.vartype)};")
+                        lines.append(f"*size += (size_t){accessor}{var.name}_len * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
                         lines.append(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
                         lines.append(f"{self.tab}*size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + {accessor}{var.name}_els_len[i{idx}];")
@@ -476,7 +476,7 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}MessageType {self.prefix}GetMessageType(const void* m) {{")
         self.indent_level += 1
         self.write_line("const uint8_t* buffer = (const uint8_t*)m;")
-        self.write_line("uint8_t msgType = buffer[0];")
+        self.write_line("unsigned int msgType = buffer[0];")
         self.write_line(f"if (msgType > {len(self.protocol.messages)}) {{")
         self.indent_level += 1
         self.write_line(f"return {self.prefix}MessageType_BuiltIn_NullMessage;")
-- 
2.43.0


From 4415da890164ec97d120eacb7736754b3b4fef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:30 +0000
Subject: [PATCH 22/55] fix: C structs without members compile

---
 beschi/writers/c.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 90b4b1c..9d73193 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -231,6 +231,8 @@ class CWriter(Writer):
                 self.write_line(f".{var.name} = {{")
                 self.indent_level += 1
                 self.gen_default(self.protocol.structs[var.vartype].members)
+                if len(self.protocol.structs[var.vartype].members) == 0:
+                    self.write_line("._unused = 0,")
                 self.indent_level -= 1
                 self.write_line("},")
 
@@ -289,6 +291,9 @@ class CWriter(Writer):
                 self.write_line(f"{self.prefix}{var.vartype} {var.name};")
             elif var.vartype in self.protocol.structs:
                 self.write_line(f"{self.prefix}{var.vartype} {var.name};")
+        if len(sdata.members) == 0 and not sdata.is_message:
+            # C does not allow structs without members
+            self.write_line("uint8_t _unused;")
         self.indent_level -= 1
         self.write_line(f"}} {self.prefix}{sname};")
 
@@ -392,7 +397,8 @@ class CWriter(Writer):
         else:
             self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_WriteBytes({self.prefix}DataAccess* w, const {self.prefix}{sname}* src) {{")
         self.indent_level += 1
-        self.write_line(f"{self.prefix}err_t err;")
+        if sdata.is_message or len(sdata.members) > 0:
+            self.write_line(f"{self.prefix}err_t err;")
         if sdata.is_message:
             self.write_line("if (tag) {")
             self.indent_level += 1
-- 
2.43.0


From 7f5c60ac2293236299182ad2736e7c99e3832b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 23/55] fix: C protocols without messages compile

---
 beschi/writers/c.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 9d73193..06fb4a3 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -586,7 +586,8 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}ReadUInt8(r, &msgType);")
         self.err_check_return()
         self.write_line()
-        self.write_line("void* out;")
+        if len(self.protocol.messages) > 0:
+            self.write_line("void* out;")
         self.write_line("switch (msgType) {")
         self.write_line(f"case {self.prefix}MessageType_BuiltIn_NullMessage:")
         self.indent_level += 1
@@ -649,7 +650,8 @@ class CWriter(Writer):
         self.write_line("*packedSize = 0;")
         self.write_line("for (size_t i = 0; i < len; i++) {")
         self.indent_level += 1
-        self.write_line("size_t individualSize = 0;")
+        if len(self.protocol.messages) > 0:
+            self.write_line("size_t individualSize = 0;")
         self.write_line(f"{self.prefix}MessageType msgType = {self.prefix}GetMessageType(msgList[i]);")
         self.write_line("switch (msgType) {")
         for msg_type in self.protocol.messages:
-- 
2.43.0


From e2c94854eb0f307b626bb52f2bfb585533c98b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 24/55] fix: C# strings are measured in UTF-8 bytes

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 31095dd..3b8b711 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From b0deca6fae88671fe793c011f40c3f56696b1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 25/55] fix: C# reports strings that are cut short

---
 beschi/writers/csharp.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 3b8b711..f3051b9 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -65,7 +65,19 @@ class CSharpWriter(Writer):
             self.write_line("}")
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
+            self.write_line(f"if (br.BaseStream.CanSeek && (ulong){var_clean}_Length > (ulong)(br.BaseStream.Length - br.BaseStream.Position))")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"if ((ulong){var_clean}_Buffer.Length != (ulong){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From b0d883347ad9e4d7a29cebbd494a51025da979aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 26/55] fix: C# lists can have any integer type as their size
 type

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index f3051b9..c67a8cf 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -44,7 +44,7 @@ class CSharpWriter(Writer):
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From 14bfca1bdc52e59d72567214b256d1afbaa7121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 27/55] fix: Go reports errors in nested structs and checks the
 enums in all of them

---
 beschi/writers/go.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index bc5caed..f6d1113 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -105,14 +105,18 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.vartype in NUMERIC_TYPE_SIZES:
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err {':' if declare_err else ''}= {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From 6170e5e51dda1cb4eb6afbb06aa4abf18803ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 28/55] fix: Go returns an error for strings that are cut short
 instead of panicking

---
 beschi/writers/boilerplate/Go.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..552f599 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -7,15 +7,19 @@ import (
 )
 
 func readString(data io.Reader, str *string) error {
-	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
-	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
+	var strLen {# STRING_SIZE_TYPE #}
+	if err := binary.Read(data, binary.LittleEndian, &strLen); err != nil {
+		return err
+	}
+	sbytes, err := io.ReadAll(io.LimitReader(data, int64(strLen)))
 	if err != nil {
-		panic(err)
+		return err
+	}
+	if int64(len(sbytes)) != int64(strLen) {
+		return io.ErrUnexpectedEOF
 	}
 	*str = string(sbytes)
-	return err
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
-- 
2.43.0


From cdb902878a1d02c518badac3e5c1a33838ceb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 29/55] fix: Go unpacking returns an error for a header that is
 cut short instead of panicking

---
 beschi/writers/boilerplate/Go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 552f599..4c8b461 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -59,7 +59,7 @@ func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
 	err := binary.Read(data, binary.LittleEndian, &sbytes)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
-- 
2.43.0


From cc5ffc80d9cacf66dbaf0082fdc097915b0221ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 30/55] fix: Go lists grow as they are read, so a wrong length
 cannot make reading panic

---
 beschi/writers/go.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index f6d1113..3833f3a 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -64,10 +64,11 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
-            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
+            self.write_line(f"{accessor}.{var.name} = []{self.type_mapping[var.vartype]}{{}}")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
             self.indent_level += 1
+            self.write_line(f"{accessor}.{var.name} = append({accessor}.{var.name}, *new({self.type_mapping[var.vartype]}))")
             if var.vartype in self.protocol.enums:
                 self.write_line(f"var _{var.name} {var.vartype}")
                 self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &_{var.name}); err != nil {{")
-- 
2.43.0


From b1e4ba8e62746943d7f459fd0ea986ad54141c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 31/55] fix: Go processing reports read errors other than the
 end of the data

---
 beschi/writers/go.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 3833f3a..bc5ad6b 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -365,6 +365,11 @@ class GoWriter(Writer):
         self.write_line("break")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line("if err != nil {")
+        self.indent_level += 1
+        self.write_line("return nil, fmt.Errorf(\"could not read message type (%w)\", err)")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("if msgType == 0 {")
         self.indent_level += 1
         self.write_line("return msgList, nil")
-- 
2.43.0


From cf96f10274fae0ba08c860b9919a3bafa229dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:04 +0000
Subject: [PATCH 32/55] fix: Go keeps the namespace when not renaming it

---
 beschi/writers/go.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index bc5ad6b..a1b800f 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -326,6 +326,8 @@ class GoWriter(Writer):
             subs.append(("Beschi", self.protocol.namespace))
             if self.rename:
                 subs.append(("beschi", TextUtil.convert_to_lower_snake_case(self.protocol.namespace)))
+            else:
+                subs.append(("beschi", self.protocol.namespace))
 
         self.add_boilerplate(subs)
         self.write_line()
-- 
2.43.0


From c812ecf2d27f153f46ff563191987cf9174603bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 33/55] fix: Rust lists of bytes and bools compile

---
 beschi/writers/rust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index c39436c..cfb30cb 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,8 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            deref = var.vartype in self.protocol.enums or var.vartype in ["byte", "bool"]
+            inner = Variable(self.protocol, f"{'*' if deref else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 2717dd25cc8dfe2a11aec6af732532b07a972223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 34/55] fix: Rust reading does not overflow on huge lengths

---
 beschi/writers/boilerplate/Rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..a9cf224 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,7 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        size <= self.buffer.len().saturating_sub(self.current_position)
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
-- 
2.43.0


From 149b7af277da4425f67b0e14e9ad7d2513de0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 35/55] fix: Rust local variables cannot shadow or be shadowed
 by members

---
 beschi/writers/rust.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index cfb30cb..ddec24f 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -45,12 +45,12 @@ class RustWriter(Writer):
 
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
-            self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
+            self.write_line(f"let _{var.name}_len = _reader.read_{self.get_native_list_size()}()?;")
             if var.vartype in self.type_mapping:
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..{var.name}_len {{")
+            self.write_line(f"for _ in 0.._{var.name}_len {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
@@ -59,19 +59,19 @@ class RustWriter(Writer):
             self.write_line("}")
         elif var.vartype in NUMERIC_TYPE_SIZES:
             if var.vartype == "byte":
-                self.write_line(f"let {var.name} = reader.take_byte()?;")
+                self.write_line(f"let {var.name} = _reader.take_byte()?;")
             elif var.vartype == "bool":
-                self.write_line(f"let {var.name} = reader.take_byte()? > 0;")
+                self.write_line(f"let {var.name} = _reader.take_byte()? > 0;")
             else:
-                self.write_line(f"let {var.name} = reader.read_{self.type_mapping[var.vartype]}()?;")
+                self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[var.vartype]}()?;")
         elif var.vartype == "string":
-            self.write_line(f"let {var.name} = reader.read_string()?;")
+            self.write_line(f"let {var.name} = _reader.read_string()?;")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-            self.write_line(f"let {var.name} = reader.read_{self.type_mapping[e.encoding]}()?;")
+            self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[e.encoding]}()?;")
             self.write_line(f"let {var.name} = {var.vartype}::try_from({var.name})?;")
         else:
-            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(reader)?;")
+            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(_reader)?;")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
@@ -224,7 +224,7 @@ class RustWriter(Writer):
         self.write_line("}")
         self.write_line()
 
-        self.write_line(f"fn from_bytes({'_' if len(sdata.members) == 0 else ''}reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
+        self.write_line(f"fn from_bytes(_reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
         self.indent_level += 1
         [self.deserializer(mem, "") for mem in sdata.members]
         varnames = [mem.name for mem in sdata.members]
-- 
2.43.0


From d7531d51ea9e07293f6f27270139264b9d82800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:36 +0000
Subject: [PATCH 36/55] fix: Rust protocols without messages compile

---
 beschi/writers/rust.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index ddec24f..28de90b 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -295,11 +295,13 @@ class RustWriter(Writer):
         self.write_line("}")
         self.write_line()
 
+        # a reference to an enum without variants cannot be matched on, but the enum itself can
+        self_ref = "self" if len(self.protocol.messages) > 0 else "*self"
         self.write_line("impl MessageCodec for Message {")
         self.indent_level += 1
         self.write_line("fn get_message_type(&self) -> MessageType {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(f"match {self_ref} {{")
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(_) => MessageType::{mname},")
@@ -310,7 +312,7 @@ class RustWriter(Writer):
         self.write_line()
         self.write_line("fn get_size_in_bytes(&self) -> usize {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(f"match {self_ref} {{")
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(msg) => msg.get_size_in_bytes(),")
@@ -336,7 +338,7 @@ class RustWriter(Writer):
         self.write_line()
         self.write_line("fn write_bytes(&self, writer: &mut Vec<u8>, tag: bool) {")
         self.indent_level += 1
-        self.write_line("match self {")
+        self.write_line(f"match {self_ref} {{")
         self.indent_level += 1
         for mname in self.protocol.messages:
             self.write_line(f"Message::{mname}(msg) => msg.write_bytes(writer, tag),")
-- 
2.43.0


From 5ba455570ce96cc0dc0908f8eb78ecee1cd43670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:53 +0000
Subject: [PATCH 37/55] fix: Zig structs without members compile

---
 beschi/writers/zig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index d9fd823..c22e3a0 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -243,6 +243,7 @@ class ZigWriter(Writer):
             self.write_line("_ = self;")
             if not sdata.is_message:
                 self.write_line("_ = offset;")
+                self.write_line("_ = buffer;")
         if sdata.is_simple():
             simple_offset = 0
             if sdata.is_message:
-- 
2.43.0


From 69bba4b8fde798b202a77250871b80b6da408602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 38/55] fix: TypeScript stays inside the DataView it was given

---
 beschi/writers/boilerplate/TypeScript.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..a5e0372 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (len > this.data.byteLength - this.currentOffset) {
+      throw new RangeError("String goes past the end of the data.");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
@@ -173,7 +176,7 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
+  const arr = new Uint8Array(da.data.buffer, da.data.byteOffset, da.data.byteLength);
   arr.set(headerBytes, da.currentOffset);
   da.currentOffset += headerBytes.byteLength;
   da.setUint32(msgList.length);
@@ -191,8 +194,10 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
-  da.currentOffset += 4;
+  const headerBuffer = new Uint8Array(4);
+  for (let i = 0; i < 4; i++) {
+    headerBuffer[i] = da.getByte();
+  }
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
     throw new Error("Packed message buffer has invalid header.");
-- 
2.43.0


From 11de14d817c250a697e574bb3981d6c4d482e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 39/55] fix: TypeScript keeps a byte order mark at the start of
 a string

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index a5e0372..b8c66a1 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From 26830e3fe82fb4083e1482e1160434af11f8c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 40/55] fix: TypeScript and AssemblyScript handle every size
 type and check lengths against the data left

---
 beschi/writers/boilerplate/AssemblyScript.ts |  4 ++--
 beschi/writers/boilerplate/TypeScript.ts     |  4 ++--
 beschi/writers/typescript.py                 | 22 +++++++++++++++-----
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 682673c..c1bbbc5 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -113,11 +113,11 @@ export class DataAccess {
     if (this.hasError) {
         return "";
     }
-    if (this.currentOffset + len > (this.data.byteLength as u32)) {
+    if ((len as u64) > ((this.data.byteLength as u32) - this.currentOffset) as u64) {
         this.hasError = true;
         return "";
     }
-    const strBuffer = new Uint8Array(len);
+    const strBuffer = new Uint8Array(len as i32);
     for (let i = 0; i < strBuffer.byteLength; i++) {
         strBuffer[i] = this.getByte();
     }
diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b8c66a1..16b9c86 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = Number(this.get{# STRING_SIZE_TYPE #}());
     if (len > this.data.byteLength - this.currentOffset) {
       throw new RangeError("String goes past the end of the data.");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# STRING_SIZE_CONVERTER #}(strBuffer.byteLength));
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 0394c89..d27dc01 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -51,12 +51,20 @@ class TypeScriptWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
-            if self.is_assembly_script:
+            if not self.is_assembly_script:
+                self.write_line(f"const {var_clean}_Length = Number(da.get{self.base_serializers[self.protocol.list_size_type]}());")
+            else:
+                self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
                 self.write_line("if (da.hasError) { return null; }")
-            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
+                self.write_line(f"if (({var_clean}_Length as u64) > (((da.data.byteLength as u32) - da.currentOffset) / {max(1, self.protocol.get_minimum_size_of(var.vartype))}) as u64) {{")
+                self.indent_level += 1
+                self.write_line("da.hasError = true;")
+                self.write_line("return null;")
+                self.indent_level -= 1
+                self.write_line("}")
+            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length{' as i32' if self.is_assembly_script else ''});")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            self.write_line(f"for (let i{idx}: {'i32' if self.is_assembly_script else 'number'} = 0; i{idx} < {var_clean}_Length{' as i32' if self.is_assembly_script else ''}; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +134,10 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                length = f"{accessor}{var.name}.length"
+                if self.type_mapping[self.protocol.list_size_type] == "bigint":
+                    length = f"BigInt({length})"
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({length});")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -403,6 +414,7 @@ class TypeScriptWriter(Writer):
         self.add_boilerplate(substitutions=[
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
+            ("{# STRING_SIZE_CONVERTER #}", "BigInt" if self.type_mapping[self.protocol.string_size_type] == "bigint" else "Number"),
         ])
 
         self.write_line("export enum MessageType {")
-- 
2.43.0


From 259687b90b88424f4b09d284dc9f91364b061194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 41/55] fix: TypeScript and AssemblyScript measure lists nested
 in lists of the same name

---
 beschi/writers/typescript.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index d27dc01..8ba06c1 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -169,7 +169,7 @@ class TypeScriptWriter(Writer):
             else:
                 self.write_line(f"if (!{accessor}{var.name}.writeBytes(da)) {{ return false; }};")
 
-    def gen_measurement(self, st: Struct, accessor: str = "") -> tuple[list[str], int]:
+    def gen_measurement(self, st: Struct, accessor: str = "", depth: int = 0) -> tuple[list[str], int]:
         lines: list[str] = []
         accum = 0
 
@@ -188,16 +188,18 @@ class TypeScriptWriter(Writer):
                     if var.is_simple(True):
                         lines.append(f"size += {accessor}{var.name}.length * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
-                        lines.append(f"for (let {var.name}_i=0; {var.name}_i < {accessor}{var.name}.length; {var.name}_i++) {{")
+                        idx = f"{var.name}_i{depth}"
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
                         if not self.is_assembly_script:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i]).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{idx}]).byteLength;")
                         else:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i], false).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{idx}], false).byteLength;")
                         lines.append("}")
                     else:
                         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
-                        lines.append(f"for (let {var_clean}_i=0; {var_clean}_i < {accessor}{var.name}.length; {var_clean}_i++) {{")
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i].")
+                        idx = f"{var_clean}_i{depth}"
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{idx}].", depth + 1)
                         if clines[0] == size_init:
                             clines = clines[1:]
                         clines.append(f"size += {caccum};")
@@ -213,7 +215,7 @@ class TypeScriptWriter(Writer):
                         else:
                             lines.append(f"size += String.UTF8.encode({accessor}{var.name}, false).byteLength;")
                     else:
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.", depth)
                         if clines[0] == size_init:
                             clines = clines[1:]
                         lines += clines
-- 
2.43.0


From 8535b8a1c1f89631a15b203c15486de3fd86c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 42/55] fix: TypeScript without a namespace is not wrapped in
 one called None

---
 beschi/writers/typescript.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 8ba06c1..c6d30cc 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -22,7 +22,7 @@ class TypeScriptWriter(Writer):
 
         self.embed_protocol = extra_args["embed_protocol"]
 
-        self.use_namespace = extra_args["typescript_use_namespace"]
+        self.use_namespace = extra_args["typescript_use_namespace"] and p.namespace != None
 
         for var_type in NUMERIC_TYPE_SIZES:
             if var_type == "bool":
-- 
2.43.0


From 339f8e74a3a5bd41fa996acaa9d68906a97a24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 43/55] fix: AssemblyScript enums decode exactly their declared
 values

---
 beschi/writers/typescript.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index c6d30cc..a9f0b6e 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -1,6 +1,7 @@
 import argparse
+import itertools
 
-from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES
+from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
 from .. import LIB_NAME, LIB_VERSION
 
@@ -78,12 +79,11 @@ class TypeScriptWriter(Writer):
                 else:
                     self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
                     self.write_line("if (da.hasError) { return null; }")
-                    self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
-                    self.indent_level += 1
-                    self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
-                    self.indent_level -= 1
-                    self.write_line("}")
-                self.write_line(f"{accessor}{var.name}[i{idx}] = _{var.name};")
+                    declared = " || ".join([f"_{var.name} == {v}" for v in e.values.values()])
+                if not self.is_assembly_script:
+                    self.write_line(f"{accessor}{var.name}[i{idx}] = _{var.name};")
+                else:
+                    self.write_line(f"{accessor}{var.name}[i{idx}] = ({declared}) ? _{var.name} : {var.vartype}._Unknown;")
             else:
                 inner = Variable(self.protocol, f"{var.name}[i{idx}]", var.vartype)
                 self.deserializer(inner, accessor)
@@ -105,12 +105,11 @@ class TypeScriptWriter(Writer):
             else:
                 self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
-                self.indent_level += 1
-                self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
-                self.indent_level -= 1
-                self.write_line("}")
-            self.write_line(f"{accessor}{var.name} = _{var.name};")
+                declared = " || ".join([f"_{var.name} == {v}" for v in e.values.values()])
+            if not self.is_assembly_script:
+                self.write_line(f"{accessor}{var.name} = _{var.name};")
+            else:
+                self.write_line(f"{accessor}{var.name} = ({declared}) ? _{var.name} : {var.vartype}._Unknown;")
         elif var.vartype in NUMERIC_TYPE_SIZES:
             self.write_line(f"{accessor}{var.name} = da.get{self.base_serializers[var.vartype]}();")
             if self.is_assembly_script:
@@ -228,7 +227,10 @@ class TypeScriptWriter(Writer):
         for v, vi in edata.values.items():
             self.write_line(f"{v} = {vi},")
         if self.is_assembly_script:
-            self.write_line("_Unknown,")
+            unknown = max(edata.values.values()) + 1
+            if unknown > NUMERIC_TYPE_RANGES["int32"][1]: # enums are i32
+                unknown = next(n for n in itertools.count() if n not in edata.values.values())
+            self.write_line(f"_Unknown = {unknown},")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
-- 
2.43.0


From fb40200616f52b24bb7611ec4239db2d5d3dddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:58 +0000
Subject: [PATCH 44/55] fix: AssemblyScript unpacks from any part of a buffer
 and accepts empty lists

---
 beschi/writers/boilerplate/AssemblyScript.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index c1bbbc5..49ce1b0 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -11,7 +11,7 @@ export class DataAccess {
   }
 
   isFinished(): bool {
-    return this.currentOffset > (this.data.byteLength as u32);
+    return this.currentOffset >= (this.data.byteLength as u32);
   }
 
   getByte(): u8 {
@@ -239,7 +239,7 @@ export abstract class Message {
   };
 
   static fromBytesDA(data: DataAccess): Message | null {
-    const msgList = ProcessRawBytes(data, 1);
+    const msgList = ProcessRawBytesDA(data, 1);
     if (msgList.length == 0) {
       return null;
     }
@@ -276,7 +276,7 @@ export function PackMessages(msgList: Message[], data: DataView): void {
 
 export function UnpackMessages(data: DataView): Message[] {
   const da = new DataAccess(data);
-  if (da.data.byteLength < 12) {
+  if (da.data.byteLength < 8) {
     throw new Error("Packed message buffer is too short.");
   }
   const headerBuffer = new Uint8Array(4);
@@ -291,8 +291,7 @@ export function UnpackMessages(data: DataView): Message[] {
   if (msgCount == 0) {
     return [];
   }
-  const dv = new DataView(data.buffer, da.currentOffset, data.byteLength - da.currentOffset);
-  const msgList = ProcessRawBytes(dv, msgCount);
+  const msgList = ProcessRawBytesDA(da, msgCount);
   if (msgList.length == 0) {
     throw new Error("No messages in buffer.");
   }
-- 
2.43.0


From 4c7a824157908ea2d4e6233eee73da097f7a8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 45/55] fix: Zig protocols without messages compile

---
 beschi/writers/boilerplate/Zig.zig |  7 ++--
 beschi/writers/zig.py              | 52 ++++++++++++++++++------------
 2 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a7922f9..039ed95 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -230,9 +230,7 @@ pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usiz
 }
 
 pub fn writeBytes(m: *const Message, offset: usize, buffer: []u8, tag: bool) usize {
-    switch (m.*) {
-        inline else => |inner| return inner.writeBytes(offset, buffer, tag),
-    }
+    return m.writeBytes(offset, buffer, tag);
 }
 
 pub fn getPackedSize(msg_list: []const Message) usize {
@@ -262,6 +260,9 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 }
 
 fn deinitMessages(allocator: std.mem.Allocator, msg_list: []Message) void {
+    if (comptime std.meta.fields(Message).len == 0) {
+        return;
+    }
     for (msg_list) |*msg| {
         switch (msg.*) {
             inline else => |*inner| {
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index c22e3a0..4b5bf90 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -340,28 +340,38 @@ class ZigWriter(Writer):
             self.write_line(f"{mname}: {mname},")
         self.write_line()
 
-        self.write_line("pub fn getSizeInBytes(self: @This()) usize {")
-        self.indent_level += 1
-        self.write_line("return switch (self) {")
-        self.indent_level += 1
-        for mname in self.protocol.messages:
-            self.write_line(f".{mname} => self.{mname}.getSizeInBytes(),")
-        self.indent_level -= 1
-        self.write_line("};")
-        self.indent_level -= 1
-        self.write_line("}")
-        self.write_line()
+        if len(self.protocol.messages) == 0:
+            # there is nothing to switch on, and Zig does not allow unused parameters
+            self.write_line("pub fn getSizeInBytes(_: @This()) usize {")
+            self.write_line(f"{self.tab}return 0;")
+            self.write_line("}")
+            self.write_line()
+            self.write_line("pub fn writeBytes(_: @This(), _: usize, _: []u8, _: bool) usize {")
+            self.write_line(f"{self.tab}return 0;")
+            self.write_line("}")
+        else:
+            self.write_line("pub fn getSizeInBytes(self: @This()) usize {")
+            self.indent_level += 1
+            self.write_line("return switch (self) {")
+            self.indent_level += 1
+            for mname in self.protocol.messages:
+                self.write_line(f".{mname} => self.{mname}.getSizeInBytes(),")
+            self.indent_level -= 1
+            self.write_line("};")
+            self.indent_level -= 1
+            self.write_line("}")
+            self.write_line()
 
-        self.write_line("pub fn writeBytes(self: @This(), offset: usize, buffer: []u8, tag: bool) usize {")
-        self.indent_level += 1
-        self.write_line("return switch (self) {")
-        self.indent_level += 1
-        for mname in self.protocol.messages:
-            self.write_line(f".{mname} => self.{mname}.writeBytes(offset, buffer, tag),")
-        self.indent_level -= 1
-        self.write_line("};")
-        self.indent_level -= 1
-        self.write_line("}")
+            self.write_line("pub fn writeBytes(self: @This(), offset: usize, buffer: []u8, tag: bool) usize {")
+            self.indent_level += 1
+            self.write_line("return switch (self) {")
+            self.indent_level += 1
+            for mname in self.protocol.messages:
+                self.write_line(f".{mname} => self.{mname}.writeBytes(offset, buffer, tag),")
+            self.indent_level -= 1
+            self.write_line("};")
+            self.indent_level -= 1
+            self.write_line("}")
 
         self.indent_level -= 1
         self.write_line("};")
-- 
2.43.0


From 8d09ef5c6903ec8b6d685dd9e2fa168bc85f78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 46/55] fix: AssemblyScript length checks convert before they
 compare

---
 beschi/writers/boilerplate/AssemblyScript.ts | 2 +-
 beschi/writers/typescript.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 49ce1b0..e92758c 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -113,7 +113,7 @@ export class DataAccess {
     if (this.hasError) {
         return "";
     }
-    if ((len as u64) > ((this.data.byteLength as u32) - this.currentOffset) as u64) {
+    if ((len as u64) > (((this.data.byteLength as u32) - this.currentOffset) as u64)) {
         this.hasError = true;
         return "";
     }
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index a9f0b6e..258f0b6 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -57,7 +57,7 @@ class TypeScriptWriter(Writer):
             else:
                 self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (({var_clean}_Length as u64) > (((da.data.byteLength as u32) - da.currentOffset) / {max(1, self.protocol.get_minimum_size_of(var.vartype))}) as u64) {{")
+                self.write_line(f"if (({var_clean}_Length as u64) > ((((da.data.byteLength as u32) - da.currentOffset) / {max(1, self.protocol.get_minimum_size_of(var.vartype))}) as u64)) {{")
                 self.indent_level += 1
                 self.write_line("da.hasError = true;")
                 self.write_line("return null;")
-- 
2.43.0


From 00536631924208ee7775867cac256be74b2ef97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:16 +0000
Subject: [PATCH 47/55] fix: Zig members named like another member plus _read
 compile

---
 beschi/writers/zig.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 4b5bf90..302f97d 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,28 +50,28 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const read_{accessor}_{var.name} = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
         else:
             if var.is_list:
-                self.write_line(f"const {accessor}_{var.name}_read = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const read_{accessor}_{var.name} = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
                 self.cleanup_on_error(var, f"{accessor}_")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
             elif var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
-                self.write_line(f"const {accessor}_{var.name}_read = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"const read_{accessor}_{var.name} = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
             elif var.vartype == "string":
-                self.write_line(f"const {accessor}_{var.name}_read = try readString(allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const read_{accessor}_{var.name} = try readString(allocator, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
                 self.cleanup_on_error(var, f"{accessor}_")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
-                self.write_line(f"{'const' if var.is_simple() else 'var'} {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const read_{accessor}_{var.name} = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
+                self.write_line(f"{'const' if var.is_simple() else 'var'} {accessor}_{var.name} = read_{accessor}_{var.name}.value;")
                 self.cleanup_on_error(var, f"{accessor}_")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"local_offset += read_{accessor}_{var.name}.bytes_read;")
 
             self.write_line()
 
-- 
2.43.0


From 7d91bf754ce37f2b274b8e90b4f228c91fca9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:16 +0000
Subject: [PATCH 48/55] fix: C# members named el compile

---
 beschi/writers/csharp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index c67a8cf..b65dfe0 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -58,9 +58,9 @@ class CSharpWriter(Writer):
                 self.write_line("}")
                 self.write_line(f"{accessor}{var.name}.Add(({var.vartype})_{var.name});")
             else:
-                inner = Variable(self.protocol, f"{self.type_mapping[var.vartype]} _el", var.vartype)
+                inner = Variable(self.protocol, f"{self.type_mapping[var.vartype]} __el", var.vartype)
                 self.deserializer(inner, "")
-                self.write_line(f"{accessor}{var.name}.Add(_el);")
+                self.write_line(f"{accessor}{var.name}.Add(__el);")
             self.indent_level -= 1
             self.write_line("}")
         elif var.vartype == "string":
@@ -97,10 +97,10 @@ class CSharpWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"bw.Write(({self.get_native_list_size()}){accessor}{var.name}.Count);")
-            self.write_line(f"foreach ({self.type_mapping[var.vartype]} el in {accessor}{var.name})")
+            self.write_line(f"foreach ({self.type_mapping[var.vartype]} __el in {accessor}{var.name})")
             self.write_line("{")
             self.indent_level += 1
-            inner = Variable(self.protocol, "el", var.vartype)
+            inner = Variable(self.protocol, "__el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 47726ad8596b2939038b8beba7e0ae9cc3ec491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 49/55] fix: C and AssemblyScript rejected lists of structs
 without members

---
 beschi/writers/c.py          | 14 ++++++++------
 beschi/writers/typescript.py | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 06fb4a3..a66d29a 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -71,12 +71,14 @@ class CWriter(Writer):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
             self.err_check_return()
-            self.write_line(f"if ((uint64_t){accessor}{var.name}_len > (uint64_t)(r->bufferSize - r->position) / {max(1, self.protocol.get_minimum_size_of(var.vartype))}) {{")
-            self.indent_level += 1
-            self.write_line(f"{accessor}{var.name}_len = 0;")
-            self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
-            self.indent_level -= 1
-            self.write_line("}")
+            minimum_size = self.protocol.get_minimum_size_of(var.vartype)
+            if minimum_size > 0:
+                self.write_line(f"if ((uint64_t){accessor}{var.name}_len > (uint64_t)(r->bufferSize - r->position) / {minimum_size}) {{")
+                self.indent_level += 1
+                self.write_line(f"{accessor}{var.name}_len = 0;")
+                self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+                self.indent_level -= 1
+                self.write_line("}")
             if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                 pref = ""
             else:
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 258f0b6..a0de713 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -57,12 +57,14 @@ class TypeScriptWriter(Writer):
             else:
                 self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (({var_clean}_Length as u64) > ((((da.data.byteLength as u32) - da.currentOffset) / {max(1, self.protocol.get_minimum_size_of(var.vartype))}) as u64)) {{")
-                self.indent_level += 1
-                self.write_line("da.hasError = true;")
-                self.write_line("return null;")
-                self.indent_level -= 1
-                self.write_line("}")
+                minimum_size = self.protocol.get_minimum_size_of(var.vartype)
+                if minimum_size > 0:
+                    self.write_line(f"if (({var_clean}_Length as u64) > ((((da.data.byteLength as u32) - da.currentOffset) / {minimum_size}) as u64)) {{")
+                    self.indent_level += 1
+                    self.write_line("da.hasError = true;")
+                    self.write_line("return null;")
+                    self.indent_level -= 1
+                    self.write_line("}")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length{' as i32' if self.is_assembly_script else ''});")
             idx = self.indent_level
             self.write_line(f"for (let i{idx}: {'i32' if self.is_assembly_script else 'number'} = 0; i{idx} < {var_clean}_Length{' as i32' if self.is_assembly_script else ''}; i{idx}++) {{")
-- 
2.43.0


From e2d4b7166296384d30c6a144b96df6decfb74acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 50/55] fix: Swift strings decode from any part of a buffer and
 reject bad lengths

---
 beschi/writers/boilerplate/Swift.0.swift | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index 1fb74e7..c5969f1 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -136,11 +136,14 @@ class DataReader {
     }
 
     func GetString() throws -> String {
-        let stringLength = try Int(self.Get{# STRING_SIZE_TYPE #}())
-        if (self.data.count < self.currentOffset + stringLength) {
+        let encodedLength = try self.Get{# STRING_SIZE_TYPE #}()
+        guard
+            let stringLength = Int(exactly: encodedLength), stringLength >= 0, stringLength <= self.data.count - self.currentOffset
+        else {
             throw DataReaderError.EOF
         }
-        let stringData = self.data[self.currentOffset..<(self.currentOffset+stringLength)]
+        let stringStart = self.data.startIndex + self.currentOffset
+        let stringData = self.data[stringStart..<(stringStart + stringLength)]
         guard
             let ret = String(data: stringData, encoding: String.Encoding.utf8)
         else {
-- 
2.43.0


From 653eeb7fa8fbe9eac36d82fd571e78fd8d9b25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 51/55] fix: Swift unpacks from any part of a buffer and
 rejects a short header

---
 beschi/writers/boilerplate/Swift.0.swift | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index c5969f1..9ba47ea 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -251,7 +251,10 @@ public class Message {
 
     public static func UnpackMessages(_ data: Data) throws -> [Message] {
         let dataReader = DataReader(fromData: data)
-        let headerBytes = dataReader.data[dataReader.currentOffset..<dataReader.currentOffset+4];
+        if data.count < 4 {
+            throw DataReaderError.EOF
+        }
+        let headerBytes = data[data.startIndex..<(data.startIndex + 4)]
         guard
             let headerLabel = String(data: headerBytes, encoding: String.Encoding.utf8)
         else {
@@ -265,7 +268,7 @@ public class Message {
         if msgCount == 0 {
             return [Message]()
         }
-        let listData = data.subdata(in: dataReader.currentOffset..<dataReader.data.count)
+        let listData = data.subdata(in: (data.startIndex + dataReader.currentOffset)..<data.endIndex)
         let msgList: [Message] = try ProcessRawBytes(listData, max: Int(msgCount))
         if msgList.count == 0 {
             throw DataReaderError.InvalidData
-- 
2.43.0


From 42b8add451e171b34209df5a11e49fa9b0215093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 52/55] fix: Swift rejects negative list lengths

---
 beschi/writers/swift.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 2a505b5..4c8005b 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -43,6 +43,12 @@ class SwiftWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"let {var.name}_Length = try dataReader.Get{self.get_native_list_size()}()")
+            if not self.get_native_list_size().startswith("U"):
+                self.write_line(f"if {var.name}_Length < 0 {{")
+                self.indent_level += 1
+                self.write_line("throw DataReaderError.InvalidData")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}{var.name} = []")
             self.write_line(f"for _ in 0..<{var.name}_Length {{")
             self.indent_level += 1
-- 
2.43.0


From 3d4b60514c647df8c51740256e3e81bbfd23f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 53/55] fix: Swift enum members named like another plus Read
 compile

---
 beschi/writers/swift.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 4c8005b..a2f8bfd 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -70,6 +70,8 @@ class SwiftWriter(Writer):
             self.write_line(f"{accessor}{var.name} = try dataReader.Get{self.type_mapping[var.vartype]}()")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
+            self.write_line("do {")
+            self.indent_level += 1
             self.write_line(f"let _{var.name}Read = try dataReader.Get{self.type_mapping[e.encoding]}()")
             self.write_line(f"guard let _{var.name} = {var.vartype}(rawValue: _{var.name}Read) else {{")
             self.indent_level += 1
@@ -77,6 +79,8 @@ class SwiftWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}{var.name} = _{var.name}")
+            self.indent_level -= 1
+            self.write_line("}")
         else:
             self.write_line(f"{accessor}{var.name} = try {var.vartype}.FromBytes(dataReader: dataReader)")
 
-- 
2.43.0


From 48ff3b52c817b83909b6c540432edf389d603b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 54/55] fix: TypeScript makes no list longer than the data it
 is read from

---
 beschi/writers/typescript.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index a0de713..b7012eb 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -65,7 +65,13 @@ class TypeScriptWriter(Writer):
                     self.write_line("return null;")
                     self.indent_level -= 1
                     self.write_line("}")
-            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length{' as i32' if self.is_assembly_script else ''});")
+            made_length = f"{var_clean}_Length"
+            if self.is_assembly_script:
+                made_length += " as i32"
+            elif self.protocol.get_minimum_size_of(var.vartype) > 0:
+                # no more elements than there can be data for; reading past its end throws
+                made_length = f"Math.min({made_length}, da.data.byteLength)"
+            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({made_length});")
             idx = self.indent_level
             self.write_line(f"for (let i{idx}: {'i32' if self.is_assembly_script else 'number'} = 0; i{idx} < {var_clean}_Length{' as i32' if self.is_assembly_script else ''}; i{idx}++) {{")
             self.indent_level += 1
-- 
2.43.0


From 37f9c9fb683470c5ba11f87867b7666dc9422101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 55/55] fix: Zig rejects a list length past the end of the data
 before allocating

---
 beschi/writers/boilerplate/Zig.zig | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 039ed95..e1de922 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -118,6 +118,12 @@ pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, b
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
     const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
+
+    // anything that isn't empty takes at least a byte
+    if (@sizeOf(T) > 0 and len > buffer.len - local_offset) {
+        return DataReaderError.EOF;
+    }
+
     var list = try allocator.alloc(T, len);
     var made_count: usize = 0;
 
-- 
2.43.0

