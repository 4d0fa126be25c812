From 481af805628e73e7da76a0b9b587f30a1b49c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:51 +0000
Subject: [PATCH 01/26] fix: do not step past the end of the text when the last
 line ends in a word

generate_labels called next_line with *text already at the terminator, so
the label scan kept reading beyond the buffer.
---
 src/context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..b33ec04 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -269,9 +269,12 @@ void context::generate_labels()
         next();
     };
     const auto next_line = [this, advance] {
-        do {
+        while (*text) {
             advance();
-        } while (*text && column > 0);
+            if (column == 0) {
+                break;
+            }
+        }
     };
 
     assert(line == 0 && column == 0);
-- 
2.43.0


From 539a429c1a3634d8b392c1bb5d8e30f276277942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:52 +0000
Subject: [PATCH 02/26] fix: reject a bare "P" instead of swallowing the
 separator after it

The identifier fallback unconditionally consumed one more character, which
merged the following separator into the token and could step over the end
of the text.
---
 src/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index b33ec04..0ef27af 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -109,6 +109,9 @@ token context::tokenize()
             }
         }
         next();
+        if (is_separator(*text)) {
+            fatal_error(token, "expected predicate index");
+        }
 
         bool is_true = false;
         std::optional<int> index;
-- 
2.43.0


From 89bebb89c1a830f782ec88942e8fba4c64048fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:53 +0000
Subject: [PATCH 03/26] fix: reject a bare "R", it is not register zero

---
 src/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index 0ef27af..b569e7c 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -187,6 +187,9 @@ token context::tokenize()
             return token;
         }
         bool invalid_register = false;
+        if (is_separator(*text)) {
+            fatal_error(token, "expected register index");
+        }
         while (!is_separator(*text)) {
             if (!is_decimal(*text)) {
                 invalid_register = true;
-- 
2.43.0


From 9bca1af6920f2d5d8f42ce3c92b3d059697c39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 04/26] fix: uimm_extended has 20 bits, reject 1 << 20

1 << 20 overflowed into the bit after the field.
---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..6468f5a 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -89,7 +89,7 @@ inline error assemble_uint(context& ctx, opcode& op, token& token, int64_t max_s
 DEFINE_OPERAND(uimm_extended)
 {
     uint64_t value;
-    CHECK(convert_integer(token, 0, 1ULL << 20, &value));
+    CHECK(convert_integer(token, 0, max_bits(20), &value));
     if (value >= 0x80000) {
         value -= 0x80000;
         op.add_bits(1ULL << 56);
-- 
2.43.0


From 1c661ebabf1458d8660f769b8d780c5a473d1a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 05/26] fix: terminate the tables of stg::size, ldg::size and
 tex_type

find_in_table reads until a null entry.
---
 src/operand.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 6468f5a..640182e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -686,7 +686,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1207,7 +1207,7 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U", nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1496,7 +1496,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From ae02ffe41c1614c5efc1bcaa3bef4c282af5501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:03 +0000
Subject: [PATCH 06/26] fix: .num_gprs takes an immediate

The check was inverted.
---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..7208d9f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,7 +42,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From 44e99eb4fd0aef23a491ea2c127db8bd68a0eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:03 +0000
Subject: [PATCH 07/26] fix: reject a negation combined with .PO instead of
 aborting

.PO sets the same bits as the negation modifiers, so "IADD.PO R0, -R1, R2"
hit the assert in opcode::add_bits.
---
 src/operand.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 640182e..a4dd2e8 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -71,6 +71,9 @@ inline error assemble_cc_tests(context& ctx, opcode& op, token& token, const cha
 inline error assemble_flag(context& ctx, opcode& op, token& token, const char* flag, int address)
 {
     if (equal(token, flag)) {
+        if (op.value & (1ULL << address)) {
+            return fail(token, "modifier conflicts with a previous modifier");
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
@@ -338,6 +341,9 @@ template <int address>
 DEFINE_OPERAND(neg)
 {
     if (token.type == token_type::minus) {
+        if (op.value & (1ULL << address)) {
+            return fail(token, "modifier conflicts with a previous modifier");
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
@@ -348,6 +354,9 @@ template <int address>
 DEFINE_OPERAND(tilde)
 {
     if (token.type == token_type::tilde) {
+        if (op.value & (1ULL << address)) {
+            return fail(token, "modifier conflicts with a previous modifier");
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
-- 
2.43.0


From d2e9ebe679d5eac53ae476d9627d03c59c008cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:04 +0000
Subject: [PATCH 08/26] fix: a lone "." is not the name of an unassigned table
 entry

---
 src/helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index ebb0110..cd50915 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -80,7 +80,8 @@ std::optional<uint64_t> find_in_table(const token& token, const char* const* tab
     }
 
     for (size_t i = 0; table[i]; ++i) {
-        if (text.compare(table[i]) != 0) {
+        // empty entries are placeholders of unassigned values
+        if (!*table[i] || text.compare(table[i]) != 0) {
             continue;
         }
         return static_cast<uint64_t>(i);
-- 
2.43.0


From 44db333fe667982be3ce61404f6e61bdb365d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:05 +0000
Subject: [PATCH 09/26] fix: reject integers that are not representable as
 float

The comparison converted the integer to float again, so it never failed.
---
 src/helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index cd50915..6654ffe 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -155,8 +155,8 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
-        if (static_cast<int64_t>(token.data.immediate) != value) {
-            return fail(token, "integer immediate " PRId64 "cannot be represented as float",
+        if (value >= 0x1p63f || static_cast<int64_t>(value) != token.data.immediate) {
+            return fail(token, "integer immediate %" PRId64 " cannot be represented as float",
                         token.data.immediate);
         }
         break;
-- 
2.43.0


From 8eac1e83302a1c2b45d85f4046636f5c0c830abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:24 +0000
Subject: [PATCH 10/26] fix: keep the sign of -0.0 in double and half
 immediates

---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 6654ffe..73c2525 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -1,3 +1,4 @@
+#include <bit>
 #include <cinttypes>
 #include <cstdint>
 #include <cstdlib>
@@ -208,7 +209,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     switch (token.type) {
     case token_type::float_immediate:
         value = token.data.float_immediate;
-        if (value < 0) {
+        if (std::bit_cast<int64_t>(value) < 0) {
             op.add_bits(1ULL << 56);
         }
         break;
@@ -256,7 +257,7 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     switch (token.type) {
     case token_type::float_immediate:
         value = fp32_to_fp16(token.data.float_immediate);
-        if (token.data.float_immediate < 0 && neg_bit >= 0) {
+        if (std::bit_cast<int64_t>(token.data.float_immediate) < 0 && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
-- 
2.43.0


From 31cf87b4cf2c8b9e6b6ef5fe8f4cc5134cb9db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:28 +0000
Subject: [PATCH 11/26] fix: no signed overflow for absurd immediate branch
 targets

---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index a4dd2e8..99003b0 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -138,6 +138,9 @@ DEFINE_OPERAND(label)
     }
     case token_type::immediate:
         absolute = token.data.immediate;
+        if (absolute > INT32_MAX || absolute < INT32_MIN) {
+            return fail(token, "label out of range");
+        }
         break;
     default:
         return fail(token, "expected label");
-- 
2.43.0


From 7304fbc5dfd207888e42249bbbf476d7b15f1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:29 +0000
Subject: [PATCH 12/26] fix: the padded dksh code section has to match code_sz

A whole extra 256 byte block was appended when the code was already aligned.
---
 src/write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.cpp b/src/write.cpp
index aaeedb6..3472b34 100644
--- a/src/write.cpp
+++ b/src/write.cpp
@@ -22,7 +22,7 @@ std::vector<uint64_t> context::binary(std::span<const uint64_t> code) const
     }
     result.insert(result.end(), code.begin(), code.end());
     if (is_dksh) {
-        result.resize(result.size() + 32 - code.size() % 32);
+        result.resize((result.size() + 31) / 32 * 32);
     }
     return result;
 }
-- 
2.43.0


From 94f358899363df3a546f7d3eeb78d71d506e595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:30 +0000
Subject: [PATCH 13/26] fix: null format string when the input file cannot be
 opened

---
 src/command_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..3fb97ee 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,7 +11,7 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
     }
     file.seekg(0, std::ios::end);
     std::string text(file.tellg(), ' ');
-- 
2.43.0


From 7cc0f74e7e4474ed029592f1add2dd3bc261a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:31 +0000
Subject: [PATCH 14/26] fix: report a failed write of the output file

Streams do not throw by default, so an incomplete output exited with success.
---
 src/command_line.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 3fb97ee..a3467c7 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -58,6 +58,10 @@ int main(int argc, char** argv)
             fatal_error("%s: failed to open", output_file);
         }
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
+        if (outfp.fail()) {
+            fatal_error("%s: failed to write", output_file);
+        }
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From 975edecfda94461597a601bc87b7c51ca8c087fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:35 +0000
Subject: [PATCH 15/26] fix: ICMP with a constant buffer as second operand is
 0x4B40

It shared the opcode of the form with the constant buffer as third operand.
---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index cb6eff2..3de7502 100644
--- a/src/table.h
+++ b/src/table.h
@@ -179,7 +179,7 @@ const insn table[]{
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
     INSN(0x5B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<20>, comma, sgpr<39>),
     INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<39>, comma, cbuf),
-    INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
+    INSN(0x4B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
     INSN(0x3640000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, imm,      comma, sgpr<39>),
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
-- 
2.43.0


From 22a1fc30951814b8cca8d6d8ef8f7b573281d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:38 +0000
Subject: [PATCH 16/26] fix: SUST.D.BA sets bit 23, as in SULD

Bit 52 is the .D bit, so .BA aborted in opcode::add_bits.
---
 src/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 3de7502..de18855 100644
--- a/src/table.h
+++ b/src/table.h
@@ -254,8 +254,8 @@ const insn table[]{
     INSN(0x3890000000000000ULL, 0, "RRO", rro::mode, dgpr<0>, comma, fimm, post_neg<45>, post_abs<49>),
     INSN(0xEB20000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
     INSN(0xEB28000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
-    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
-    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
+    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
+    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
-- 
2.43.0


From e36881157ede25d6c5980ef2e6367b2760585858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 17/26] fix: reject misaligned ATOMS offsets instead of
 truncating them

---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 99003b0..ced6494 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -441,6 +441,9 @@ namespace memory
 
                 uint64_t value;
                 CHECK(convert_integer(token, min, max, &value));
+                if (value & max_bits(shr)) {
+                    return fail(token, "offset has to be aligned to %d bytes", 1 << shr);
+                }
                 value >>= shr;
                 op.add_bits((value & max_bits(size)) << addr);
                 token = ctx.tokenize();
-- 
2.43.0


From da9331b7b27e9d3bf8caf98f9a93be701c297809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 18/26] fix: do not print the string of tokens that have none

The diagnostics of S2R and .type read the inactive member of the token
union when given something other than an identifier.
---
 src/operand.h   | 3 ++-
 src/options.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index ced6494..a75014c 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1202,8 +1202,9 @@ DEFINE_OPERAND(s2r)
     } else {
         value = find_in_table(token, table, "");
         if (!value) {
+            const std::string_view tkninfo = info(token);
             return fail(token, "invalid system register \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(tkninfo.size()), tkninfo.data());
         }
         token = ctx.tokenize();
     }
diff --git a/src/options.cpp b/src/options.cpp
index 7208d9f..f8d3e3e 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -31,8 +31,9 @@ void context::parse_option(token& token)
         } else if (equal(token, "compute")) {
             type = program_type::compute;
         } else {
+            const std::string_view tkninfo = info(token);
             fatal_error(token, "invalid program type \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(tkninfo.size()), tkninfo.data());
         }
     };
     if (equal(token, ".dksh")) {
-- 
2.43.0


From eae0bba12d78364469a1b8b2aed13265d80ea386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:38 +0000
Subject: [PATCH 19/26] fix: print out of range integers with their own type

---
 src/helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 73c2525..75ae85a 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -56,7 +56,7 @@ error convert_integer(const token& token, int64_t min, int64_t max, uint64_t* re
     int64_t value = token.data.immediate;
     if (value < min || value > max) {
         return fail(token,
-                    "integer \33[1m%d\33[0m is out of range, expected to be "
+                    "integer \33[1m%" PRId64 "\33[0m is out of range, expected to be "
                     "from %" PRId64 " to %" PRId64 " inclusively",
                     value, min, max);
     }
-- 
2.43.0


From a309f02694b8258710b4988f08be2922a4e1dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:39 +0000
Subject: [PATCH 20/26] fix: reject integer literals that do not fit in 64 bits

strtoll saturates, the literal was silently replaced.
---
 src/context.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index b569e7c..410e63f 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -164,7 +165,12 @@ token context::tokenize()
             token.data.float_immediate = std::strtof(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
+            errno = 0;
             token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            if (errno == ERANGE) {
+                fatal_error(token, "integer literal \33[1;31m%.*s\33[0m is out of range",
+                            (int)(text - contents), contents);
+            }
         }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
-- 
2.43.0


From 74781388e912abf1905c503ffd72a7cb5778f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:40 +0000
Subject: [PATCH 21/26] fix: reject directive values that do not fit

They were truncated to int, and the scratch size computed from
.local_memory could overflow.
---
 src/options.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index f8d3e3e..93d0b62 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,3 +1,5 @@
+#include <climits>
+
 #include "context.h"
 #include "error.h"
 #include "helper.h"
@@ -36,6 +38,11 @@ void context::parse_option(token& token)
                         static_cast<int>(tkninfo.size()), tkninfo.data());
         }
     };
+    const auto check_range = [&token](int64_t max) {
+        if (token.data.immediate < 0 || token.data.immediate > max) {
+            fatal_error(token, "option value is out of range");
+        }
+    };
     if (equal(token, ".dksh")) {
         is_dksh = true;
         parse_type();
@@ -46,6 +53,7 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
+        check_range(INT_MAX);
         num_gprs = static_cast<int>(token.data.immediate);
         check_option_line();
     } else if (equal(token, ".workgroup_size")) {
@@ -54,6 +62,7 @@ void context::parse_option(token& token)
             if (token.type != token_type::immediate) {
                 fatal_error(token, "expected workgroup sizes");
             }
+            check_range(INT_MAX);
             block_dimensions[i] = static_cast<int>(token.data.immediate);
         }
         check_option_line();
@@ -62,12 +71,14 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected shared memory size");
         }
+        check_range(INT_MAX);
         shared_mem_size = static_cast<int>(token.data.immediate);
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
+        check_range(0xFFFFFF);
         local_mem_size = static_cast<int>(token.data.immediate);
     }
     token = tokenize();
-- 
2.43.0


From 0ee62d8537e2f7098d9838e57c54720d7b6c6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:21 +0000
Subject: [PATCH 22/26] fix: memory size directives take their value from their
 own line

---
 src/options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index 93d0b62..ba13ee4 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -73,6 +73,7 @@ void context::parse_option(token& token)
         }
         check_range(INT_MAX);
         shared_mem_size = static_cast<int>(token.data.immediate);
+        check_option_line();
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
@@ -80,6 +81,7 @@ void context::parse_option(token& token)
         }
         check_range(0xFFFFFF);
         local_mem_size = static_cast<int>(token.data.immediate);
+        check_option_line();
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From 7256ac1819f5ab50d202d6b481ee4024dd42b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:43 +0000
Subject: [PATCH 23/26] fix: reject byte selectors that overlap a 32-bit video
 source format

"VMAD.S32.S32 R1, R2.B2, R3, R4" hit the assert in opcode::add_bits: the high bit of
a byte selector is the low bit of the format, which is only free for 8-bit sources.
---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index a75014c..ac3baa3 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1458,6 +1458,9 @@ namespace video
         const char* const* const table = type == 2 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
+            if (op.value & (*result << address)) {
+                return fail(token, "selector conflicts with the source format");
+            }
             token = ctx.tokenize();
         }
         op.add_bits(result.value_or(0) << address);
-- 
2.43.0


From 58651ab016646ac7b2eff8518cc2fb3e5cec87ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:23 +0000
Subject: [PATCH 24/26] fix: the diagnostic for a stray '!' is one line

---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 410e63f..0c5141d 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -106,7 +106,7 @@ token context::tokenize()
         if ((token.data.predicate.negated = *text == '!')) {
             next();
             if (!is_contained("Pp", *text)) {
-                fatal_error(token, "fatal: invalid usage of '!'\n");
+                fatal_error(token, "fatal: invalid usage of '!'");
             }
         }
         next();
-- 
2.43.0


From 7453f69a4bd63dec1687c119936d61fb4911dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:27 +0000
Subject: [PATCH 25/26] fix: skip labels without recursion, a long run of them
 exhausted the stack

---
 src/context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 0c5141d..b7bd3c1 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -80,6 +80,7 @@ context::~context() = default;
 
 token context::tokenize()
 {
+restart:
     while (is_contained(" \t\r\n", *text)) {
         next();
     }
@@ -227,8 +228,8 @@ token context::tokenize()
     } while (!is_separator(*text));
 
     if (text[-1] == ':') {
-        // ignore labels
-        return tokenize();
+        // ignore labels, without recursion: there can be any number of them in a row
+        goto restart;
     }
     token.type = token_type::identifier;
     token.data.string = std::string_view(contents, static_cast<size_t>(text - contents));
-- 
2.43.0


From 011a87cf440a16d58e6322d5084f6911192e73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:11 +0000
Subject: [PATCH 26/26] fix: report an input that cannot be read (a directory,
 a pipe) instead of aborting

The size of the input came from tellg, which is -1 for a pipe and the largest
off_t for a directory: the string constructor threw. Read in blocks to the end.
---
 src/command_line.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index a3467c7..f741559 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -13,11 +13,15 @@ static std::string read_file(const char* filename)
     if (!file.is_open()) {
         fatal_error("%s: failed to open", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
+    std::string text;
+    char buffer[4096];
+    do {
+        file.read(buffer, sizeof(buffer));
+        text.append(buffer, static_cast<size_t>(file.gcount()));
+    } while (file);
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
+    }
     return text;
 }
 
-- 
2.43.0

