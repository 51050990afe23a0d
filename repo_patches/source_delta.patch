From a6b1f4d26e5e4b88647258b98abcf9f3322f31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 001/119] fix: reject overlong, surrogate and out of range
 UTF-8 sequences

---
 src/utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1c55548..7197d51 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -58,6 +58,13 @@ bool is_valid_uf8_character(std::string_view input, size_t cur, const UtfDecodeS
         unpacked |= subsequent & subsequent_data_mask;
     }
 
+    const uint32_t smallest_valid[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_valid[par.num_subsequent_bytes] || unpacked > 0x10FFFF) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From aeea33acbf9e38153de01a56f9e417684735463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 002/119] fix: escape ampersands in XML correctly

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 7197d51..fbf9373 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -459,7 +459,7 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
             result += "&gt;";
             break;
         case '&':
-            result += "&quot;";
+            result += "&amp;";
             break;
         default:
             result += c;
-- 
2.43.0


From 212b7d78338e875cd89bbac097441a32e4c15464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 003/119] fix: separate boolean tokens from the token that
 follows

---
 src/objectformatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6443a75..b9c6181 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -98,6 +98,7 @@ void ObjectFormatter::add_token(uint64_t number) {
 void ObjectFormatter::add_token(bool value) {
     check_indent();
     buf += value ? "true" : "false";
+    added_item();
 }
 
 void ObjectFormatter::add_token_with_slash(const char *name) {
-- 
2.43.0


From 7890b354f20a7e25937f5dbc3731884756150483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 004/119] fix: quote special characters in ASCII PDF strings

---
 src/objectformatter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index b9c6181..e62451b 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -164,9 +164,8 @@ void ObjectFormatter::check_indent() {
 }
 
 void ObjectFormatter::add_pdfstring(const asciistring &str) {
-    // FIXME: add quoting for special characters.
     check_indent();
-    std::format_to(app, "({})", str.c_str());
+    buf += pdfstring_quote(str.sv());
     added_item();
 }
 
-- 
2.43.0


From e3e1ced43e7e7ec6b0533daa8d17be0f8838e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 005/119] fix: do not count byte strings as two items

---
 src/objectformatter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index e62451b..6b8d769 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -172,7 +172,6 @@ void ObjectFormatter::add_pdfstring(const asciistring &str) {
 void ObjectFormatter::add_bytestring(const std::string_view str) {
     auto quoted = pdfstring_quote(str);
     add_token(quoted);
-    added_item();
 }
 
 void ObjectFormatter::add_utf8_string(const u8string &ustr) {
-- 
2.43.0


From 029994701469c51c7566c964bf6f1b816cb9900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 006/119] fix: write all coordinates of a box

---
 src/objectformatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6b8d769..6f2a1d0 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -148,7 +148,7 @@ void ObjectFormatter::write_raw_box(const PdfBox &box, bool write_brackets) {
     if(write_brackets) {
         begin_array();
     }
-    add_token(box.w);
+    add_token(box.x);
     add_token(box.y);
     add_token(box.w);
     add_token(box.h);
-- 
2.43.0


From 5cf4849bebe5e0feee5379f2caee93ff31dcad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 007/119] fix: quote keys and values of marked content property
 lists

---
 src/commandstreamformatter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 86462b1..3942984 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -2,6 +2,7 @@
 // Copyright 2025 Jussi Pakkanen
 
 #include <commandstreamformatter.hpp>
+#include <utils.hpp>
 #include <format>
 #include <cassert>
 
@@ -62,10 +63,10 @@ void CommandStreamFormatter::append_dict_entry(std::string_view key, int32_t val
 
 void CommandStreamFormatter::append_dict_entry_string(const char *key, const char *value) {
     if(key[0] == '/') {
-        std::format_to(appender, "{}{} ({})\n", lead, key, value);
-    } else {
-        std::format_to(appender, "{}/{} ({})\n", lead, key, value);
+        ++key;
     }
+    std::format_to(
+        appender, "{}{} {}\n", lead, bytes2pdfstringliteral(key, true), pdfstring_quote(value));
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
-- 
2.43.0


From f3228db5ce0727e9eac12347dc728039afa31d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 008/119] fix: escape carriage returns in literal strings

---
 src/utils.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index fbf9373..9f5ecce 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -278,6 +278,10 @@ std::string pdfstring_quote(std::string_view raw_string) {
     result.push_back('(');
     for(const char c : raw_string) {
         switch(c) {
+        case '\r':
+            // A bare carriage return would be read back as a newline.
+            result += "\\r";
+            continue;
         case '(':
         case ')':
         case '\\':
@@ -304,6 +308,9 @@ std::string u8str2u8textstring(std::string_view u8string) {
     result.push_back(char(191));
     for(const char c : u8string) {
         switch(c) {
+        case '\r':
+            result += "\\r";
+            continue;
         case '(':
         case ')':
         case '\\':
@@ -328,6 +335,9 @@ std::string u8str2filespec(const u8string &str) {
     result.push_back(char(191));
     for(const char c : str.sv()) {
         switch(c) {
+        case '\r':
+            result += "\\r";
+            continue;
         case '(':
         case ')':
         case '\\':
-- 
2.43.0


From 6501940480fd7eff6e13b609b7fa7e791b8da307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 009/119] fix: write escaped slashes in file specifications
 only once

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 9f5ecce..3cd7ef8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -345,7 +345,7 @@ std::string u8str2filespec(const u8string &str) {
             break;
         case '/':
             result += escaped_slash;
-            break;
+            continue;
         default:
             break;
         }
-- 
2.43.0


From eaad1c6ba2aba0cfd78a9f2384cbc1031bae35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 010/119] fix: quote all delimiter characters in names

---
 src/utils.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3cd7ef8..dbf392d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -84,10 +84,7 @@ bool needs_quoting(const unsigned char c) {
     if(c < '!' || c > '~') {
         return true;
     }
-    if(c == '#' || c == '(' || c == ')' || c == ' ' || c == '/') {
-        return true;
-    }
-    return false;
+    return std::string_view{"#()<>[]{}/%"}.find(c) != std::string_view::npos;
 }
 
 template<typename T> rvoe<T> do_file_load(FILE *f) {
@@ -356,21 +353,7 @@ std::string u8str2filespec(const u8string &str) {
 }
 
 std::string pdfname_quote(std::string_view raw_string) {
-    std::string result;
-    result.reserve(raw_string.size() + 10);
-    for(const char c : raw_string) {
-        switch(c) {
-        case '/':
-            result += "#2F";
-            break;
-        case '#':
-            result += "#23";
-            break;
-        default:
-            result += c;
-        }
-    }
-    return result;
+    return bytes2pdfstringliteral(raw_string, false);
 }
 
 bool is_ascii(std::string_view text) {
-- 
2.43.0


From a6ab25aadc4440f9897c5342dfd7f5b525a18a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 011/119] fix: do not swap the width and height of rectangles

---
 src/pdfcommon.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index 0e0473e..dd4a836 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -221,8 +221,8 @@ struct PdfRectangle {
 
     static rvoe<PdfRectangle> construct(double l, double b, double r, double t);
 
-    double w() const { return y2 - y1; }
-    double h() const { return x2 - x1; }
+    double w() const { return x2 - x1; }
+    double h() const { return y2 - y1; }
 };
 
 // In PDF only 6 of the 9 values are stored.
-- 
2.43.0


From 79aea82c0b36fea4745e58875fda2e27ad5d12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 012/119] fix: use the spot function names of the PDF
 specification

---
 src/document.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index d236ff2..06a84e3 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -37,22 +37,22 @@ const std::array<const char, 5> page_label_types{
 
 const std::array<const char *, 21> spot_function_names{
     "/SimpleDot",
-    "/Inverted_SimpleDot",
+    "/InvertedSimpleDot",
     "/DoubleDot",
-    "/Inverted_DoubleDot",
+    "/InvertedDoubleDot",
     "/CosineDot",
     "/Double",
-    "/Inverted_Double",
+    "/InvertedDouble",
     "/Line",
     "/LineX",
     "/LineY",
     "/Round",
     "/Ellipse",
     "/EllipseA",
-    "/Inverted_EllipseA",
+    "/InvertedEllipseA",
     "/EllipseB",
     "/EllipseC",
-    "/Inverted_EllipseC",
+    "/InvertedEllipseC",
     "/Square",
     "/Cross",
     "/Rhomboid",
-- 
2.43.0


From 09613d46a7e905dae5c423c6f8ad3ded0528ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 013/119] fix: use the standard names of the bold Times and
 Courier fonts

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 06a84e3..e24bb35 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -95,7 +95,7 @@ const std::array<const char *, 14> font_names{
     "/Helvetica",
     "/Courier",
     "/Symbol",
-    "/Times-Roman-Bold",
+    "/Times-Bold",
     "/Helvetica-Bold",
     "/Courier-Bold",
     "/ZapfDingbats",
-- 
2.43.0


From 122fd0eb1f3daba27362d7b36d5cc98bbd0a85d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 014/119] fix: write page label styles as names

---
 src/document.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e24bb35..f7c342b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -27,12 +27,12 @@ const std::array<const char *, 3> colorspace_names{
     "/DeviceCMYK",
 };
 
-const std::array<const char, 5> page_label_types{
-    'D', // Decimal
-    'R', // Roman Upper
-    'r', // Roman Lower
-    'A', // Letter Upper
-    'a', // Letter Lower
+const std::array<const char *, 5> page_label_types{
+    "/D", // Decimal
+    "/R", // Roman Upper
+    "/r", // Roman Lower
+    "/A", // Letter Upper
+    "/a", // Letter Lower
 };
 
 const std::array<const char *, 21> spot_function_names{
-- 
2.43.0


From 785720b5c229b21d9b3d3db52192eee540dbb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 015/119] fix: write NeedAppearances in the interactive form
 dictionary

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index f7c342b..0d89bd5 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1080,8 +1080,8 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             }
         }
         fmt.end_array();
-        fmt.end_dict();
         fmt.add_token_pair("/NeedAppearances", "true");
+        fmt.end_dict();
     }
     if(!ocg_items.empty()) {
         fmt.add_token("/OCProperties");
-- 
2.43.0


From f05f63453dc2579029c869afd516470d4e350d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 016/119] fix: write the type of output intents as a name

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 0d89bd5..3740c51 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1154,7 +1154,7 @@ void PdfDocument::create_output_intent() {
     const char *gts =
         std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) ? "/GTS_PDFX" : "/GTS_PDFA1";
     fmt.begin_dict();
-    fmt.add_token_pair("/Type", "OutputIntent");
+    fmt.add_token_pair("/Type", "/OutputIntent");
     fmt.add_token_pair("/S", gts);
     fmt.add_token("/OutputConditionIdentifier");
     fmt.add_token(utf8_to_pdfutf16be(docprops.intent_condition_identifier));
-- 
2.43.0


From d69bd4c924111ba6b6ad3cc4a4f683887b55d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 017/119] fix: write the structure parent tree as a reference

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 3740c51..50775f5 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1269,7 +1269,8 @@ void PdfDocument::create_structure_root_dict() {
     fmt.begin_array();
     fmt.add_object_ref(structure_items[rootobj->id].obj_id);
     fmt.end_array();
-    fmt.add_token_pair("/ParentTree", structure_parent_tree_object.value());
+    fmt.add_token("/ParentTree");
+    fmt.add_object_ref(structure_parent_tree_object.value());
     fmt.add_token_pair("/ParentTreeNextKey", structure_parent_tree_items.size());
     if(!rolemap.empty()) {
         fmt.add_token("/RoleMap");
-- 
2.43.0


From 188df516b59c2d18bffe18c429f2ee375e6221e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 018/119] fix: write role map values as names

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 50775f5..9437d9d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1276,7 +1276,8 @@ void PdfDocument::create_structure_root_dict() {
         fmt.add_token("/RoleMap");
         fmt.begin_dict();
         for(const auto &i : rolemap) {
-            fmt.add_token_pair(bytes2pdfstringliteral(i.name), structure_type_names.at(i.builtin));
+            fmt.add_token(bytes2pdfstringliteral(i.name));
+            fmt.add_token_with_slash(structure_type_names.at(i.builtin));
         }
         fmt.end_dict();
     }
-- 
2.43.0


From 73228f4435568cfc4da0a89e6404a65ba394b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 019/119] fix: list all root items in the structure tree root

---
 src/document.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 9437d9d..854cb25 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1247,27 +1247,21 @@ rvoe<int32_t> PdfDocument::create_outlines() {
 }
 
 void PdfDocument::create_structure_root_dict() {
-    std::optional<CapyPDF_StructureItemId> rootobj;
-
     if(!structure_parent_tree_object) {
         fprintf(stderr, "Internal error!\n");
         std::abort();
     }
-    for(int32_t i = 0; i < (int32_t)structure_items.size(); ++i) {
-        if(!structure_items[i].parent) {
-            rootobj = CapyPDF_StructureItemId{i};
-            break;
-        }
-        // FIXME, check that there is only one.
-    }
-    assert(rootobj);
     // /ParentTree
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/StructTreeRoot");
     fmt.add_token("/K");
     fmt.begin_array();
-    fmt.add_object_ref(structure_items[rootobj->id].obj_id);
+    for(const auto &item : structure_items) {
+        if(!item.parent) {
+            fmt.add_object_ref(item.obj_id);
+        }
+    }
     fmt.end_array();
     fmt.add_token("/ParentTree");
     fmt.add_object_ref(structure_parent_tree_object.value());
-- 
2.43.0


From b437946286531b01402bbf4bd6b2a070c4ca3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 020/119] fix: add the missing collection field subtypes

---
 src/document.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 854cb25..7657493 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -150,7 +150,10 @@ const std::array<const char *, 3> blackpt_names{
     "/DEFAULT",
 };
 
-const std::array<const char *, 6> collection_view_subtype_names{
+const std::array<const char *, 9> collection_view_subtype_names{
+    "/S",
+    "/D",
+    "/N",
     "/F",
     "/Desc",
     "/ModDate",
-- 
2.43.0


From cbe5a848c5252782ac2d4907dd8e60f2fc098933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 021/119] fix: use the correct key for nonstroking overprint

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 7657493..850fb9d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1688,7 +1688,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
     }
     if(state.op) {
-        fmt.add_token_pair("/op2", *state.op ? "true" : "false");
+        fmt.add_token_pair("/op", *state.op ? "true" : "false");
     }
     if(state.OPM) {
         fmt.add_token_pair("/OPM", *state.OPM);
-- 
2.43.0


From efff5acc8b43437958aa45b8ade7d4b00793063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 022/119] fix: use the correct key for the alpha source flag

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 850fb9d..6a62795 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1731,7 +1731,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ca", state.ca->v());
     }
     if(state.AIS) {
-        fmt.add_token_pair("/AIS {}", *state.AIS ? "true" : "false");
+        fmt.add_token_pair("/AIS", *state.AIS ? "true" : "false");
     }
     if(state.TK) {
         fmt.add_token_pair("/TK", *state.TK ? "true" : "false");
-- 
2.43.0


From f6275e2141ba479f02b0616cae514d9e7542f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 023/119] fix: do not write the length of mesh shading streams
 twice

---
 src/document.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 6a62795..ca57b24 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1946,7 +1946,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType4 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
@@ -1982,7 +1981,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType6 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
-- 
2.43.0


From 360e5105eb4648c73dd80144ad90d50b94aff288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 024/119] fix: write the subtype of embedded files as a name

---
 src/document.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index ca57b24..b7b60cc 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2082,8 +2082,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/EmbeddedFile");
         if(!ef.subtype.empty()) {
-            auto quoted = pdfname_quote(ef.subtype.sv());
-            fmt.add_token_pair("/Subtype", quoted);
+            fmt.add_token_pair("/Subtype", bytes2pdfstringliteral(ef.subtype.sv()));
         }
         fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::move(ef.contents))});
     }
-- 
2.43.0


From 462356363c09211f0aec8d56480abfc782a33cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 025/119] fix: write the names of embedded files as text
 strings

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index b7b60cc..f1c801d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2091,7 +2091,8 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         ObjectFormatter fmt;
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Filespec");
-        fmt.add_token_pair("/F", pdfstring_quote(ef.pdfname.sv()));
+        fmt.add_token_pair("/F", u8str2filespec(ef.pdfname));
+        fmt.add_token_pair("/UF", u8str2filespec(ef.pdfname));
         fmt.add_token("/EF");
         fmt.begin_dict();
         fmt.add_token("/F");
-- 
2.43.0


From 5157dc2498e77416d5690a8f0c2836322f40a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 026/119] fix: check the parents of outlines and form fields

---
 src/document.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index f1c801d..80d450e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2055,6 +2055,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
     if(o.title.empty()) {
         RETERR(EmptyTitle);
     }
+    if(o.parent) {
+        CHECK_INDEXNESS_V(o.parent->id, outlines.items);
+    }
     const auto cur_id = (int32_t)outlines.items.size();
     const auto par_id = o.parent.value_or(CapyPDF_OutlineId{-1}).id;
     outlines.parent[cur_id] = par_id;
@@ -2064,6 +2067,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
 }
 
 rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+    if(field.parent) {
+        CHECK_INDEXNESS_V(field.parent->id, form_fields);
+    }
     auto field_id = (int32_t)form_fields.size();
     auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
     form_fields.push_back((int32_t)obj_id);
-- 
2.43.0


From 79d8bd97135ce24f5dc8a37c188d3d85e58fe769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 027/119] fix: return an error for destinations without a
 location

---
 src/document.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 80d450e..5faded2 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -520,7 +520,7 @@ serialize_destination(ObjectFormatter &fmt, const Destination &dest, int32_t pag
         fmt.add_token(r->top);
     } else {
         fprintf(stderr, "No link target specified.\n");
-        std::abort();
+        RETERR(InvalidPageNumber);
     }
     fmt.end_array();
     RETOK;
@@ -1186,7 +1186,7 @@ rvoe<int32_t> PdfDocument::create_outlines() {
                 RETERR(InvalidPageNumber);
             }
             const auto page_object_number = pages.at(physical_page).page_obj_num;
-            serialize_destination(fmt, dest, page_object_number);
+            ERCV(serialize_destination(fmt, dest, page_object_number));
         }
         if(siblings.size() > 1) {
             auto loc = std::find(siblings.begin(), siblings.end(), cur_id);
-- 
2.43.0


From e2c3a81ea503dc22dfea96deef2968f8e856b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 028/119] fix: only accept transparency groups of the same
 document

---
 src/document.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 5faded2..fc15c0a 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2162,6 +2162,9 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
 }
 
 rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != this) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_TRANSPARENCY_GROUP) {
         RETERR(InvalidDrawContextType);
     }
-- 
2.43.0


From 286199984fd0735b63213e71fd80d55668a6d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 029/119] fix: use the PDF version that the PDF/A subtype
 requires

---
 src/document.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index fc15c0a..94224c4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -460,6 +460,10 @@ PdfVersion DocumentProperties::version() const {
         if(*pdfa >= CAPY_PDFA_4f) {
             return PdfVersion::v20;
         }
+        if(*pdfa <= CAPY_PDFA_1b) {
+            return PdfVersion::v14;
+        }
+        return PdfVersion::v17;
     }
     if(auto *pdfx = std::get_if<CapyPDF_PDFX_Type>(&subtype)) {
         switch(*pdfx) {
-- 
2.43.0


From ee4e12cf9e52c6545b866bfd58e88a7b7248281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 030/119] fix: return errors for unsupported mesh shadings
 instead of aborting

---
 src/document.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 94224c4..090b757 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -211,8 +211,7 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
             ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
             ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
         } else {
-            fprintf(stderr, "Color space not supported yet.");
-            std::abort();
+            RETERR(ColorspaceMismatch);
         }
     }
     return rvoe<std::string>{std::move(s)};
@@ -223,7 +222,7 @@ rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
     for(const auto &eh : shade.elements) {
         if(!std::holds_alternative<FullCoonsPatch>(eh)) {
             fprintf(stderr, "Continuation patches not yet supported.\n");
-            std::abort();
+            RETERR(UnsupportedFormat);
         }
         const auto &e = std::get<FullCoonsPatch>(eh);
         char flag = 0; //(char)e.flag;
-- 
2.43.0


From 31f629c35d4f82e8f28012f6598acc034c70fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 031/119] fix: return an error for functions of unsupported
 colours

---
 src/document.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 090b757..e3461bb 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1752,6 +1752,11 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
     if(func.C0.index() != func.C1.index()) {
         RETERR(ColorspaceMismatch);
     }
+    if(!std::holds_alternative<DeviceRGBColor>(func.C0) &&
+       !std::holds_alternative<DeviceGrayColor>(func.C0) &&
+       !std::holds_alternative<DeviceCMYKColor>(func.C0)) {
+        RETERR(ColorspaceMismatch);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/FunctionType", functiontype);
-- 
2.43.0


From eddb297f37fe460b275c66ecc88074f49b290ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 032/119] fix: use a temporary file that belongs to only one
 destination file

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a384b57..124fc30 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -229,7 +229,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
     }
     doc.write_attempted = true;
     std::filesystem::path tempfname(ofilename);
-    tempfname.replace_extension(".pdf~");
+    tempfname += "~";
     FILE *out_file = fopen(tempfname.string().c_str(), "wb");
     if(!out_file) {
         perror(nullptr);
-- 
2.43.0


From f88b31ca29c2a152b2b64044a0451e2ba59870ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 033/119] fix: use the key of the PDF specification for
 viewport bounding boxes

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 124fc30..71c0fc4 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -189,7 +189,7 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Viewport");
         if(vp.bbox) {
-            fmt.write_rectangle("bbox", vp.bbox.value());
+            fmt.write_rectangle("BBox", vp.bbox.value());
         }
         if(!vp.name.empty()) {
             fmt.add_token("/Name");
-- 
2.43.0


From 6372857de63ff75118987717ea14f2d70fa2d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 034/119] fix: store the value of choice fields

---
 src/pdfwriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 71c0fc4..fc733cf 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -939,6 +939,10 @@ rvoe<NoReturnValue> PdfWriter::write_form_field(int obj_num, const DelayedFormFi
         fmt.add_token_pair("/FT", "/Tx");
     } else if(auto *choice = std::get_if<ChoiceField>(&field.sub)) {
         fmt.add_token_pair("/FT", "/Ch");
+        if(!field.V.empty()) {
+            ERC(u8v, u8string::from_view(field.V));
+            fmt.add_token_pair("/V", utf8_to_pdfutf16be(u8v));
+        }
         fmt.add_token(("/Opt"));
         {
             fmt.begin_array();
-- 
2.43.0


From 72cf5c373c63172e1045a81bc2c715725afc63d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 035/119] fix: escape special characters in font names

---
 src/pdfwriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index fc733cf..dcc8289 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -55,8 +55,7 @@ std::string fontname2pdfname(std::string_view original) {
         }
         out += c;
     }
-    // FIXME: might need to escape other special characters as well.
-    return out;
+    return bytes2pdfstringliteral(out, false);
 }
 
 std::string subsetfontname2pdfname(std::string_view original, const int32_t subset_number) {
-- 
2.43.0


From b90477447ef38cf0665d26d390b69e98f184b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 036/119] fix: write valid ToUnicode maps for large subsets and
 astral codepoints

---
 src/pdfwriter.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index dcc8289..65c2400 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -75,7 +75,7 @@ std::string create_cidfont_subset_cmap(const std::vector<TTGlyphs> &glyphs) {
     // When you have to have a PDF that humans can read but AI bros
     // can't easily steal.
     const bool scrape_protection = getenv("CAPY_SCRAPE_PROTECT");
-    std::string buf = std::format(R"(/CIDInit /ProcSet findresource begin
+    std::string buf(R"(/CIDInit /ProcSet findresource begin
 12 dict begin
 begincmap
 /CIDSystemInfo
@@ -88,12 +88,18 @@ begincmap
 1 begincodespacerange
 <0000> <ffff>
 endcodespacerange
-{} beginbfchar
-)",
-                                  glyphs.size() - 1);
+)");
     // Glyph zero is not mapped.
     auto appender = std::back_inserter(buf);
+    const size_t max_block_size = 100;
     for(size_t i = 1; i < glyphs.size(); ++i) {
+        if((i - 1) % max_block_size == 0) {
+            if(i > 1) {
+                buf += "endbfchar\n";
+            }
+            std::format_to(
+                appender, "{} beginbfchar\n", std::min(max_block_size, glyphs.size() - i));
+        }
         const auto &g = glyphs[i];
         if(std::holds_alternative<LigatureGlyph>(g)) {
             const auto &lg = std::get<LigatureGlyph>(g);
@@ -108,11 +114,22 @@ endcodespacerange
                     unicode_codepoint = std::get<RegularGlyph>(g).unicode_codepoint;
                 }
             }
-            std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            if(unicode_codepoint >= 0x10000) {
+                const auto reduced = unicode_codepoint - 0x10000;
+                std::format_to(appender,
+                               "<{:04X}> <{:04X}{:04X}>\n",
+                               i,
+                               0xD800 + (reduced >> 10),
+                               0xDC00 + (reduced & 0x3FF));
+            } else {
+                std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            }
         }
     }
-    buf += R"(endbfchar
-endcmap
+    if(glyphs.size() > 1) {
+        buf += "endbfchar\n";
+    }
+    buf += R"(endcmap
 CMapName currentdict /CMap defineresource pop
 end
 end
-- 
2.43.0


From c5365c78320861c7eb39e11a34dd46ca63205f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 037/119] fix: list the marked content of structure items that
 also have children

---
 src/pdfwriter.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 65c2400..62e4098 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -1222,24 +1222,24 @@ rvoe<NoReturnValue> PdfWriter::write_delayed_structure_item(int obj_num,
     fmt.add_token("/P");
     fmt.add_object_ref(parent_object);
 
+    const auto it = doc.structure_use.find(dsi.sid);
+    if(it != doc.structure_use.end()) {
+        fmt.add_token("/Pg");
+        fmt.add_object_ref(doc.pages.at(it->second.page_num).page_obj_num);
+    }
     if(!children.empty()) {
         fmt.add_token("/K");
         fmt.begin_array(1);
 
+        if(it != doc.structure_use.end()) {
+            fmt.add_token(it->second.mcid_num);
+        }
         for(const auto &c : children) {
             fmt.add_object_ref(doc.structure_items.at(c.id).obj_id);
         }
         fmt.end_array();
-    } else {
-        // FIXME. Maybe not correct? Assumes that a struct item
-        // either has children or is used on a page. Not both.
-        const auto it = doc.structure_use.find(dsi.sid);
-        if(it != doc.structure_use.end()) {
-            const auto &[page_num, mcid_num] = it->second;
-            fmt.add_token("/Pg");
-            fmt.add_object_ref(doc.pages.at(page_num).page_obj_num);
-            fmt.add_token_pair("/K", mcid_num);
-        }
+    } else if(it != doc.structure_use.end()) {
+        fmt.add_token_pair("/K", it->second.mcid_num);
     }
 
     // Extra elements.
-- 
2.43.0


From cfe6c7e72af6e2debf05dd4968d6b177ab977b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 038/119] fix: out of range enumeration values are reported at
 the API boundary

---
 src/capi.cpp | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index cea91c4..f3716ae 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -17,6 +17,11 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_ENUM_ARG(v, max_enum_val)                                                            \
+    if((int)v < 0 || ((int)v > (int)max_enum_val)) {                                               \
+        return conv_err(ErrorCode::BadEnum);                                                       \
+    }
+
 using namespace capypdf::internal;
 
 // These structs are not in the interop header because they are
@@ -309,6 +314,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
                                             CapyPDF_Device_Colorspace cs,
                                             const char *profile_path) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     switch(cs) {
     case CAPY_DEVICE_CS_RGB:
@@ -328,6 +334,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_colorspace(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->output_colorspace = cs;
     RETNOERR;
@@ -352,6 +359,7 @@ capy_document_properties_set_output_intent(CapyPDF_DocumentProperties *docprops,
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFX_Type xtype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(xtype, CAPY_PDFX_6n);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = xtype;
     RETNOERR;
@@ -361,6 +369,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfa(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFA_Type atype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(atype, CAPY_PDFA_4e);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = atype;
     RETNOERR;
@@ -393,6 +402,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_tagged(CapyPDF_DocumentPr
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Layout layout) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(layout, CAPY_PAGE_LAYOUT_TWO_PAGE_RIGHT);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_layout = layout;
     RETNOERR;
@@ -402,6 +412,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_mode(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Mode mode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(mode, CAPY_PAGE_MODE_ATTACHMENTS);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_mode = mode;
     RETNOERR;
@@ -459,6 +470,9 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_page_labeling(CapyPDF_Generator *ge
                                                            int32_t strsize,
                                                            uint32_t *start_num) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    if(style) {
+        CHECK_ENUM_ARG(*style, CAPY_PAGE_LABEL_NUMBER_STYLE_LETTER_LOWER);
+    }
     auto *g = static_cast<PdfGen *>(gen);
     std::optional<CapyPDF_Page_Label_Number_Style> opt_style;
     std::optional<u8string> opt_prefix;
@@ -620,6 +634,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_convert_image(CapyPDF_Generator *gen,
                                                        CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(ri, CAPY_RI_PERCEPTUAL);
+    CHECK_ENUM_ARG(output_cs, CAPY_DEVICE_CS_CMYK);
     auto *g = static_cast<PdfGen *>(gen);
     if(auto *raw = std::get_if<RawPixelImage>(&source->ri)) {
         auto rc = g->convert_image_to_cs(*raw, output_cs, ri);
@@ -696,6 +712,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_structure_item(CapyPDF_Generator *g
                                                             CapyPDF_StructureItemId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(stype, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     std::optional<CapyPDF_StructureItemId> item_parent;
     if(parent) {
@@ -819,6 +836,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_separation(CapyPDF_Generator *gen,
                                                         CapyPDF_SeparationId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *g = static_cast<PdfGen *>(gen);
     auto name = validate_ascii(separation_name, strsize);
     if(!name) {
@@ -892,6 +910,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_rolemap_entry(CapyPDF_Generator *ge
                                                            CapyPDF_RoleId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(builtin, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     auto nameobj = validate_cstring(name, namesize);
     if(!nameobj) {
@@ -1645,6 +1664,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_M(CapyPDF_Text *text, double miterlimit)
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_j(CapyPDF_Text *text,
                                           CapyPDF_Line_Join join_style) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(join_style, CAPY_LJ_BEVEL);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_j(join_style));
     API_BOUNDARY_END;
@@ -1652,6 +1672,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_j(CapyPDF_Text *text,
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_J(CapyPDF_Text *text,
                                           CapyPDF_Line_Cap cap_style) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cap_style, CAPY_LC_PROJECTION);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_J(cap_style));
     API_BOUNDARY_END;
@@ -1755,6 +1776,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tm(CapyPDF_Text *text,
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tr(CapyPDF_Text *text,
                                            CapyPDF_Text_Mode tmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(tmode, CAPY_TEXT_CLIP);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tr(tmode));
     API_BOUNDARY_END;
@@ -1865,6 +1887,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_new(CapyPDF_Transition **out_ptr) CAPY
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_S(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Type type) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(type, CAPY_TR_FADE);
     auto pt = static_cast<Transition *>(tr);
     pt->type = type;
     RETNOERR;
@@ -1883,6 +1906,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC
 capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
     pt->Di = dim;
     RETNOERR;
@@ -1892,6 +1916,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_M(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Motion m) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(m, CAPY_TR_M_O);
     auto pt = static_cast<Transition *>(tr);
     pt->M = m;
     RETNOERR;
@@ -1994,6 +2019,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_ca(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_BM(
     CapyPDF_GraphicsState *state, CapyPDF_Blend_Mode blendmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(blendmode, CAPY_BM_LUMINOSITY);
     auto *s = static_cast<GraphicsState *>(state);
     s->BM = blendmode;
     RETNOERR;
@@ -2078,6 +2104,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_TK(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_blackpoint_compensation(
     CapyPDF_GraphicsState *state, CapyPDF_Black_Point_Compensation use_comp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(use_comp, CAPY_BLACK_POINT_COMPENSATION_DEFAULT);
     auto *s = static_cast<GraphicsState *>(state);
     s->UseBlackPtComp = use_comp;
     RETNOERR;
@@ -2114,6 +2141,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_new(
 CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_set_CS(
     CapyPDF_TransparencyGroupProperties *props, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     auto *p = static_cast<TransparencyGroupProperties *>(props);
     p->CS = cs;
     RETNOERR;
@@ -2210,6 +2238,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_alpha_data(
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_format(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Compression compression) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(compression, CAPY_COMPRESSION_DEFLATE);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.compression = compression;
     RETNOERR;
@@ -2219,6 +2248,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_f
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_colorspace(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Image_Colorspace colorspace) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(colorspace, CAPY_IMAGE_CS_CMYK);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.cs = colorspace;
     RETNOERR;
@@ -2360,6 +2390,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(PdfShading{ShadingType2{cs, x0, y0, x1, y1, func}});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2410,6 +2441,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(
         ShadingType3{cs, coords[0], coords[1], coords[2], coords[3], coords[4], coords[5], func});
     RETNOERR;
@@ -2423,6 +2455,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType4{{}, minx, miny, maxx, maxy, cs});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2472,6 +2505,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType6{
         {},
         minx,
@@ -2676,6 +2710,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_line_endings(CapyPDF_Annotation *a
                                                            CapyPDF_Line_Annotation_End_Style end)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(end, CAPY_LINE_ANNOTATION_END_SLASH);
+    CHECK_ENUM_ARG(start, CAPY_LINE_ANNOTATION_END_SLASH);
     auto *a = static_cast<Annotation *>(annotation);
     if(auto *line = std::get_if<LineAnnotation>(&a->sub)) {
         line->end_styles = LineAnnotationEndStyles{start, end};
@@ -2817,6 +2853,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_mask(CapyPDF_ImagePdfPro
 CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_interpolate(
     CapyPDF_ImagePdfProperties *par, CapyPDF_Image_Interpolation interp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(interp, CAPY_INTERPOLATION_SMOOTH);
     auto p = static_cast<ImagePDFProperties *>(par);
     p->interp = interp;
     RETNOERR;
@@ -2986,6 +3023,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_soft_mask_new(CapyPDF_Soft_Mask_Subtype subtype,
                                              CapyPDF_TransparencyGroupId trid,
                                              CapyPDF_SoftMask **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_SOFT_MASK_LUMINOSITY);
     *out_ptr = new SoftMask{{}, subtype, trid};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3188,6 +3226,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_halftone_set_type1(CapyPDF_Halftone *ht,
                                                   CapyPDF_Halftone_Spot_Function htspot)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(htspot, CAPY_HT_FUNC_DIAMOND);
     ht->ht = HalftoneType1{frequency, angle, htspot};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3206,6 +3245,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_3d_stream_new(const char *fname,
                                              CapyPDF_3D_File_Format format,
                                              CapyPDF_3DStream **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(format, CAPY_3D_PRC);
     auto rc = load_file_as_bytes(fname);
     if(!rc) {
         return conv_err(rc);
@@ -3237,7 +3277,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_new(CapyPDF_Form_Field_Type type,
         *out_ptr = new FormField{{}, {}, {}, {}, {}, TextField{}};
         break;
     default:
-        std::abort();
+        return conv_err(ErrorCode::BadEnum);
     }
     RETNOERR;
     API_BOUNDARY_END;
@@ -3454,6 +3494,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
 CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_view(CapyPDF_Collection *coll,
                                                    CapyPDF_Collection_View view) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(view, CAPY_COLLECTION_C);
     auto *c = static_cast<Collection *>(coll);
     c->View = view;
     RETNOERR;
@@ -3511,6 +3552,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_field_new(CapyPDF_Collection_Subtype s
                                                     CapyPDF_CollectionField **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_ENUM_ARG(subtype, CAPY_COLLECTION_SUB_COMPRESSED_SIZE);
     auto rc = validate_utf8(name, namelen);
     if(!rc) {
         return conv_err(rc);
-- 
2.43.0


From 82e0fd54eb85bc95536ee9a10b23b212a2cb64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 039/119] fix: clearing a draw context forgets the structure
 items and form XObjects it used

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1559156..0bcfbbd 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -127,6 +127,8 @@ void PdfDrawContext::clear() {
     used_gstates.clear();
     used_shadings.clear();
     used_patterns.clear();
+    used_form_xobjects.clear();
+    used_structures.clear();
     used_annotations.clear();
     used_ocgs.clear();
     used_trgroups.clear();
-- 
2.43.0


From 7b05d2ffd26b808b039936960b75fb64473c1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 040/119] fix: tiling pattern and transparency group contexts
 are reset after being added, like pages

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index e3461bb..ff66893 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2056,6 +2056,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
+    ctx.clear();
     return CapyPDF_PatternId{objid};
 }
 
@@ -2184,6 +2185,7 @@ rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawCon
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     transparency_groups.push_back(objid);
+    ctx.clear();
     return CapyPDF_TransparencyGroupId{(int32_t)transparency_groups.size() - 1};
 }
 
-- 
2.43.0


From 144df57d994068698be5a3e39605523325b6cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 041/119] fix: form XObjects must be added to the document of
 their draw context

---
 src/generator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator.cpp b/src/generator.cpp
index a436bee..32334a1 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -117,6 +117,9 @@ rvoe<NoReturnValue> PdfGen::add_page_labeling(uint32_t start_page,
 }
 
 rvoe<CapyPDF_FormXObjectId> PdfGen::add_form_xobject(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != &pdoc) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_FORM_XOBJECT) {
         RETERR(InvalidDrawContextType);
     }
-- 
2.43.0


From d39f751843e98b1c545f9d348ab34cf4d74d152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 042/119] fix: a page rejected for reusing annotations or
 structure items keeps its contents

---
 src/document.cpp  | 23 +++++++++++++++--------
 src/document.hpp  |  4 ++++
 src/generator.cpp |  1 +
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index ff66893..e31a587 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -582,14 +582,9 @@ rvoe<NoReturnValue> PdfDocument::init() {
     RETOK;
 }
 
-rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
-                                          std::string command_stream,
-                                          const PageProperties &custom_props,
-                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
-                                          const std::vector<CapyPDF_StructureItemId> &structs,
-                                          const std::optional<Transition> &transition,
-                                          const std::vector<SubPageNavigation> &subnav,
-                                          const std::vector<Viewport> &viewports) {
+rvoe<NoReturnValue> PdfDocument::validate_page_usage(
+    const std::unordered_set<CapyPDF_AnnotationId> &annots,
+    const std::vector<CapyPDF_StructureItemId> &structs) const {
     for(const auto &a : annots) {
         if(annotation_use.find(a) != annotation_use.cend()) {
             RETERR(AnnotationReuse);
@@ -600,6 +595,18 @@ rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
             RETERR(StructureReuse);
         }
     }
+    RETOK;
+}
+
+rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
+                                          std::string command_stream,
+                                          const PageProperties &custom_props,
+                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                                          const std::vector<CapyPDF_StructureItemId> &structs,
+                                          const std::optional<Transition> &transition,
+                                          const std::vector<SubPageNavigation> &subnav,
+                                          const std::vector<Viewport> &viewports) {
+    ERCV(validate_page_usage(annots, structs));
     ObjectFormatter fmt;
     fmt.begin_dict();
     const auto resource_num = add_object(FullPDFObject{std::move(resource_dict), {}});
diff --git a/src/document.hpp b/src/document.hpp
index f0ea9db..dc688fc 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -452,6 +452,10 @@ public:
     friend class PdfWriter;
 
     // Pages
+    rvoe<NoReturnValue>
+    validate_page_usage(const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                        const std::vector<CapyPDF_StructureItemId> &structs) const;
+
     rvoe<NoReturnValue> add_page(std::string resource_dict,
                                  std::string command_stream,
                                  const PageProperties &custom_props,
diff --git a/src/generator.cpp b/src/generator.cpp
index 32334a1..78e1155 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -95,6 +95,7 @@ rvoe<PageId> PdfGen::add_page(PdfDrawContext &ctx) {
     if(ctx.has_unclosed_state()) {
         RETERR(DrawStateEndMismatch);
     }
+    ERCV(pdoc.validate_page_usage(ctx.get_annotation_usage(), ctx.get_structure_usage()));
     ERC(sc_var, ctx.serialize());
     assert(std::holds_alternative<SerializedBasicContext>(sc_var));
     auto &sc = std::get<SerializedBasicContext>(sc_var);
-- 
2.43.0


From d67a45917fca0eca689bcbd9867ad0ccf88dbe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 043/119] fix: shading, pattern, graphics state and Lab ids are
 validated when used in content

---
 src/document.cpp    | 11 ++++++++---
 src/document.hpp    |  5 +++++
 src/drawcontext.cpp | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e31a587..5bd3e99 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -823,8 +823,9 @@ rvoe<CapyPDF_LabColorSpaceId> PdfDocument::add_lab_colorspace(const LabColorSpac
     }
     fmt.end_array();
 
-    add_object(FullPDFObject{fmt.steal(), {}});
-    return CapyPDF_LabColorSpaceId{(int32_t)document_objects.size() - 1};
+    const auto id = add_object(FullPDFObject{fmt.steal(), {}});
+    lab_colorspaces.insert(id);
+    return CapyPDF_LabColorSpaceId{id};
 }
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::load_icc_file(const char *fname) {
@@ -1751,6 +1752,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
     }
     fmt.end_dict();
     add_object(FullPDFObject{fmt.steal(), {}});
+    graphics_states.insert(id);
     return CapyPDF_GraphicsStateId{id};
 }
 
@@ -2046,7 +2048,9 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_shading_pattern(const ShadingPattern &s
         fmt.end_array();
     }
     fmt.end_dict();
-    return CapyPDF_PatternId{add_object(FullPDFObject{fmt.steal(), {}})};
+    const auto objid = add_object(FullPDFObject{fmt.steal(), {}});
+    patterns.insert(objid);
+    return CapyPDF_PatternId{objid};
 }
 
 rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
@@ -2064,6 +2068,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     ctx.clear();
+    patterns.insert(objid);
     return CapyPDF_PatternId{objid};
 }
 
diff --git a/src/document.hpp b/src/document.hpp
index dc688fc..3b5bc85 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -637,6 +637,11 @@ private:
     std::vector<ShadingInfo> shadings;
     std::vector<RolemapEnty> rolemap;
 
+    // Object numbers, these are used directly as ids.
+    std::unordered_set<int32_t> graphics_states;
+    std::unordered_set<int32_t> lab_colorspaces;
+    std::unordered_set<int32_t> patterns;
+
     std::optional<Collection> collection;
 
     // A form widget can be used on one and only one page.
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 0bcfbbd..7293435 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -427,7 +427,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_G(LimitDouble gray) { return serialize_G
 rvoe<NoReturnValue> PdfDrawContext::cmd_g(LimitDouble gray) { return serialize_g(gray); }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_gs(CapyPDF_GraphicsStateId gid) {
-    CHECK_INDEXNESS(gid.id, doc->document_objects);
+    if(!doc->graphics_states.contains(gid.id)) {
+        RETERR(BadId);
+    }
     used_gstates.insert(gid.id);
     auto cmd = std::format("/GS{} gs\n", gid.id);
     cmds.append(cmd);
@@ -540,7 +542,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_scn(double value) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_sh(CapyPDF_ShadingId shid) {
-    CHECK_INDEXNESS(shid.id, doc->document_objects);
+    CHECK_INDEXNESS(shid.id, doc->shadings);
     used_shadings.insert(shid.id);
     auto cmd = std::format("/SH{} sh\n", shid.id);
     cmds.append(cmd);
@@ -724,6 +726,9 @@ rvoe<NoReturnValue> PdfDrawContext::convert_to_output_cs_and_set_color(const Dev
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(CapyPDF_PatternId id, bool stroke) {
+    if(!doc->patterns.contains(id.id)) {
+        RETERR(BadId);
+    }
     if(stroke) {
         ERCV(cmd_CS("/Pattern"));
     } else {
@@ -751,7 +756,9 @@ rvoe<NoReturnValue> PdfDrawContext::set_color(const SeparationColor &color, bool
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(const LabColor &c, bool stroke) {
-    CHECK_INDEXNESS(c.id.id, doc->document_objects);
+    if(!doc->lab_colorspaces.contains(c.id.id)) {
+        RETERR(BadId);
+    }
     used_colorspaces.insert(c.id.id);
     std::string csname = std::format("/CSpace{}", c.id.id);
     if(stroke) {
@@ -1089,7 +1096,9 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
         [&](const gs_arg &gs) -> rvoe<NoReturnValue> {
-            CHECK_INDEXNESS(gs.gid.id, doc->document_objects);
+            if(!doc->graphics_states.contains(gs.gid.id)) {
+                RETERR(BadId);
+            }
             used_gstates.insert(gs.gid.id);
             auto cmd = std::format("/GS{} gs\n", gs.gid.id);
             cmds.append(cmd);
-- 
2.43.0


From dcf29595969fe0df1ba5e37d5e3ca5f3f084dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 044/119] fix: rendering intent of a graphics state is written
 as the name valued entry RI

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 5bd3e99..a7b05ee 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1693,7 +1693,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ML", *state.ML);
     }
     if(state.RI) {
-        fmt.add_token_pair("/RenderingIntent", rendering_intent_names.at(*state.RI));
+        fmt.add_token_pair("/RI", std::format("/{}", rendering_intent_names.at(*state.RI)));
     }
     if(state.OP) {
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
-- 
2.43.0


From c7cd2c392cda43b6f798a89cea656829cf71dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 045/119] fix: failing marked content operations leave no
 partial output

---
 src/drawcontext.cpp | 41 ++++++++++++++++++++++++++---------------
 src/drawcontext.hpp |  3 +++
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 7293435..95e87e8 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -282,18 +282,30 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_Bstar() {
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
                                             std::optional<CapyPDF_StructureItemId> sid,
                                             const BDCTags *attributes) {
+    return serialize_BDC(name.sv(), sid, attributes);
+}
+
+rvoe<NoReturnValue> PdfDrawContext::serialize_BDC(std::string_view name,
+                                                  std::optional<CapyPDF_StructureItemId> sid,
+                                                  const BDCTags *attributes) {
     if(!sid && !attributes) {
-        fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
-        std::abort();
+        // Must specify sid or attributes. Otherwise use BMC.
+        RETERR(ArgIsNull);
+    }
+    if(cmds.marked_content_depth() != 0) {
+        RETERR(NestedBMC);
+    }
+    std::optional<int32_t> MCID_id;
+    if(sid) {
+        ERC(structure_mcid, add_bcd_structure(sid.value()));
+        MCID_id = structure_mcid;
     }
     cmds.append_indent();
-    cmds.append_raw("/");
-    cmds.append_raw(name.sv());
+    cmds.append_raw(bytes2pdfstringliteral(name));
     cmds.append_raw(" <<\n");
     ERCV(cmds.indent(DrawStateType::Dictionary));
-    if(sid) {
-        ERC(MCID_id, add_bcd_structure(sid.value()));
-        cmds.append_dict_entry("/MCID", MCID_id);
+    if(MCID_id) {
+        cmds.append_dict_entry("/MCID", *MCID_id);
     }
     if(attributes) {
         for(const auto &[key, value] : *attributes) {
@@ -314,18 +326,17 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
         ERC(astr, asciistring::from_cstr(structure_type_names.at(*builtin)));
         return cmd_BDC(astr, sid, attributes);
     } else if(auto role = std::get_if<CapyPDF_RoleId>(&itemtype)) {
-        auto quoted = bytes2pdfstringliteral(doc->rolemap.at(role->id).name, false);
-        ERC(astr, asciistring::from_cstr(quoted.c_str()));
-        return cmd_BDC(astr, sid, attributes);
+        return serialize_BDC(doc->rolemap.at(role->id).name, sid, attributes);
     } else {
         std::abort();
     }
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid) {
-    used_ocgs.insert(ocgid);
-    ERCV(cmds.indent(DrawStateType::MarkedContent));
+    CHECK_INDEXNESS(ocgid.id, doc->ocg_items);
     auto cmd = std::format("/OC /oc{} BDC\n", doc->ocg_object_number(ocgid));
+    ERCV(cmds.indent(DrawStateType::MarkedContent));
+    used_ocgs.insert(ocgid);
     cmds.append(cmd);
     RETOK;
 }
@@ -335,7 +346,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/{} BMC\n", tag);
+    auto cmd = std::format("{} BMC\n", bytes2pdfstringliteral(tag));
     cmds.append(cmd);
     RETOK;
 }
@@ -380,7 +391,7 @@ PdfDrawContext::cmd_d(const double *dash_array, size_t dash_array_length, double
     for(size_t i = 0; i < dash_array_length; ++i) {
         std::format_to(app, "{:f} ", dash_array[i]);
     }
-    std::format_to(app, "] {} d\n", phase);
+    std::format_to(app, "] {:f} d\n", phase);
     cmds.append(cmd);
     RETOK;
 }
@@ -1091,7 +1102,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             for(auto val : dash.array) {
                 std::format_to(std::back_inserter(cmd), "{:f} ", val);
             }
-            std::format_to(std::back_inserter(cmd), " ] {} d\n", dash.phase);
+            std::format_to(std::back_inserter(cmd), " ] {:f} d\n", dash.phase);
             cmds.append(cmd);
             RETOK;
         },
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 247ed4e..5abe020 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -124,6 +124,9 @@ public:
     rvoe<NoReturnValue> cmd_y(double x1, double y1, double x3, double y3);
 
     // Command serialization.
+    rvoe<NoReturnValue> serialize_BDC(std::string_view name,
+                                      std::optional<CapyPDF_StructureItemId> sid,
+                                      const BDCTags *attributes);
     rvoe<NoReturnValue> serialize_G(LimitDouble gray);
     rvoe<NoReturnValue> serialize_g(LimitDouble gray);
     rvoe<NoReturnValue> serialize_K(LimitDouble c, LimitDouble m, LimitDouble y, LimitDouble k);
-- 
2.43.0


From 1546e197af41dd6de55e34fd84ca8fb984711442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 046/119] fix: text colours of every kind are written, with
 their ids validated

---
 src/drawcontext.cpp | 67 ++-------------------------------------------
 1 file changed, 2 insertions(+), 65 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 95e87e8..c9df479 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1002,73 +1002,10 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
 
         [&](const Emc_arg &) -> rvoe<NoReturnValue> { return cmds.EMC(); },
 
-        [&](const Stroke_arg &sarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&sarg.c)) {
-                ERCV(serialize_RG(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&sarg.c)) {
-                ERCV(serialize_G(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&sarg.c)) {
-                ERCV(serialize_K(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&sarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                std::string cmd;
-                auto app = std::back_inserter<std::string>(cmd);
-                std::format_to(app, "/CSpace{} CS\n", icc_info.object_num);
-                cmds.append(cmd);
-                cmd.clear();
-
-                for(const auto &i : icc->values) {
-                    std::format_to(app, "{:f} ", i);
-                }
-                cmd += " SCN";
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&sarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern CS\n");
-                auto cmd = std::format("/Pattern-{} SCN\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text stroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
-        },
+        [&](const Stroke_arg &sarg) -> rvoe<NoReturnValue> { return set_color(sarg.c, true); },
 
         [&](const Nonstroke_arg &nsarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&nsarg.c)) {
-                ERCV(serialize_rg(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&nsarg.c)) {
-                ERCV(serialize_g(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&nsarg.c)) {
-                ERCV(serialize_k(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&nsarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                auto cmd = std::format("/CSpace{} cs\n", icc_info.object_num);
-                for(const auto &i : icc->values) {
-                    std::format_to(std::back_inserter(cmd), "{:f} ", i);
-                }
-                std::format_to(std::back_inserter(cmd), "{}\n", "scn");
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&nsarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern cs\n");
-                auto cmd = std::format("/Pattern-{} scn\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text nonstroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
+            return set_color(nsarg.c, false);
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
-- 
2.43.0


From 787f8d522e9f8d7873348b9966e6ba62e36e56fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 047/119] fix: text sequences that are empty or begin with
 ActualText produce valid TJ arrays

---
 src/drawcontext.cpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c9df479..e741de4 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -814,23 +814,16 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
                                                            CommandStreamFormatter &serialisation,
                                                            CapyPDF_FontId &current_font) {
     CHECK_INDEXNESS(current_font.id, doc->font_objects);
-    bool is_first = true;
-    auto glyph_appender_lambda =
-        [this, &serialisation, &is_first](const SubsetGlyph &current_subset_glyph) {
-            used_external_fonts.insert(current_subset_glyph.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
-            auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
-            serialisation.append_raw(glyphid);
-        };
+    serialisation.append_indent();
+    serialisation.append_raw("[ ");
+    auto glyph_appender_lambda = [this,
+                                  &serialisation](const SubsetGlyph &current_subset_glyph) {
+        used_external_fonts.insert(current_subset_glyph.ss);
+        auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
+        serialisation.append_raw(glyphid);
+    };
     for(const auto &e : charseq) {
         if(auto kval = std::get_if<KerningValue>(&e)) {
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             auto v = std::format("{} ", kval->v);
             serialisation.append_raw(v);
         } else if(auto uglyph = std::get_if<UnicodeCharacter>(&e)) {
@@ -843,10 +836,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             }
             ERC(subset, doc->get_subset_glyph(current_font, *u8str->begin(), {}));
             used_external_fonts.insert(subset.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             serialisation.append_raw("<");
             for(const auto codepoint : *u8str) {
                 ERC(current_subset_glyph, doc->get_subset_glyph(current_font, codepoint, {}));
@@ -877,7 +866,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             fprintf(stderr, "Not implemented yet.\n");
             std::abort();
         }
-        is_first = false;
     }
     serialisation.append_raw("] TJ\n");
     RETOK;
-- 
2.43.0


From 0fc3b31990061fd94dcde2a31f683d8a4655152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 048/119] fix: text that can not be rendered leaves the draw
 context unchanged

---
 src/commandstreamformatter.cpp |  6 ++++++
 src/commandstreamformatter.hpp |  9 +++++++++
 src/drawcontext.cpp            | 30 +++++++++++++++++++++---------
 src/drawcontext.hpp            |  1 +
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 3942984..4362baf 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -111,6 +111,12 @@ void CommandStreamFormatter::clear() {
     buf.clear();
 }
 
+void CommandStreamFormatter::rollback(const Checkpoint &point) {
+    buf.resize(point.bufsize);
+    lead = point.lead;
+    stack = point.stack;
+}
+
 rvoe<NoReturnValue> CommandStreamFormatter::indent(DrawStateType stype) {
     if(stype == DrawStateType::Text && has_state(stype)) {
         RETERR(DrawStateEndMismatch); // FIXME
diff --git a/src/commandstreamformatter.hpp b/src/commandstreamformatter.hpp
index c1879a0..cfa2571 100644
--- a/src/commandstreamformatter.hpp
+++ b/src/commandstreamformatter.hpp
@@ -53,6 +53,15 @@ public:
 
     void clear();
 
+    struct Checkpoint {
+        size_t bufsize;
+        std::string lead;
+        std::vector<DrawStateType> stack;
+    };
+
+    Checkpoint checkpoint() const { return Checkpoint{buf.size(), lead, stack}; }
+    void rollback(const Checkpoint &point);
+
     rvoe<std::string> steal();
 
     rvoe<NoReturnValue> indent(DrawStateType stype);
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index e741de4..c5a7661 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -876,7 +876,17 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         RETERR(WrongDrawContext);
     }
     ERCV(validate_text_contents(textobj));
+    const auto checkpoint = cmds.checkpoint();
+    const auto num_structures = used_structures.size();
+    auto rc = serialize_text(textobj);
+    if(!rc) {
+        cmds.rollback(checkpoint);
+        used_structures.resize(num_structures, CapyPDF_StructureItemId{-1});
+    }
+    return rc;
+}
 
+rvoe<NoReturnValue> PdfDrawContext::serialize_text(const PdfText &textobj) {
     CapyPDF_FontId current_font{-1};
     double current_pointsize{-1};
 
@@ -1053,14 +1063,15 @@ rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text)
     std::optional<CapyPDF_FontId> font;
     for(const auto &e : text.get_events()) {
         if(const auto *Tf = std::get_if<Tf_arg>(&e)) {
+            CHECK_INDEXNESS(Tf->font.id, doc->font_objects);
             font = Tf->font;
         } else if(const auto *text_arg = std::get_if<Tj_arg>(&e)) {
             if(!font) {
                 RETERR(FontNotSpecified);
-                for(const auto &codepoint : text_arg->text) {
-                    if(!doc->font_has_character(font.value(), codepoint)) {
-                        RETERR(MissingGlyph);
-                    }
+            }
+            for(const auto codepoint : text_arg->text) {
+                if(!doc->font_has_character(font.value(), codepoint)) {
+                    RETERR(MissingGlyph);
                 }
             }
         } else if(const auto *TJ = std::get_if<TJ_arg>(&e)) {
@@ -1071,11 +1082,11 @@ rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text)
                 if(const auto *unicode = std::get_if<UnicodeCharacter>(&te)) {
                     if(!doc->font_has_character(font.value(), unicode->codepoint)) {
                         RETERR(MissingGlyph);
-                    } else if(const auto *u8str = std::get_if<u8string>(&te)) {
-                        for(const auto &codepoint : *u8str) {
-                            if(!doc->font_has_character(font.value(), codepoint)) {
-                                RETERR(MissingGlyph);
-                            }
+                    }
+                } else if(const auto *u8str = std::get_if<u8string>(&te)) {
+                    for(const auto codepoint : *u8str) {
+                        if(!doc->font_has_character(font.value(), codepoint)) {
+                            RETERR(MissingGlyph);
                         }
                     }
                 }
@@ -1214,6 +1225,7 @@ rvoe<NoReturnValue> PdfDrawContext::set_group_matrix(const PdfMatrix &mat) {
 }
 
 rvoe<int32_t> PdfDrawContext::add_bcd_structure(CapyPDF_StructureItemId sid) {
+    CHECK_INDEXNESS(sid.id, doc->structure_items);
     for(const auto &id : used_structures) {
         if(id == sid) {
             RETERR(StructureReuse);
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 5abe020..5ed9993 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -127,6 +127,7 @@ public:
     rvoe<NoReturnValue> serialize_BDC(std::string_view name,
                                       std::optional<CapyPDF_StructureItemId> sid,
                                       const BDCTags *attributes);
+    rvoe<NoReturnValue> serialize_text(const PdfText &textobj);
     rvoe<NoReturnValue> serialize_G(LimitDouble gray);
     rvoe<NoReturnValue> serialize_g(LimitDouble gray);
     rvoe<NoReturnValue> serialize_K(LimitDouble c, LimitDouble m, LimitDouble y, LimitDouble k);
-- 
2.43.0


From f3d1b8e6d3453bbae3ce3861694633023f68cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 049/119] fix: annotation ids are validated when put on a page

---
 src/drawcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c5a7661..c3b2cb6 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,7 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
-- 
2.43.0


From a926998bbe1cdff659c857d3de28e382a66d3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 050/119] fix: setting the navigation of a page twice replaces
 it instead of aborting

---
 src/drawcontext.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c3b2cb6..f580d49 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1182,14 +1182,12 @@ PdfDrawContext::add_simple_navigation(std::span<const CapyPDF_OptionalContentGro
     if(context_type != CAPY_DC_PAGE) {
         RETERR(InvalidDrawContextType);
     }
-    if(!sub_navigations.empty()) {
-        std::abort();
-    }
     for(const auto &sn : navs) {
         if(used_ocgs.find(sn) == used_ocgs.end()) {
             RETERR(UnusedOcg);
         }
     }
+    sub_navigations.clear();
     for(const auto &sn : navs) {
         sub_navigations.emplace_back(SubPageNavigation{sn, tr});
     }
-- 
2.43.0


From fa609b35b4ecb7c6d1ec6973a51a081c66b6482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 051/119] fix: empty content streams are written as streams in
 debug mode

---
 src/pdfwriter.cpp | 14 +++++++++-----
 src/pdfwriter.hpp |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 62e4098..9cc8a54 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -347,7 +347,11 @@ rvoe<std::vector<ObjectOffset>> PdfWriter::write_objects() {
         },
 
         [&](const FullPDFObject &pobj) -> rvoe<NoReturnValue> {
-            ERCV(write_finished_object(i, pobj.dictionary, pobj.stream.span()));
+            if(pobj.stream.empty()) {
+                ERCV(write_finished_object(i, pobj.dictionary, {}));
+            } else {
+                ERCV(write_finished_object(i, pobj.dictionary, pobj.stream.span()));
+            }
             RETOK;
         },
 
@@ -648,8 +652,8 @@ rvoe<NoReturnValue> PdfWriter::write_newstyle_trailer(int64_t xref_offset) {
 
 rvoe<NoReturnValue> PdfWriter::write_finished_object(int32_t object_number,
                                                      std::string_view dict_data,
-                                                     std::span<std::byte> stream_data) {
-    if(use_xref && stream_data.empty()) {
+                                                     std::optional<std::span<std::byte>> stream_data) {
+    if(use_xref && !stream_data) {
         return write_finished_object_to_objstm(dict_data);
     }
     std::string buf;
@@ -658,12 +662,12 @@ rvoe<NoReturnValue> PdfWriter::write_finished_object(int32_t object_number,
     auto appender = std::back_inserter(buf);
     std::format_to(appender, "{} 0 obj\n", object_number);
     buf += dict_data;
-    if(!stream_data.empty()) {
+    if(stream_data) {
         if(buf.back() != '\n') {
             buf += '\n';
         }
         buf += "stream\n";
-        buf += span2sv(stream_data);
+        buf += span2sv(*stream_data);
         // PDF spec says that there must always be a newline before "endstream".
         // It is not counted in the /Length key in the object dictionary.
         buf += "\nendstream\n";
diff --git a/src/pdfwriter.hpp b/src/pdfwriter.hpp
index 52a0f83..eee691c 100644
--- a/src/pdfwriter.hpp
+++ b/src/pdfwriter.hpp
@@ -41,7 +41,7 @@ private:
     rvoe<NoReturnValue> write_newstyle_trailer(int64_t xref_offset);
     rvoe<NoReturnValue> write_finished_object(int32_t object_number,
                                               std::string_view dict_data,
-                                              std::span<std::byte> stream_data);
+                                              std::optional<std::span<std::byte>> stream_data);
     rvoe<NoReturnValue> write_finished_object_to_objstm(std::string_view dict_data);
     rvoe<NoReturnValue> write_subset_font_data(int32_t object_num,
                                                const DelayedSubsetFontData &ssfont);
-- 
2.43.0


From 27a1386d4b590088a361d9d6d8060b3d5af4514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 052/119] fix: a 3D stream without any data is rejected

---
 src/document.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index a7b05ee..a507c54 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -936,6 +936,9 @@ rvoe<CapyPDF_RoleId> PdfDocument::add_rolemap_entry(std::string name,
 }
 
 rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
+    if(stream.model_data.empty()) {
+        RETERR(InvalidBufsize);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/3D");
-- 
2.43.0


From 9709fbfffe13839195c5c7d0fa6691618bed9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 053/119] fix: names given by the caller may have one character
 and are escaped when written

---
 src/objectformatter.cpp | 5 ++++-
 src/pdfcommon.cpp       | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6f2a1d0..c0dadc9 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -87,7 +87,10 @@ void ObjectFormatter::add_token(double number) {
     added_item();
 }
 
-void ObjectFormatter::add_token(const PdfName &name) { add_token(name.sv()); }
+void ObjectFormatter::add_token(const PdfName &name) {
+    // The name always begins with a slash.
+    add_token(bytes2pdfstringliteral(name.sv().substr(1)));
+}
 
 void ObjectFormatter::add_token(uint64_t number) {
     check_indent();
diff --git a/src/pdfcommon.cpp b/src/pdfcommon.cpp
index f4d3360..313bb97 100644
--- a/src/pdfcommon.cpp
+++ b/src/pdfcommon.cpp
@@ -122,7 +122,7 @@ rvoe<asciistring> asciistring::from_view(std::string_view sv) {
 }
 
 rvoe<PdfName> PdfName::from_view(std::string_view sv) {
-    if(sv.size() < 2) {
+    if(sv.empty() || sv == "/") {
         RETERR(InvalidBufsize);
     }
     if(sv.find('\0') != std::string_view::npos) {
-- 
2.43.0


From ad467cb8baae1110101a2dc7dee68a04222405b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 054/119] fix: form field values are validated when they are
 set

---
 src/capi.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index f3716ae..d232d5b 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -3321,12 +3321,17 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_set_V(CapyPDF_FormField *field,
                                                 int32_t strsize) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
     auto *f = static_cast<FormField *>(field);
-    auto rc = validate_raw_string(V, strsize);
-    if(rc) {
-        f->V = std::move(rc.value());
-    } else {
+    auto rc = validate_utf8(V, strsize);
+    if(!rc) {
         return conv_err(rc);
     }
+    if(std::holds_alternative<ButtonField>(f->sub) && !rc->empty()) {
+        auto name = PdfName::from_view(rc->sv());
+        if(!name) {
+            return conv_err(name);
+        }
+    }
+    f->V = rc->sv();
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From 0d4c3d3c65fe54dd1b6c84de47b223e234a25a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 055/119] fix: optional content group names are validated and
 written as text strings

---
 src/capi.cpp      | 7 +++++--
 src/document.cpp  | 2 +-
 src/pdfcommon.hpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index d232d5b..db322f7 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1963,9 +1963,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_destroy(CapyPDF_Transition *transition
 CAPYPDF_PUBLIC CapyPDF_EC capy_optional_content_group_new(CapyPDF_OptionalContentGroup **out_ptr,
                                                           const char *name) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
-    // FIXME check for ASCIIness (or even more strict?)
+    auto rc = validate_utf8(name, -1);
+    if(!rc) {
+        return conv_err(rc);
+    }
     auto *ocg = new OptionalContentGroup();
-    ocg->name = name;
+    ocg->name = std::move(rc.value());
     *out_ptr = ocg;
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/document.cpp b/src/document.cpp
index a507c54..01b64b5 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2178,7 +2178,7 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/OCG");
-    fmt.add_token_pair("/Name", pdfstring_quote(g.name));
+    fmt.add_token_pair("/Name", utf8_to_pdfutf16be(g.name));
     fmt.end_dict();
     auto id = add_object(FullPDFObject{fmt.steal(), {}});
     ocg_items.push_back(id);
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index dd4a836..c31d46d 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -565,7 +565,7 @@ struct Transition : public _capyPDF_Transition {
 };
 
 struct OptionalContentGroup : public _capyPDF_OptionalContentGroup {
-    std::string name;
+    u8string name;
     // std::string intent;
     //  Usage usage;
 };
-- 
2.43.0


From c3ebe5dbc1b9b7d97413a9f8bb51ecb90bfb8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 056/119] fix: collection schema keys are escaped when written

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 01b64b5..6d8d182 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1137,7 +1137,7 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             fmt.begin_dict();
             const auto &schema = c.schema.value();
             for(const auto &[key, value] : schema.entries) {
-                fmt.add_token_with_slash(key.c_str());
+                fmt.add_token(bytes2pdfstringliteral(key.c_str()));
                 fmt.begin_dict();
                 fmt.add_token("/Subtype");
                 fmt.add_token(collection_view_subtype_names.at(value.subtype));
-- 
2.43.0


From 153ddc696add6cf19c2377d8765a73dac7a587f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 057/119] fix: generated XMP metadata contains the title and
 author and uses qualified attributes

---
 src/document.cpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 6d8d182..ca73eaf 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1354,7 +1354,7 @@ int32_t PdfDocument::add_document_metadata_object() {
         xfmt.close_tag();
 
         xfmt.start_tag("rdf:Description");
-        xfmt.add_tag_attribute("about", "");
+        xfmt.add_tag_attribute("rdf:about", "");
         xfmt.add_tag_attribute("xmlns:xmp", "http://ns.adobe.com/xap/1.0/");
         xfmt.finish_tag();
         if(!docprops.creator.empty()) {
@@ -1365,6 +1365,39 @@ int32_t PdfDocument::add_document_metadata_object() {
         }
         xfmt.close_tag();
 
+        if(!docprops.title.empty() || !docprops.author.empty()) {
+            xfmt.start_tag("rdf:Description");
+            xfmt.add_tag_attribute("rdf:about", "");
+            xfmt.add_tag_attribute("xmlns:dc", "http://purl.org/dc/elements/1.1/");
+            xfmt.finish_tag();
+            if(!docprops.title.empty()) {
+                xfmt.start_tag("dc:title");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:Alt");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:li");
+                xfmt.add_tag_attribute("xml:lang", "x-default");
+                xfmt.finish_tag();
+                xfmt.add_content(docprops.title);
+                xfmt.close_tag();
+                xfmt.close_tag();
+                xfmt.close_tag();
+            }
+            if(!docprops.author.empty()) {
+                xfmt.start_tag("dc:creator");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:Seq");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:li");
+                xfmt.finish_tag();
+                xfmt.add_content(docprops.author);
+                xfmt.close_tag();
+                xfmt.close_tag();
+                xfmt.close_tag();
+            }
+            xfmt.close_tag();
+        }
+
         xfmt.close_tag();
         xfmt.close_tag();
         xfmt.add_text_unchecked(R"(<?xpacket end="w"?>)");
-- 
2.43.0


From dd6768c533967f2f942c3c9adbdd0b374613816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 058/119] fix: characters that XML forbids are replaced in XMP
 metadata

---
 src/utils.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index dbf392d..64c8614 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -443,7 +443,16 @@ void quote_xml_element_data_into(const u8string &content, std::string &result) {
 }
 
 void quote_xml_element_data_unchecked_into(const std::string_view &content, std::string &result) {
-    for(char c : content) {
+    const std::string_view replacement{"\xef\xbf\xbd"};
+    for(size_t i = 0; i < content.size(); ++i) {
+        const char c = content[i];
+        const auto three = content.substr(i, 3);
+        if(three == "\xef\xbf\xbe" || three == "\xef\xbf\xbf") {
+            // U+FFFE and U+FFFF
+            result += replacement;
+            i += 2;
+            continue;
+        }
         switch(c) {
         case '<':
             result += "&lt;";
@@ -454,8 +463,17 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
         case '&':
             result += "&amp;";
             break;
+        case '\r':
+            // A plain carriage return would get normalized to a newline.
+            result += "&#13;";
+            break;
         default:
-            result += c;
+            if(c >= 0 && c < ' ' && c != '\t' && c != '\n') {
+                // Control characters can not be represented in XML at all.
+                result += replacement;
+            } else {
+                result += c;
+            }
             break;
         }
     }
-- 
2.43.0


From a4b98d6ac78f6ccd509078faba6e97e9b5190641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 059/119] fix: transition dimension is not stored as its
 direction

---
 src/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index db322f7..6a7503f 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1908,7 +1908,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
     API_BOUNDARY_START;
     CHECK_ENUM_ARG(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
-    pt->Di = dim;
+    pt->Dm = dim;
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From e967d629a3c93b27c3854e33bb5cd4ec63879a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 060/119] fix: mesh shadings without elements or extent are
 rejected

---
 src/document.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index ca73eaf..f80c8c2 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -176,6 +176,12 @@ template<typename T> rvoe<NoReturnValue> append_floatvalue(std::string &buf, dou
 }
 
 rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
+    if(shade.elements.empty()) {
+        RETERR(ZeroLengthArray);
+    }
+    if(shade.minx == shade.maxx || shade.miny == shade.maxy) {
+        RETERR(InvalidBBox);
+    }
     std::string s;
     for(const auto &e : shade.elements) {
         const double xratio =
@@ -218,6 +224,12 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
 }
 
 rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
+    if(shade.elements.empty()) {
+        RETERR(ZeroLengthArray);
+    }
+    if(shade.minx == shade.maxx || shade.miny == shade.maxy) {
+        RETERR(InvalidBBox);
+    }
     std::string s;
     for(const auto &eh : shade.elements) {
         if(!std::holds_alternative<FullCoonsPatch>(eh)) {
-- 
2.43.0


From d9a2eb760bbaa9acb3c87791dd6e894443662b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 061/119] fix: ids used by annotations are validated when the
 annotation is added

---
 src/document.cpp | 18 ++++++++++++++++++
 src/document.hpp |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index f80c8c2..e82ab6f 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -970,6 +970,7 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
     fmt.end_dict();
     const auto obj_num =
         add_object(FullPDFObject{fmt.steal(), RawData(std::move(stream.model_data))});
+    threed_streams.insert(obj_num);
     return CapyPDF_3DStreamId{obj_num};
 }
 
@@ -2184,6 +2185,23 @@ rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     if(!a.rect) {
         RETERR(AnnotationMissingRect);
     }
+    if(const auto *file = std::get_if<FileAttachmentAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(file->fileid.id, embedded_files);
+    } else if(const auto *mark = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(mark->appearance.id, form_xobjects);
+    } else if(const auto *threed = std::get_if<ThreeDAnnotation>(&a.sub)) {
+        if(!threed_streams.contains(threed->stream.id)) {
+            RETERR(BadId);
+        }
+    } else if(const auto *widget = std::get_if<WidgetAnnotation>(&a.sub)) {
+        if(widget->parent) {
+            CHECK_INDEXNESS(widget->parent->id, form_fields);
+        }
+        if(widget->buttoninfo) {
+            CHECK_INDEXNESS(widget->buttoninfo->on_state.id, form_xobjects);
+            CHECK_INDEXNESS(widget->buttoninfo->off_state.id, form_xobjects);
+        }
+    }
     auto annot_id = (int32_t)annotations.size();
     auto obj_id = add_object(DelayedAnnotation{{annot_id}, a});
     annotations.push_back((int32_t)obj_id);
diff --git a/src/document.hpp b/src/document.hpp
index 3b5bc85..894f058 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -641,6 +641,7 @@ private:
     std::unordered_set<int32_t> graphics_states;
     std::unordered_set<int32_t> lab_colorspaces;
     std::unordered_set<int32_t> patterns;
+    std::unordered_set<int32_t> threed_streams;
 
     std::optional<Collection> collection;
 
-- 
2.43.0


From 31b062494b308309141c4e6108a374bb2892d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 062/119] fix: raster images whose data does not match their
 geometry are rejected

---
 src/document.cpp | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e82ab6f..ed74246 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -297,6 +297,37 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
+rvoe<NoReturnValue> validate_plane(const RasterImageMetadata &md,
+                                   uint64_t channels,
+                                   uint32_t depth,
+                                   uint64_t num_bytes) {
+    if(depth != 1 && depth != 2 && depth != 4 && depth != 8 && depth != 16) {
+        RETERR(UnsupportedFormat);
+    }
+    if(md.compression == CAPY_COMPRESSION_NONE) {
+        const uint64_t row_bytes = (md.w * channels * depth + 7) / 8;
+        if(num_bytes % row_bytes != 0 || num_bytes / row_bytes != md.h) {
+            RETERR(InvalidImageSize);
+        }
+    }
+    RETOK;
+}
+
+rvoe<NoReturnValue> validate_geometry(const RawPixelImage &image) {
+    if(image.md.w < 1 || image.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(image.pixels.empty()) {
+        RETERR(MissingPixels);
+    }
+    ERCV(validate_plane(
+        image.md, num_channels_for(image.md.cs), image.md.pixel_depth, image.pixels.size()));
+    if(!image.alpha.empty()) {
+        ERCV(validate_plane(image.md, 1, image.md.alpha_depth, image.alpha.size()));
+    }
+    RETOK;
+}
+
 void color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
@@ -1553,6 +1584,10 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
     if(!params.as_mask) {
         std::abort();
     }
+    ERCV(validate_geometry(image));
+    if(!image.alpha.empty()) {
+        RETERR(MaskAndAlpha);
+    }
     ImageObjectMetadata md;
     md.copy_common_from(image);
     md.depth = image.md.pixel_depth;
@@ -1563,12 +1598,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
 
 rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
                                              const ImagePDFProperties &params) {
-    if(image.md.w < 1 || image.md.h < 1) {
-        RETERR(InvalidImageSize);
-    }
-    if(image.pixels.empty()) {
-        RETERR(MissingPixels);
-    }
+    ERCV(validate_geometry(image));
     ERCV(validate_format(image));
     std::optional<int32_t> smask_id;
     if(params.as_mask && !image.alpha.empty()) {
-- 
2.43.0


From 6dba8de0cbe607e90f7e094cb7962af384e4d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 063/119] fix: JPEG images can not be used as masks and obey
 the colour restrictions of PDF/X

---
 src/document.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index ed74246..8443a90 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1701,6 +1701,13 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image_object(const ImageObjectMetadata &m
 }
 
 rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProperties &props) {
+    if(props.as_mask) {
+        RETERR(UnsupportedFormat);
+    }
+    if(std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) &&
+       jpg.cs == CAPY_DEVICE_CS_RGB) {
+        RETERR(ImageFormatNotPermitted);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/XObject");
-- 
2.43.0


From c75639e9b6617fde576d271e555f557b6c47975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 064/119] fix: strings of explicit length are not read past
 their end

---
 src/capi.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 6a7503f..720e5d1 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -64,14 +64,18 @@ template<typename T> [[nodiscard]] CapyPDF_EC conv_err(const rvoe<T> &rc) {
 }
 
 rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
+    if(!buf) {
+        RETERR(ArgIsNull);
+    }
     if(strsize < -1) {
         RETERR(InvalidBufsize);
     }
-    std::string converted = buf;
-    if(strsize != -1) {
-        if(converted.size() != (size_t)strsize) {
-            RETERR(EmbeddedNullInString);
-        }
+    if(strsize == -1) {
+        return std::string(buf);
+    }
+    std::string converted(buf, strsize);
+    if(converted.find('\0') != std::string::npos) {
+        RETERR(EmbeddedNullInString);
     }
     return converted;
 }
-- 
2.43.0


From 620abe6a7f012bd24c4d348bf01dbcabecf4a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 065/119] fix: black point compensation default is spelled
 Default

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 8443a90..0dfa16e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -147,7 +147,7 @@ const std::array<const char *, 6> page_mode_names{
 const std::array<const char *, 3> blackpt_names{
     "/OFF",
     "/ON",
-    "/DEFAULT",
+    "/Default",
 };
 
 const std::array<const char *, 9> collection_view_subtype_names{
-- 
2.43.0


From d0bdf80e49322cad8eeb136478f8c4c77e1ff3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 066/119] fix: kerning is scaled correctly in text widths and
 unloadable glyphs are errors

---
 src/generator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/generator.cpp b/src/generator.cpp
index 78e1155..c0b8f87 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -183,7 +183,8 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
             FT_Vector kerning;
             const auto index_left = FT_Get_Char_Index(face, previous_codepoint);
             const auto index_right = FT_Get_Char_Index(face, codepoint);
-            auto ec = FT_Get_Kerning(face, index_left, index_right, FT_KERNING_DEFAULT, &kerning);
+            auto ec =
+                FT_Get_Kerning(face, index_left, index_right, FT_KERNING_UNSCALED, &kerning);
             if(ec != 0) {
                 print_freetype_error(ec);
                 RETERR(FreeTypeError);
@@ -191,11 +192,13 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
             if(kerning.x != 0) {
                 // None of the fonts I tested had kerning that Freetype recognized,
                 // so don't know if this actually works.
-                w += int(kerning.x) / face->units_per_EM;
+                w += kerning.x * pointsize / face->units_per_EM;
             }
         }
         auto bob = glyph_advance(fid, pointsize, codepoint);
-        assert(bob);
+        if(!bob) {
+            RETERR(MissingGlyph);
+        }
         w += *bob;
         previous_codepoint = codepoint;
     }
-- 
2.43.0


From ee6440d0d03d07860e3a379e731adaaadbca09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 067/119] fix: validate role ids of structure items

---
 src/document.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document.cpp b/src/document.cpp
index 0dfa16e..85d1347 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2263,6 +2263,7 @@ rvoe<CapyPDF_StructureItemId>
 PdfDocument::add_structure_item(const CapyPDF_RoleId role,
                                 std::optional<CapyPDF_StructureItemId> parent,
                                 std::optional<StructItemExtraData> extra) {
+    CHECK_INDEXNESS_V(role.id, rolemap);
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
-- 
2.43.0


From f791e29f2fb9b6e271fa73d994a8a137a2c152e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 068/119] fix: components of composite glyphs with a
 transformation are found

---
 src/ft_subsetter.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 506df11..0276a71 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -846,6 +846,24 @@ rvoe<int16_t> num_contours(std::span<const std::byte> buf) {
     return num_contours;
 }
 
+// Size of everything that follows the glyph index in a component of a composite glyph.
+int64_t composite_argument_size(uint16_t component_flag) {
+    const uint16_t ARGS_ARE_WORDS = 0x01;
+    const uint16_t HAS_SCALE = 0x08;
+    const uint16_t HAS_XY_SCALE = 0x40;
+    const uint16_t HAS_2X2 = 0x80;
+    int64_t size =
+        (component_flag & ARGS_ARE_WORDS) ? 2 * sizeof(int16_t) : 2 * sizeof(int8_t);
+    if(component_flag & HAS_SCALE) {
+        size += sizeof(int16_t);
+    } else if(component_flag & HAS_XY_SCALE) {
+        size += 2 * sizeof(int16_t);
+    } else if(component_flag & HAS_2X2) {
+        size += 4 * sizeof(int16_t);
+    }
+    return size;
+}
+
 } // namespace
 
 rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_offset) {
@@ -1045,7 +1063,6 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
     auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
-    const uint16_t ARGS_ARE_WORDS = 0x01;
     uint16_t component_flag;
     do {
         ERC(rv, extract<uint16_t>(composite_data, composite_offset));
@@ -1055,11 +1072,7 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
         ERC(glyph_index, extract<uint16_t>(composite_data, composite_offset));
         byte_swap_inplace(glyph_index);
         composite_offset += sizeof(uint16_t);
-        if(component_flag & ARGS_ARE_WORDS) {
-            composite_offset += 2 * sizeof(int16_t);
-        } else {
-            composite_offset += 2 * sizeof(int8_t);
-        }
+        composite_offset += composite_argument_size(component_flag);
         subglyphs.push_back(glyph_index);
     } while(component_flag & MORE_COMPONENTS);
     return subglyphs;
@@ -1073,7 +1086,6 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
-    const uint16_t ARGS_ARE_WORDS = 0x01;
     uint16_t component_flag;
     do {
         ERC(rv, extract<uint16_t>(composite_data, composite_offset));
@@ -1084,11 +1096,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         ERC(glyph_index, extract<uint16_t>(composite_data, composite_offset));
         byte_swap_inplace(glyph_index);
         composite_offset += sizeof(uint16_t);
-        if(component_flag & ARGS_ARE_WORDS) {
-            composite_offset += 2 * sizeof(int16_t);
-        } else {
-            composite_offset += 2 * sizeof(int8_t);
-        }
+        composite_offset += composite_argument_size(component_flag);
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
             fprintf(stderr, "FAILfailFAIL\n");
-- 
2.43.0


From 3014f279df423dc6b627cf29af22c74b3ae8d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 069/119] fix: malformed composite glyphs are errors

---
 src/fontsubsetter.cpp | 29 ++++++++++++++++++-----------
 src/ft_subsetter.cpp  | 11 +++++++----
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 183aecc..f0c137f 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -24,15 +24,23 @@ FontSubsetData create_startstate() {
 rvoe<NoReturnValue> add_subglyphs(std::unordered_set<uint32_t> &new_subglyphs,
                                   uint32_t glyph_id,
                                   const TrueTypeFontFile &ttfile) {
-    const auto &cur_glyph = ttfile.glyphs.at(glyph_id);
-    ERC(iscomp, is_composite_glyph(cur_glyph));
-    if(!iscomp) {
-        RETOK;
-    }
-    ERC(subglyphs, composite_subglyphs(cur_glyph));
-    for(const auto &g : subglyphs) {
-        if(new_subglyphs.insert(g).second) {
-            ERCV(add_subglyphs(new_subglyphs, g, ttfile));
+    std::vector<uint32_t> pending{glyph_id};
+    while(!pending.empty()) {
+        const auto current = pending.back();
+        pending.pop_back();
+        if(current >= ttfile.glyphs.size()) {
+            RETERR(MalformedFontFile);
+        }
+        const auto &cur_glyph = ttfile.glyphs[current];
+        ERC(iscomp, is_composite_glyph(cur_glyph));
+        if(!iscomp) {
+            continue;
+        }
+        ERC(subglyphs, composite_subglyphs(cur_glyph));
+        for(const auto &g : subglyphs) {
+            if(new_subglyphs.insert(g).second) {
+                pending.push_back(g);
+            }
         }
     }
     RETOK;
@@ -154,8 +162,7 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
         if(subglyphs.size() + subset.glyphs.size() >= max_glyphs) {
-            fprintf(stderr, "Composite glyph overflow not yet implemented.");
-            std::abort();
+            RETERR(TooManyGlyphsUsed);
         }
         for(const auto &new_glyph : subglyphs) {
             if(subset.font_index_mapping.find(new_glyph) != subset.font_index_mapping.end()) {
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 0276a71..4f89f7d 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1059,7 +1059,9 @@ rvoe<bool> is_composite_glyph(const std::vector<std::byte> &buf) {
 
 rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf) {
     std::vector<uint32_t> subglyphs;
-    assert(num_contours(buf).value() < 0);
+    if(buf.size() < 5 * sizeof(int16_t)) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
@@ -1082,7 +1084,9 @@ rvoe<NoReturnValue>
 reassign_composite_glyph_numbers(std::span<std::byte> buf,
                                  const std::unordered_map<uint32_t, uint32_t> &mapping) {
     const int64_t header_size = 5 * sizeof(int16_t);
-
+    if(buf.size() < (size_t)header_size) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
@@ -1099,8 +1103,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         composite_offset += composite_argument_size(component_flag);
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
-            fprintf(stderr, "FAILfailFAIL\n");
-            std::abort();
+            RETERR(MalformedFontFile);
         }
         glyph_index = it->second;
         byte_swap_inplace(glyph_index);
-- 
2.43.0


From 9c355b276df58e282d9bdc5591260715d8b2fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 070/119] fix: components of a composite notdef glyph are
 embedded

---
 src/fontsubsetter.cpp | 15 ++++++++++++++-
 src/fontsubsetter.hpp |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index f0c137f..066f550 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -59,7 +59,10 @@ rvoe<FontSubsetter>
 FontSubsetter::construct(const char *&fontfile, FT_Face face, const FontProperties &props) {
     ERC(font, load_and_parse_font_file(fontfile, props));
     if(auto *ttffile = std::get_if<TrueTypeFontFile>(&font)) {
-        return FontSubsetter(std::move(*ttffile), face, create_startstate(), props);
+        FontSubsetter subsetter(std::move(*ttffile), face, create_startstate(), props);
+        // The notdef glyph is always in the subset.
+        ERCV(subsetter.add_components(0));
+        return subsetter;
     } else {
         fprintf(stderr, "Only basic Truetype fonts supported currently.\n");
         RETERR(UnsupportedFormat);
@@ -158,6 +161,16 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
                 (int)ttfile.glyphs.size());
         RETERR(MissingGlyph);
     }
+    return add_components(glyph_index);
+}
+
+rvoe<NoReturnValue> FontSubsetter::add_components(uint32_t glyph_index) {
+    if(ttfile.in_cff_format()) {
+        RETOK;
+    }
+    if(glyph_index >= ttfile.glyphs.size()) {
+        RETERR(MalformedFontFile);
+    }
     ERC(iscomp, is_composite_glyph(ttfile.glyphs.at(glyph_index)));
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 10c5c03..fd4567e 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -54,6 +54,7 @@ public:
 
 private:
     rvoe<NoReturnValue> handle_subglyphs(uint32_t glyph_index);
+    rvoe<NoReturnValue> add_components(uint32_t glyph_index);
 
     TrueTypeFontFile ttfile;
     FT_Face face;
-- 
2.43.0


From 6b53b26383e63fe9fa5bf4fdc4af90bb181b9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 071/119] fix: glyph ids outside the font are missing glyphs
 also in CFF fonts

---
 src/fontsubsetter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 066f550..de5e838 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -147,18 +147,15 @@ FontSubsetter::unchecked_insert_glyph_to_last_subset(const uint32_t codepoint,
 }
 
 rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
-    if(ttfile.in_cff_format()) {
-        RETOK;
-    }
     if(glyph_index == 0) {
         fprintf(stderr, "Glyph id zero is not valid.\n");
         RETERR(MissingGlyph);
     }
-    if(glyph_index >= ttfile.glyphs.size()) {
+    if(glyph_index >= (uint32_t)ttfile.num_glyphs()) {
         fprintf(stderr,
                 "Glyph index points past the end of glyps: %d/%d.\n",
                 glyph_index,
-                (int)ttfile.glyphs.size());
+                ttfile.num_glyphs());
         RETERR(MissingGlyph);
     }
     return add_components(glyph_index);
-- 
2.43.0


From 7325542fd9a4cba0adf00c7a6de74b7af2d6649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 072/119] fix: subset glyphs are identified by both the glyph
 and the text it stands for

---
 src/fontsubsetter.cpp | 85 +++++++------------------------------------
 src/fontsubsetter.hpp |  5 +--
 src/ft_subsetter.cpp  |  5 ++-
 3 files changed, 19 insertions(+), 76 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index de5e838..a6b2341 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -71,58 +71,17 @@ FontSubsetter::construct(const char *&fontfile, FT_Face face, const FontProperti
 
 rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(uint32_t codepoint,
                                                      const std::optional<uint32_t> glyph_id) {
-    if(glyph_id) {
-        auto existing_gid = find_existing_glyph(*glyph_id);
-        if(existing_gid) {
-            const auto &existing_definition = subset.glyphs.at(existing_gid->offset);
-            if(const auto *d = std::get_if<RegularGlyph>(&existing_definition)) {
-                if(d->unicode_codepoint != codepoint) {
-                    fprintf(
-                        stderr,
-                        "Tried to map glyph %d twice.\n Old value: %d\n New value: %d.\nUsing the "
-                        "old value.\n",
-                        *glyph_id,
-                        d->unicode_codepoint,
-                        codepoint);
-                }
-            } else {
-                fprintf(stderr,
-                        "Tried to map existing glyph %d to a different codepoint.\n",
-                        *glyph_id);
-            }
-            return *existing_gid;
-        }
-    } else {
-        auto trial = find_glyph_with_codepoint(codepoint);
-        if(trial) {
-            return trial.value();
-        }
+    const uint32_t glyph_index = glyph_id ? *glyph_id : FT_Get_Char_Index(face, codepoint);
+    auto trial = find_glyph(codepoint, glyph_index);
+    if(trial) {
+        return trial.value();
     }
     return unchecked_insert_glyph_to_last_subset(codepoint, glyph_id);
 }
 
 rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(const u8string &text,
                                                      const uint32_t glyph_id) {
-    auto existing_gid = find_existing_glyph(glyph_id);
-    if(existing_gid) {
-        const auto &existing_definition = subset.glyphs.at(existing_gid->offset);
-        if(const auto *d = std::get_if<LigatureGlyph>(&existing_definition)) {
-            if(d->text != text) {
-                fprintf(stderr,
-                        "Tried to map glyph %d twice.\n Old value: %s\n New value: %s.\nUsing the "
-                        "old value.\n",
-                        glyph_id,
-                        d->text.c_str(),
-                        text.c_str());
-            }
-        } else {
-            fprintf(stderr,
-                    "Tried to map existing glyph %d to a different text representation.\n",
-                    glyph_id);
-        }
-        return *existing_gid;
-    }
-    auto trial = find_glyph(text);
+    auto trial = find_glyph(text, glyph_id);
     if(trial) {
         return trial.value();
     }
@@ -197,27 +156,11 @@ rvoe<FontSubsetInfo> FontSubsetter::unchecked_insert_glyph_to_last_subset(const
     return FontSubsetInfo{int32_t(subset.glyphs.size() - 1)};
 }
 
-std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) const {
-    auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&gid](const TTGlyphs &ttg) {
-            if(std::holds_alternative<RegularGlyph>(ttg)) {
-                if(std::get<RegularGlyph>(ttg).glyph_index == gid) {
-                    return true;
-                }
-            }
-            return false;
-        });
-    if(loc != subset.glyphs.cend()) {
-        return FontSubsetInfo{int32_t(loc - subset.glyphs.cbegin())};
-    }
-    return {};
-}
-
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint) const {
+std::optional<FontSubsetInfo> FontSubsetter::find_glyph(uint32_t codepoint, uint32_t gid) const {
     auto loc = std::find_if(
-        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint](const TTGlyphs &ttg) {
-            if(std::holds_alternative<RegularGlyph>(ttg)) {
-                return std::get<RegularGlyph>(ttg).unicode_codepoint == codepoint;
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint, &gid](const TTGlyphs &ttg) {
+            if(const auto *g = std::get_if<RegularGlyph>(&ttg)) {
+                return g->unicode_codepoint == codepoint && g->glyph_index == gid;
             }
             return false;
         });
@@ -227,11 +170,11 @@ std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t
     return {};
 }
 
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text) const {
-    auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&text](const TTGlyphs &ttg) {
-            if(std::holds_alternative<LigatureGlyph>(ttg)) {
-                return std::get<LigatureGlyph>(ttg).text == text;
+std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text, uint32_t gid) const {
+    auto loc = std::find_if(
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&text, &gid](const TTGlyphs &ttg) {
+            if(const auto *g = std::get_if<LigatureGlyph>(&ttg)) {
+                return g->text == text && g->glyph_index == gid;
             }
             return false;
         });
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index fd4567e..fa7fc58 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -59,9 +59,8 @@ private:
     TrueTypeFontFile ttfile;
     FT_Face face;
     FontProperties props;
-    std::optional<FontSubsetInfo> find_existing_glyph(uint32_t gid) const;
-    std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint) const;
-    std::optional<FontSubsetInfo> find_glyph(const u8string &text) const;
+    std::optional<FontSubsetInfo> find_glyph(uint32_t codepoint, uint32_t gid) const;
+    std::optional<FontSubsetInfo> find_glyph(const u8string &text, uint32_t gid) const;
 
     FontSubsetData subset;
 };
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 4f89f7d..6edf1d6 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1003,7 +1003,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
     uint32_t counter = 0;
     for(const auto &g : glyphs) {
         if(const auto *rg = std::get_if<RegularGlyph>(&g)) {
-            if(rg->unicode_codepoint == 0) {
+            if(rg->glyph_index == (uint32_t)-1) {
                 converted.emplace_back(0, 0);
             } else {
                 converted.emplace_back(rg->unicode_codepoint, rg->glyph_index);
@@ -1115,7 +1115,8 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
 uint32_t font_id_for_glyph(const TTGlyphs &g) {
     if(std::holds_alternative<RegularGlyph>(g)) {
         auto &rg = std::get<RegularGlyph>(g);
-        if(rg.unicode_codepoint == 0) {
+        if(rg.glyph_index == (uint32_t)-1) {
+            // The notdef glyph.
             return 0;
         } else {
             return rg.glyph_index;
-- 
2.43.0


From be381eeacd3361de579cca54cbefbf0f19d83406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 073/119] fix: malformed TrueType structures are errors rather
 than crashes or hangs

---
 src/ft_subsetter.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 6edf1d6..73c5f5a 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -425,7 +425,9 @@ rvoe<TTHead> load_head(const std::vector<TTDirEntry> &dir, std::span<const std::
     ERC(head, extract<TTHead>(buf, e->offset));
     head.swap_endian();
 #ifndef CAPYFUZZING
-    assert(head.magic == 0x5f0f3cf5);
+    if(head.magic != 0x5f0f3cf5) {
+        RETERR(MalformedFontFile);
+    }
 #endif
     return head;
 }
@@ -442,14 +444,14 @@ rvoe<std::vector<int32_t>> load_loca(const std::vector<TTDirEntry> &dir,
     std::vector<int32_t> offsets;
     offsets.reserve(num_glyphs);
     if(index_to_loc_format == 0) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             uint16_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(uint16_t)));
             byte_swap_inplace(offset);
             offsets.push_back(offset * 2);
         }
     } else if(index_to_loc_format == 1) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             int32_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(int32_t)));
             byte_swap_inplace(offset);
@@ -493,7 +495,7 @@ rvoe<TTHmtx> load_hmtx(const std::vector<TTDirEntry> &dir,
     if(!e) {
         RETERR(MalformedFontFile);
     }
-    if(num_hmetrics > num_glyphs) {
+    if(num_hmetrics > num_glyphs || num_hmetrics == 0) {
         RETERR(MalformedFontFile);
     }
     TTHmtx hmtx;
@@ -539,10 +541,13 @@ rvoe<std::vector<std::span<std::byte>>> load_GLYF_glyphs(uint32_t offset,
 }
 
 rvoe<CFFont> load_CFF_glyphs(uint32_t offset, std::span<std::byte> buf, uint16_t num_glyphs) {
+    if(offset > buf.size_bytes()) {
+        RETERR(MalformedFontFile);
+    }
     auto cff_span = buf.subspan(offset);
     auto cff = parse_cff_data(cff_span);
-    if(cff.has_value()) {
-        assert(cff->char_strings.size() == num_glyphs);
+    if(cff.has_value() && cff->char_strings.size() != num_glyphs) {
+        RETERR(MalformedFontFile);
     }
     return cff;
 }
@@ -870,6 +875,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     TrueTypeFontFile tf;
     tf.original_data = std::move(backing);
     ERC(original_data, span_of_source(tf.original_data));
+    if(header_offset > original_data.size()) {
+        RETERR(MalformedFontFile);
+    }
     auto header_span = original_data.subspan(header_offset);
     if(header_span.size() < sizeof(TTOffsetTable)) {
         RETERR(MalformedFontFile);
@@ -880,7 +888,7 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     for(int i = 0; i < off.num_tables; ++i) {
         ERC(e, extract<TTDirEntry>(header_span, sizeof(off) + i * sizeof(TTDirEntry)));
         e.swap_endian();
-        if(e.offset + e.length > original_data.size()) {
+        if((uint64_t)e.offset + e.length > original_data.size()) {
             RETERR(IndexOutOfBounds);
         }
 #ifndef CAPYFUZZING
@@ -915,6 +923,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
         ERC(cffg, load_CFF_glyphs(cff->offset, original_data, tf.maxp.num_glyphs()))
         tf.cff = std::move(cffg);
     }
+    if(tf.num_glyphs() == 0) {
+        RETERR(UnsupportedFormat);
+    }
     ERC(cvt, load_raw_table(directory, original_data, "cvt "));
     tf.cvt = cvt;
     ERC(fpgm, load_raw_table(directory, original_data, "fpgm"));
@@ -950,12 +961,18 @@ rvoe<TrueTypeFontFile> parse_ttc_file(DataSource backing, const FontProperties &
     ERC(header, extract<TTCHeader>(original_data, 0));
     header.swap_endian();
     std::vector<uint32_t> offsets;
+    if(header.num_fonts > original_data.size() / sizeof(uint32_t)) {
+        RETERR(MalformedFontFile);
+    }
     offsets.reserve(header.num_fonts);
     for(uint32_t i = 0; i < header.num_fonts; ++i) {
         ERC(off, extract<uint32_t>(original_data, sizeof(TTCHeader) + i * sizeof(uint32_t)));
         offsets.push_back(std::byteswap(off));
     }
-    return parse_truetype_file(std::move(backing), offsets.at(props.subfont));
+    if(props.subfont >= offsets.size()) {
+        RETERR(InvalidSubfont);
+    }
+    return parse_truetype_file(std::move(backing), offsets[props.subfont]);
 }
 
 rvoe<FontData> parse_font_file(DataSource backing, const FontProperties &props) {
-- 
2.43.0


From 0939a35a7951ee2651160d5e4e326ffe03b39b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 074/119] fix: embedded TrueType tables are aligned, sorted and
 have correct checksums

---
 src/ft_subsetter.cpp | 29 +++++++++++++++++++++++++----
 src/ft_subsetter.hpp |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 73c5f5a..6cfd386 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -9,6 +9,7 @@
 #include <ft2build.h>
 #include FT_FREETYPE_H
 
+#include <algorithm>
 #include <cassert>
 #include <bit>
 #include <cmath>
@@ -74,7 +75,7 @@ struct TTOffsetTable {
         while((1 << i) < new_size) {
             ++i;
         }
-        const auto pow2 = 1 << (i - 1);
+        const auto pow2 = (1 << i) == new_size ? 1 << i : 1 << (i - 1);
         // https://developer.apple.com/fonts/TrueType-Reference-Manual/RM06/Chap6.html
         //
         // Note that for table 4 the text description has a different definition for
@@ -371,6 +372,11 @@ void TTMaxp::set_num_glyphs(uint16_t glyph_count) {
     std::visit([glyph_count](auto &d) { d.num_glyphs = glyph_count; }, data);
 }
 
+std::span<const std::byte> TTMaxp::bytes() const {
+    return std::visit(
+        [](const auto &d) { return std::as_bytes(std::span(&d, 1)); }, data);
+}
+
 void TTMaxp::swap_endian() {
     std::visit([](auto &d) { d.swap_endian(); }, data);
 }
@@ -701,9 +707,17 @@ TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &
     return subset;
 }
 
+// Tables must start at an offset that is a multiple of four.
+void align_table(std::vector<std::byte> &odata) {
+    while(odata.size() % 4 != 0) {
+        odata.push_back(std::byte{0});
+    }
+}
+
 TTDirEntry
 write_raw_table(std::vector<std::byte> &odata, const char *tag, std::span<const std::byte> bytes) {
     TTDirEntry e;
+    align_table(odata);
     e.set_tag(tag);
     e.offset = odata.size();
     e.length = bytes.size();
@@ -753,10 +767,10 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
         odata, "hhea", std::span<const std::byte>((const std::byte *)&tf.hhea, sizeof(tf.hhea))));
 
     tf.maxp.swap_endian();
-    directory.push_back(write_raw_table(
-        odata, "maxp", std::span<const std::byte>((const std::byte *)&tf.maxp, sizeof(tf.maxp))));
+    directory.push_back(write_raw_table(odata, "maxp", tf.maxp.bytes()));
     // glyph time
     std::vector<int32_t> loca;
+    align_table(odata);
     size_t glyphs_start = odata.size();
     // All new glyph data should be in the "subglyphs" parameter.
     assert(tf.glyphs.empty());
@@ -771,6 +785,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - glyphs_start;
     directory.push_back(e);
 
+    align_table(odata);
     e.set_tag("loca");
     e.offset = odata.size();
     for(auto offset : loca) {
@@ -780,6 +795,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - e.offset;
     directory.push_back(e);
 
+    align_table(odata);
     e.set_tag("hmtx");
     e.offset = odata.size();
     for(auto hm : tf.hmtx.longhor) {
@@ -793,10 +809,15 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     e.length = odata.size() - e.offset;
     directory.push_back(e);
     assert(directory.size() == (size_t)tf.num_directory_entries());
+    align_table(odata);
+    std::sort(directory.begin(), directory.end(), [](const TTDirEntry &a, const TTDirEntry &b) {
+        return memcmp(a.tag, b.tag, sizeof(a.tag)) < 0;
+    });
     std::byte *directory_start = odata.data() + sizeof(TTOffsetTable);
     std::span<std::byte> full_view(odata.data(), odata.size());
     for(int i = 0; i < (int)directory.size(); ++i) {
-        e.checksum = ttf_checksum(full_view.subspan(e.offset, e.length));
+        directory[i].checksum =
+            ttf_checksum(full_view.subspan(directory[i].offset, directory[i].length));
         directory[i].swap_endian();
         memcpy(directory_start + i * sizeof(TTDirEntry), &directory[i], sizeof(TTDirEntry));
     }
diff --git a/src/ft_subsetter.hpp b/src/ft_subsetter.hpp
index b7a54f0..d1c5530 100644
--- a/src/ft_subsetter.hpp
+++ b/src/ft_subsetter.hpp
@@ -108,6 +108,7 @@ public:
     uint16_t num_glyphs() const;
     void set_num_glyphs(uint16_t glyph_count);
     void swap_endian();
+    std::span<const std::byte> bytes() const;
 
 private:
     std::variant<TTMaxp05, TTMaxp10> data;
-- 
2.43.0


From 96baa992066c7ef2d90ccf29676275deb355776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 075/119] fix: metrics and bounding boxes of variable font
 instances

---
 src/ft_subsetter.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 6cfd386..f703856 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -593,8 +593,8 @@ GlyphBoundingBox get_glyph_bb(FT_Outline outline) {
         const auto &px = outline.points[i].x;
         const auto &py = outline.points[i].y;
         bb.xMin = std::min(bb.xMin, px);
-        bb.xMax = std::max(bb.xMax, py);
-        bb.yMin = std::min(bb.yMin, px);
+        bb.xMax = std::max(bb.xMax, px);
+        bb.yMin = std::min(bb.yMin, py);
         bb.yMax = std::max(bb.yMax, py);
     }
     return bb;
@@ -682,8 +682,24 @@ subset_glyphs(const TrueTypeFontFile &source,
     return subset;
 }
 
-TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &glyphs) {
+rvoe<TTHmtx> subset_hmtx(const TrueTypeFontFile &source,
+                         FT_Face face,
+                         const std::vector<TTGlyphs> &glyphs) {
     TTHmtx subset;
+    if(FT_HAS_MULTIPLE_MASTERS(face)) {
+        for(const auto &g : glyphs) {
+            auto rc =
+                FT_Load_Glyph(face, font_id_for_glyph(g), FT_LOAD_NO_SCALE | FT_LOAD_NO_BITMAP);
+            if(rc != 0) {
+                print_freetype_error(rc);
+                RETERR(FreeTypeError);
+            }
+            const auto bbox = get_glyph_bb(face->glyph->outline);
+            subset.longhor.emplace_back(TTLongHorMetric{
+                uint16_t(face->glyph->metrics.horiAdvance), int16_t(bbox.xMin)});
+        }
+        return subset;
+    }
     assert(source.hmtx.longhor.size() + source.hmtx.left_side_bearings.size() ==
            source.maxp.num_glyphs());
     assert(!source.hmtx.longhor.empty());
@@ -1021,7 +1037,8 @@ generate_truetype_font(const TrueTypeFontFile &source,
     dest.hhea = source.hhea;
     dest.maxp = source.maxp;
     dest.maxp.set_num_glyphs(subglyphs.size());
-    dest.hmtx = subset_hmtx(source, glyphs);
+    ERC(hmtx, subset_hmtx(source, face, glyphs));
+    dest.hmtx = std::move(hmtx);
     dest.hhea.num_hmetrics = dest.hmtx.longhor.size();
     dest.head.index_to_loc_format = 1;
     dest.cvt = source.cvt;
-- 
2.43.0


From f1f9eeddd81f7ddb81bfa99d7bbffad331ea3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 076/119] fix: fonts without a PostScript name can be used

---
 src/pdfwriter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 9cc8a54..d89cd3b 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -686,6 +686,11 @@ rvoe<NoReturnValue> PdfWriter::write_finished_object_to_objstm(std::string_view
     RETOK;
 }
 
+static const char *postscript_name(FT_Face face) {
+    const char *name = FT_Get_Postscript_Name(face);
+    return name ? name : "Unnamed";
+}
+
 rvoe<NoReturnValue> PdfWriter::write_subset_font(int32_t object_num,
                                                  const FontThingy &font,
                                                  int32_t tounicode_obj,
@@ -696,7 +701,7 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font(int32_t object_num,
     fmt.add_token_pair("/Type", "/Font");
     fmt.add_token_pair("/Subtype", "/Type0");
     fmt.add_token("/BaseFont");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_id));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_id));
     const int32_t ciddict_obj = object_num + 1; // FIXME
     fmt.add_token_pair("/Encoding", "/Identity-H");
     fmt.add_token("/DescendantFonts");
@@ -724,7 +729,7 @@ rvoe<NoReturnValue> PdfWriter::write_cid_dict(int32_t object_num,
     fmt.add_token_pair("/Subtype",
                        font.fontdata.fontdata.in_cff_format() ? "/CIDFontType0" : "/CIDFontType2");
     fmt.add_token("/BaseFont");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_id));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_id));
     fmt.add_token("/CIDSystemInfo");
     fmt.begin_dict();
     fmt.add_token_pair("/Registry", "(Adobe)");
@@ -785,7 +790,7 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font_descriptor(int32_t object_num,
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/FontDescriptor");
     fmt.add_token("/FontName");
-    fmt.add_token_with_slash(subsetfontname2pdfname(FT_Get_Postscript_Name(face), subset_number));
+    fmt.add_token_with_slash(subsetfontname2pdfname(postscript_name(face), subset_number));
     fmt.add_token_pair("/Flags", fflags);
     fmt.add_token("/FontBBox");
     fmt.begin_array();
-- 
2.43.0


From 4877e7ea40f7cbc749e25dd05619e929b40dd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 077/119] fix: font descriptor metrics are in glyph space units

---
 src/pdfwriter.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index d89cd3b..097b6c0 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -794,15 +794,17 @@ rvoe<NoReturnValue> PdfWriter::write_subset_font_descriptor(int32_t object_num,
     fmt.add_token_pair("/Flags", fflags);
     fmt.add_token("/FontBBox");
     fmt.begin_array();
-    fmt.add_token((int)face->bbox.xMin);
-    fmt.add_token((int)face->bbox.yMin);
-    fmt.add_token((int)face->bbox.xMax);
-    fmt.add_token((int)face->bbox.yMax);
+    const auto to_glyph_space = [face](FT_Pos v) { return 1000.0 * v / face->units_per_EM; };
+    fmt.add_token((int)floor(to_glyph_space(face->bbox.xMin)));
+    fmt.add_token((int)floor(to_glyph_space(face->bbox.yMin)));
+    fmt.add_token((int)ceil(to_glyph_space(face->bbox.xMax)));
+    fmt.add_token((int)ceil(to_glyph_space(face->bbox.yMax)));
     fmt.end_array();
     fmt.add_token_pair("/ItalicAngle", "0");                // Cairo always sets this to zero.
     fmt.add_token_pair("/Ascent", "0");                     // face->ascender
     fmt.add_token_pair("/Descent", "0");                    // face->descender
-    fmt.add_token_pair("/CapHeight", (int)face->bbox.yMax); // Copying what Cairo does.
+    // Copying what Cairo does.
+    fmt.add_token_pair("/CapHeight", (int)ceil(to_glyph_space(face->bbox.yMax)));
     fmt.add_token_pair("/StemV", 80);                       // Cairo always sets these to 80.
     fmt.add_token_pair("/StemH", 80);
     fmt.add_token("/FontFile3");
-- 
2.43.0


From 2fa4187c1fec89605507ebd4baddbfe38904ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 078/119] fix: PDF/A-4f declares its conformance

---
 src/document.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 85d1347..861cf7a 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1379,12 +1379,11 @@ int32_t PdfDocument::add_document_metadata_object() {
             xfmt.finish_tag();
             xfmt.add_content("2020");
             xfmt.close_tag();
-        } else {
-            xfmt.start_tag("pdfaid:conformance");
-            xfmt.finish_tag();
-            xfmt.add_content(pdfa_conformance.at(*aptr));
-            xfmt.close_tag();
         }
+        xfmt.start_tag("pdfaid:conformance");
+        xfmt.finish_tag();
+        xfmt.add_content(pdfa_conformance.at(*aptr));
+        xfmt.close_tag();
         xfmt.close_tag();
 
         xfmt.start_tag("rdf:Description");
-- 
2.43.0


From a05fb3e4d1b04e1df3733c29d045621d943a19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 079/119] fix: read CFF indexes that are empty or end at the
 end of the data

---
 src/cffsubsetter.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5344fb9..4c8d418 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -65,7 +65,7 @@ safe_subspan(const std::span<std::byte> &span, size_t offset, size_t size) {
 }
 
 rvoe<size_t> extract_index_offset(std::span<std::byte> dataspan, size_t offset, uint8_t offSize) {
-    if(dataspan.size_bytes() <= offset + offSize) {
+    if(dataspan.size_bytes() < offset + offSize) {
         RETERR(IndexOutOfBounds);
     }
     if(offSize == 1) {
@@ -78,7 +78,7 @@ rvoe<size_t> extract_index_offset(std::span<std::byte> dataspan, size_t offset,
         const uint8_t b2 = (uint8_t)dataspan[offset];
         const uint8_t b1 = (uint8_t)dataspan[offset + 1];
         const uint8_t b0 = (uint8_t)dataspan[offset + 2];
-        return b2 << 16 | b1 << 8 | b0;
+        return size_t(b2) << 16 | b1 << 8 | b0;
     } else if(offSize == 4) {
         ERC(v, extract<uint32_t>(dataspan, offset))
         return std::byteswap(v);
@@ -91,15 +91,15 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     CFFIndex index;
     ERC(cnt, extract<uint16_t>(dataspan, offset));
     const uint32_t count = std::byteswap(cnt);
+    offset += sizeof(uint16_t);
     if(count == 0) {
         return index;
     }
-    offset += sizeof(uint16_t);
     ERC(offSize, extract<uint8_t>(dataspan, offset));
     ++offset;
     std::vector<size_t> offsets;
     offsets.reserve(count + 1);
-    if(offSize > 5) {
+    if(offSize == 0 || offSize > 4) {
         RETERR(MalformedFontFile);
     }
     for(uint32_t i = 0; i <= count; ++i) {
@@ -126,7 +126,7 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     --offset;
     index.entries.reserve(count);
 
-    for(uint16_t i = 0; i < count; ++i) {
+    for(uint32_t i = 0; i < count; ++i) {
         const auto entrysize = offsets[i + 1] - offsets[i];
         if(offset + offsets[i] > dataspan.size() ||
            offset + offsets[i] + entrysize > dataspan.size()) {
@@ -315,8 +315,12 @@ void print_info(const CFFont &cff) {
 
 std::vector<uint32_t> append_index_to(std::vector<std::byte> &output, const CFFIndex &index) {
     swap_and_append_bytes<uint16_t>(output, index.size());
-    output.push_back(std::byte{4});
     std::vector<uint32_t> offsets;
+    if(index.size() == 0) {
+        // An empty index consists of only the count.
+        return offsets;
+    }
+    output.push_back(std::byte{4});
     uint32_t offset = 1;
     for(const auto &e : index.entries) {
         swap_and_append_bytes(output, offset);
-- 
2.43.0


From 45eed0c7cc6a7d92442207d62e4491e486418339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 080/119] fix: validate CFF private dictionaries, encodings and
 charsets

---
 src/cffsubsetter.cpp | 49 +++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 4c8d418..6cf56a6 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -139,22 +139,6 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     return index;
 }
 
-rvoe<CFFPrivateDict>
-build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CFFDict raw_pdict) {
-    CFFPrivateDict priv(std::move(raw_pdict), {});
-    if(priv.entries.entries.size() > 0) {
-        // This seems to always be last.
-        const auto &subrs = priv.entries.entries.back();
-        if(subrs.opr == DictOperator::Subrs) {
-            size_t local_subrs_offset = priv_dict_offset + subrs.operand.front();
-            ERC(rsdata, load_index(dataspan, local_subrs_offset));
-            priv.subr = std::move(rsdata);
-            priv.entries.entries.pop_back();
-        }
-    }
-    return priv;
-}
-
 rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
@@ -485,34 +469,39 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
     offset = cse->operand.front();
     ERC(cstring, load_index(dataspan, offset));
     f.char_strings = std::move(cstring);
+    if(f.char_strings.entries.empty()) {
+        RETERR(MalformedFontFile);
+    }
 
     auto *ence = find_command(f, DictOperator::Encoding);
     if(ence) {
+        if(ence->operand.empty()) {
+            RETERR(MalformedFontFile);
+        }
         f.predefined_encoding = ence->operand.front();
     }
     auto *cste = find_command(f, DictOperator::Charset);
-    if(!cste) {
-        RETERR(UnsupportedFormat);
-    }
-    if(cste->operand.size() != 1) {
+    if(cste && cste->operand.size() != 1) {
         RETERR(MalformedFontFile);
     }
-    if((size_t)cste->operand[0] > dataspan.size_bytes()) {
-        RETERR(MalformedFontFile);
+    const int32_t charset_offset = cste ? cste->operand[0] : 0;
+    if(charset_offset >= 0 && charset_offset <= 2) {
+        f.predefined_charset = charset_offset;
+    } else {
+        if((size_t)charset_offset > dataspan.size_bytes()) {
+            RETERR(MalformedFontFile);
+        }
+        ERC(charsets, unpack_charsets(f, dataspan.subspan(charset_offset)));
+        f.charsets = std::move(charsets);
     }
-    ERC(charsets, unpack_charsets(f, dataspan.subspan(cste->operand[0])));
-    f.charsets = std::move(charsets);
 
     auto *priv = find_command(f, DictOperator::Private);
     if(priv) {
-        if(priv->operand.empty()) {
+        if(priv->operand.size() != 2) {
             RETERR(MalformedFontFile);
         }
-        auto dict_offset = priv->operand[1];
-        auto dict_size = priv->operand[0];
-        ERC(raw_pdict, unpack_dictionary(dataspan.subspan(dict_offset, dict_size)));
-        ERC(processed_pdict, build_pdict_from_dict(dataspan, dict_offset, raw_pdict));
-        f.pdict = std::move(processed_pdict);
+        ERC(pdict, load_private_dict(dataspan, priv->operand[1], priv->operand[0]));
+        f.pdict = std::move(pdict);
     }
 
     auto *fda = find_command(f, DictOperator::FDArray);
-- 
2.43.0


From f23cca48eb978783adc454a68e836d42fd0558f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 081/119] fix: CFF dictionary operands are preserved exactly

---
 src/cffsubsetter.cpp | 74 +++++++++++++++++++++++++++-----------------
 src/cffsubsetter.hpp |  5 ++-
 src/ft_subsetter.cpp |  2 +-
 3 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 6cf56a6..0ded5cd 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -143,6 +143,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
     std::vector<int32_t> operands;
+    size_t operand_start = 0;
     // span.at() is not available yet. Change back to span once it is.
     auto dataspan = span2sv(dataspan_orig);
     while(offset < dataspan.size()) {
@@ -151,12 +152,16 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
         if(b0 <= 21) {
             // Is an operator.
             int32_t unpacked_operator = b0;
+            const auto encoded = dataspan_orig.subspan(operand_start, offset - 1 - operand_start);
             if(b0 == 0xc) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 unpacked_operator = b0 << 8 | b1;
             }
-            dict.entries.emplace_back(std::move(operands), (DictOperator)unpacked_operator);
+            dict.entries.emplace_back(std::move(operands),
+                                      (DictOperator)unpacked_operator,
+                                      std::vector<std::byte>(encoded.begin(), encoded.end()));
             operands.clear();
+            operand_start = offset;
         } else if((b0 >= 28 && b0 <= 30) || (b0 >= 32 && b0 <= 254)) {
             // Is an operand.
             int32_t unpacked_operand;
@@ -171,7 +176,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
             } else if(b0 == 28) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
-                unpacked_operand = b1 << 8 | b2;
+                unpacked_operand = (int16_t)(b1 << 8 | b2);
             } else if(b0 == 29) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
@@ -184,7 +189,8 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 do {
                     b1 = (uint8_t)dataspan.at(offset++);
                 } while((b1 & 0xf) != 0xf);
-                unpacked_operand = -1; // FIXME
+                // The value is not needed, only the encoded form is written out.
+                unpacked_operand = -1;
             } else {
                 std::abort();
             }
@@ -577,6 +583,20 @@ void CFFDictWriter::append_command(const std::vector<int32_t> &operands, DictOpe
         o.output.push_back(std::byte{29});
         swap_and_append_bytes(o.output, opr);
     }
+    append_operator(op);
+}
+
+void CFFDictWriter::append_command(const CFFDictItem &e) {
+    if(e.encoded.empty()) {
+        append_command(e.operand, e.opr);
+        return;
+    }
+    o.offsets.push_back(o.output.size());
+    o.output.insert(o.output.end(), e.encoded.begin(), e.encoded.end());
+    append_operator(e.opr);
+}
+
+void CFFDictWriter::append_operator(DictOperator op) {
     if((uint16_t)op > 0xFF) {
         o.output.push_back(std::byte{0xc});
     }
@@ -593,7 +613,7 @@ rvoe<NoReturnValue> CFFWriter::create() {
     output.assign((std::byte *)header, (std::byte *)header + 4);
     append_index(source.name);
 
-    create_topdict();
+    ERCV(create_topdict());
     append_index(source.string);
     append_index(source.global_subr);
     fixups.charsets.value = output.size();
@@ -748,37 +768,35 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::FullName);
     copy_dict_item_if_exists(topdict, DictOperator::FamilyName);
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
+    copy_dict_item_if_exists(topdict, DictOperator::FontMatrix);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
     if(source.is_cid) {
-        ERCV(copy_dict_item(topdict, DictOperator::CIDFontVersion));
-        ERCV(copy_dict_item(topdict, DictOperator::CIDCount));
-        ERCV(copy_dict_item(topdict, DictOperator::FDArray));  // offset needs to be fixed in post.
-        ERCV(copy_dict_item(topdict, DictOperator::FDSelect)); // offset needs to be fixed in post.
+        copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
+        copy_dict_item_if_exists(topdict, DictOperator::CIDCount);
     } else {
-        std::vector<int32_t> operand;
-        operand.push_back(-1);
-        topdict.append_command(operand, DictOperator::CIDFontVersion);
-        operand.clear();
-        operand.push_back(65535);
-        topdict.append_command(operand, DictOperator::CIDCount);
-        operand.clear();
-        operand.push_back(-1);
-        topdict.append_command(operand, DictOperator::FDArray);
-        topdict.append_command(operand, DictOperator::FDSelect);
-    }
-    ERCV(copy_dict_item(topdict, DictOperator::Charset)); // offset needs to be fixed in post.
-    ERCV(copy_dict_item(topdict,
-                        DictOperator::CharStrings)); // offset needs to be fixed in post.
+        topdict.append_command(std::vector<int32_t>{-1}, DictOperator::CIDFontVersion);
+        topdict.append_command(std::vector<int32_t>{65535}, DictOperator::CIDCount);
+    }
+    // The values of these are fixed in post.
+    const std::vector<int32_t> placeholder{-1};
+    const size_t fdarray_offset = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::FDArray);
+    const size_t fdselect_offset = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::FDSelect);
+    const size_t charsets_offset = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::Charset);
+    const size_t charstrings_offset = topdict.current_size();
+    topdict.append_command(placeholder, DictOperator::CharStrings);
     // copy_dict_item(topdict, DictOperator::UnderlinePosition);
     auto serialization = topdict.steal();
     std::vector<std::vector<std::byte>> wrapper{std::move(serialization.output)};
     auto offsets = append_index(wrapper);
     assert(offsets.size() == 1);
     const auto dict_start = offsets.front();
-    fixups.fdarray.offset = serialization.offsets.at(8) + 1 + dict_start;
-    fixups.fdselect.offset = serialization.offsets.at(9) + 1 + dict_start;
-    fixups.charsets.offset = serialization.offsets.at(10) + 1 + dict_start;
-    fixups.charstrings.offset = serialization.offsets.at(11) + 1 + dict_start;
+    fixups.fdarray.offset = fdarray_offset + 1 + dict_start;
+    fixups.fdselect.offset = fdselect_offset + 1 + dict_start;
+    fixups.charsets.offset = charsets_offset + 1 + dict_start;
+    fixups.charstrings.offset = charstrings_offset + 1 + dict_start;
 
     /*
     uint32_t sanity_check_be;
@@ -802,14 +820,14 @@ rvoe<NoReturnValue> CFFWriter::copy_dict_item(CFFDictWriter &w, DictOperator op)
     if(!e) {
         RETERR(MissingCFFDictItem);
     }
-    w.append_command(e->operand, e->opr);
+    w.append_command(*e);
     RETOK;
 }
 
 void CFFWriter::copy_dict_item_if_exists(CFFDictWriter &w, DictOperator op) {
     auto *e = find_command(source, op);
     if(e) {
-        w.append_command(e->operand, e->opr);
+        w.append_command(*e);
     }
 }
 
diff --git a/src/cffsubsetter.hpp b/src/cffsubsetter.hpp
index c5aadbc..e722740 100644
--- a/src/cffsubsetter.hpp
+++ b/src/cffsubsetter.hpp
@@ -92,6 +92,7 @@ struct CFFIndex {
 struct CFFDictItem {
     std::vector<int32_t> operand;
     DictOperator opr; // "operator" is a reserved word
+    std::vector<std::byte> encoded = {}; // Operands as they were in the source file.
 };
 
 struct CFFDict {
@@ -187,13 +188,15 @@ struct Fixups {
 class CFFDictWriter {
 public:
     void append_command(const std::vector<int32_t> &operands, DictOperator op);
-    void append_command(const CFFDictItem &e) { append_command(e.operand, e.opr); };
+    void append_command(const CFFDictItem &e);
 
     DictOutput steal() { return std::move(o); }
 
     size_t current_size() const { return o.output.size(); }
 
 private:
+    void append_operator(DictOperator op);
+
     DictOutput o;
 };
 
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index f703856..4951273 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1074,7 +1074,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
         }
     }
     CFFWriter w(source_data, converted);
-    w.create();
+    ERCV(w.create());
     return w.steal();
 }
 
-- 
2.43.0


From aaebf6982a0e8521dc491266e2d486d0ea91969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 082/119] fix: validate CFF fdselect and support its format 0

---
 src/cffsubsetter.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 0ded5cd..2b24600 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -248,16 +248,22 @@ rvoe<std::vector<CFFCharsetRange2>> unpack_charsets(const CFFont &f,
 }
 
 rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan,
-                                                   uint32_t num_glyphs) {
+                                                   uint32_t num_glyphs,
+                                                   size_t num_fontdicts) {
     std::vector<CFFSelectRange3> ranges;
+    if(dataspan.empty()) {
+        RETERR(MalformedFontFile);
+    }
     size_t offset = 0;
     const uint8_t format = (uint8_t)dataspan[offset++];
     if(format == 0) {
-        std::vector<std::byte> selector_array{dataspan.begin() + offset,
-                                              dataspan.begin() + offset + num_glyphs};
-        // FIXME. OR maybe not. This seems to be used in generated
-        // subset fonts only.
-        return ranges;
+        ERC(selectors, safe_subspan(dataspan, offset, num_glyphs));
+        for(uint32_t i = 0; i < num_glyphs; ++i) {
+            const auto fd = (uint8_t)selectors[i];
+            if(ranges.empty() || ranges.back().fd != fd) {
+                ranges.emplace_back((uint16_t)i, fd);
+            }
+        }
     } else if(format == 3) {
         ERC(nRg, extract_and_swap<uint16_t>(dataspan, offset));
         const uint32_t nRanges = nRg;
@@ -273,6 +279,16 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
         if(sentinel != num_glyphs) {
             RETERR(MalformedFontFile);
         }
+    } else {
+        RETERR(MalformedFontFile);
+    }
+    if(ranges.empty() || ranges.front().first != 0) {
+        RETERR(MalformedFontFile);
+    }
+    for(const auto &range : ranges) {
+        if(range.fd >= num_fontdicts) {
+            RETERR(MalformedFontFile);
+        }
     }
     return ranges;
 }
@@ -537,7 +553,8 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
         if(offset > dataspan.size_bytes()) {
             RETERR(MalformedFontFile);
         }
-        ERC(fdsstr, unpack_fdselect(dataspan.subspan(offset), f.char_strings.size()));
+        ERC(fdsstr, unpack_fdselect(
+                dataspan.subspan(offset), f.char_strings.size(), f.fdarray.size()));
         f.fdselect = std::move(fdsstr);
     }
     return f;
-- 
2.43.0


From d2edd4ac3a7ade7cb48bda50dc4937f930cb39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 083/119] fix: PDF/A-4e declares its revision

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 861cf7a..87ac06b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1374,7 +1374,7 @@ int32_t PdfDocument::add_document_metadata_object() {
         xfmt.add_content(pdfa_part.at(*aptr));
         xfmt.close_tag();
 
-        if(*aptr == CAPY_PDFA_4f) {
+        if(*aptr >= CAPY_PDFA_4f) {
             xfmt.start_tag("pdfaid:rev");
             xfmt.finish_tag();
             xfmt.add_content("2020");
-- 
2.43.0


From 5f0b2aecfa944ed8c86f6af76902b022adc8c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 084/119] fix: the cmap of TrueType subsets holds glyph ids
 instead of pointers

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 4951273..a86d784 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -877,7 +877,9 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     append_bytes(buf, cmap_head);
     append_bytes(buf, enc);
     append_bytes(buf, glyphencoding);
-    append_bytes(buf, glyphids);
+    for(const uint16_t gid : glyphids) {
+        append_bytes(buf, gid);
+    }
 
     return buf;
 }
-- 
2.43.0


From 79ffe8f01a92cfa98b1dc7a8b0ade3184f3c5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 085/119] fix: a transparency group always has its Group entry

---
 src/drawcontext.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index f580d49..9a50488 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -73,10 +73,8 @@ rvoe<DCSerialization> PdfDrawContext::serialize() {
         fmt.add_token(bbox.x2);
         fmt.add_token(bbox.y2);
         fmt.end_array();
-        if(custom_props.transparency_props) {
-            fmt.add_token("/Group");
-            custom_props.transparency_props->serialize(fmt);
-        }
+        fmt.add_token("/Group");
+        custom_props.transparency_props.value_or(TransparencyGroupProperties{}).serialize(fmt);
         if(group_matrix) {
             write_matrix(fmt, group_matrix.value());
         }
-- 
2.43.0


From deb2662e412c005f45e4838f2d16164ffd1838a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 086/119] fix: Python methods that could never be called

---
 python/capypdf.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index faf7094..a0eba91 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -832,7 +832,7 @@ class DocumentProperties:
         check_error(libfile.capy_document_properties_set_page_layout(self, layout.value))
 
     def set_page_mode(self, model):
-        if not isinstance(layout, PageMode):
+        if not isinstance(model, PageMode):
             raise CapyPDFException('Argument must be a PageMode enum.')
         check_error(libfile.capy_document_properties_set_page_mode(self, model.value))
 
@@ -1575,10 +1575,10 @@ class Transition:
         check_error(libfile.capy_transition_set_D(self, d))
 
     def set_Dn(self, dm):
-        check_error(libfile.capy_transition_set_Dm(self, Dm.value))
+        check_error(libfile.capy_transition_set_Dm(self, dm.value))
 
     def set_M(self, m):
-        check_error(libfile.capy_transition_set_M(self, M.value))
+        check_error(libfile.capy_transition_set_M(self, m.value))
 
     def set_Di(self, Di):
         check_error(libfile.capy_transition_set_Di(self, Di))
@@ -2001,7 +2001,7 @@ class ImagePdfProperties:
     def set_interpolate(self, ival):
         if not isinstance(ival, ImageInterpolation):
             raise CapyPDFException('Argument must be image interpolation enum.')
-        check_error(libfile.capy_image_lpdf_properties_set_interpolate(self, ival.value))
+        check_error(libfile.capy_image_pdf_properties_set_interpolate(self, ival.value))
 
 
 class Destination:
@@ -2086,7 +2086,7 @@ class EmbeddedFile:
     def set_contents(self, contents):
         if not isinstance(contents, bytes):
             raise CapyPDFException('Contents must be raw bytes.')
-        check_error(libfile.capy_embedded_file_set_contents(ctypes.pointer(o), contents, len(contents)))
+        check_error(libfile.capy_embedded_file_set_contents(self, contents, len(contents)))
 
     def set_subtype(self, subtype):
         sbytes = subtype.encode('UTF-8')
@@ -2126,8 +2126,8 @@ class Halftone:
         check_error(libfile.capy_halftone_new(ctypes.pointer(o)))
         self._as_parameter_ = o
 
-    def set_default(self, subfont):
-        check_error(libfile.capy_halftone_set_default(self, subfont))
+    def set_default(self):
+        check_error(libfile.capy_halftone_set_default(self))
 
     def set_type1(self, frequency, angle, spotfunction):
         if not isinstance(spotfunction, HalftoneSpotFunction):
@@ -2161,7 +2161,7 @@ class FormField:
     def set_parent(self, parent_field):
         if not isinstance(parent_field, FormFieldId):
             raise CapyPDFException('Argument must be a FormFieldId.')
-        check_error(libfile.capy_form_field_set_parent(self, parent_field.value))
+        check_error(libfile.capy_form_field_set_parent(self, parent_field))
 
     def set_Ff(self, Ff):
         if not isinstance(Ff, FormFieldFlags):
@@ -2194,10 +2194,10 @@ class Collection:
         check_error(libfile.capy_collection_destroy(self))
 
     def set_D(self, text):
-        if isinstance(V, bytes):
-            vbytes = V
+        if isinstance(text, bytes):
+            vbytes = text
         else:
-            vbytes = V.encode('UTF-8')
+            vbytes = text.encode('UTF-8')
         check_error(libfile.capy_collection_set_D(self, vbytes, len(vbytes)))
 
     def set_view(self, view):
-- 
2.43.0


From e7b04a4cb64f473208938c7d6ea7d7d4e8222095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 087/119] fix: Transition.set_B sets B instead of S

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index a0eba91..e885016 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1587,7 +1587,7 @@ class Transition:
         check_error(libfile.capy_transition_set_SS(self, ss))
 
     def set_B(self, B):
-        check_error(libfile.capy_transition_set_S(self, int(B)))
+        check_error(libfile.capy_transition_set_B(self, int(B)))
 
     def __del__(self):
         check_error(libfile.capy_transition_destroy(self))
-- 
2.43.0


From bad9976f285cc8800ff6df5160fdfba3e9359dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 088/119] fix: Python enum values that were not integers

---
 python/capypdf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index e885016..dd7f42e 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -22,7 +22,7 @@ class LineAnnotationEndStyle(Enum):
     Circle = 1
     Diamond = 2
     OpenArrow = 3
-    ClosedArrow = 4,
+    ClosedArrow = 4
     NoEnding = 5 # Because "None" is a Python keyword
     Butt = 6
     ROpenAreow = 7
@@ -75,12 +75,12 @@ class TransitionType(Enum):
     Uncover = 10
     Fade = 11
 
-class TransitionDimension:
-    H = 0,
+class TransitionDimension(Enum):
+    H = 0
     V = 1
 
-class TransitionMotion:
-    I = 0,
+class TransitionMotion(Enum):
+    I = 0
     O = 1
 
 class PageBox(Enum):
@@ -178,8 +178,8 @@ class StructureType(Enum):
     Document = 0
     DocumentFragment = 1
 
-    Part = 2,
-    Sect = 3,
+    Part = 2
+    Sect = 3
     Div = 4
     Aside = 5
     Nonstruct = 6
-- 
2.43.0


From 2b2e8721aa1b2cd84a2f5819740a6dd670879744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 089/119] fix: Python text objects can be created in all kinds
 of draw contexts

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index dd7f42e..f2959fb 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1448,7 +1448,7 @@ class TextSequence:
 
 class Text:
     def __init__(self, dc):
-        if not isinstance(dc, DrawContext):
+        if not isinstance(dc, DrawContextBase):
             raise CapyPDFException('Argument must be a DrawingContext (preferably use its .text_new() method instead).')
         self._as_parameter_ = None
         opt = ctypes.c_void_p()
-- 
2.43.0


From dec585644f75118562c5ff0b0fb9d4d1f4b5084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 090/119] fix: Python optional content group names are UTF-8
 like in the C API

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index f2959fb..2528238 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1708,7 +1708,7 @@ class GraphicsState:
 class OptionalContentGroup:
     def __init__(self, name):
         self._as_parameter_ = None
-        in_bytes = name.encode('ASCII')
+        in_bytes = name.encode('UTF-8')
         opt = ctypes.c_void_p()
         check_error(libfile.capy_optional_content_group_new(ctypes.pointer(opt), in_bytes))
         self._as_parameter_ = opt
-- 
2.43.0


From 34374f5fc091bd6dc24f1970f104e76a7dc2a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 091/119] fix: C++ set_output_intent taking a byte sequence
 compiles

---
 include/capypdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index f132d6b..e563a9b 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -272,7 +272,7 @@ public:
         CAPY_CPP_CHECK(capy_document_properties_set_output_intent(*this, identifier, strsize));
     }
     template<ByteSequence T> void set_output_intent(const T &buf) {
-        set_output_intent(buf.data, buf.size());
+        set_output_intent(buf.data(), buf.size());
     }
 
     void set_pdfx(CapyPDF_PDFX_Type xtype) {
-- 
2.43.0


From 70b0d0e59b68dadb252c351e613e554b5cd02935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 092/119] fix: C++ add_separation reports errors

---
 include/capypdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index e563a9b..907bb8e 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -1123,7 +1123,7 @@ public:
                                         CapyPDF_Device_Colorspace cs,
                                         CapyPDF_FunctionId fid) {
         CapyPDF_SeparationId id;
-        capy_generator_add_separation(*this, name, name_size, cs, fid, &id);
+        CAPY_CPP_CHECK(capy_generator_add_separation(*this, name, name_size, cs, fid, &id));
         return id;
     }
 
-- 
2.43.0


From a658064513f2bd07c7eea24f7d7102a539fa5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 093/119] fix: C++ Type6Shading::extend accepts flag 3

---
 include/capypdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index 907bb8e..d9d5fc2 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -642,7 +642,7 @@ public:
     }
     void
     extend(uint32_t flag, double *coords, uint32_t num_coords, Color *colors, uint32_t num_colors) {
-        if(flag != 1 and flag != 2) {
+        if(flag != 1 and flag != 2 and flag != 3) {
             CAPY_ERROR_HAPPENED("Bad flag value");
         }
         if(num_coords != 16) {
-- 
2.43.0


From a1b22167ce30c169c5c41d3e4f8f6c5f58cbdb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 094/119] fix: destroying Python objects whose construction
 failed

---
 python/capypdf.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 2528238..018e81f 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1590,7 +1590,8 @@ class Transition:
         check_error(libfile.capy_transition_set_B(self, int(B)))
 
     def __del__(self):
-        check_error(libfile.capy_transition_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_transition_destroy(self))
 
 
 class RasterImage:
@@ -1604,7 +1605,8 @@ class RasterImage:
             self._as_parameter_ = cptr
 
     def __del__(self):
-        check_error(libfile.capy_raster_image_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_raster_image_destroy(self))
 
     def get_size(self):
         w = ctypes.c_uint32()
@@ -1634,7 +1636,8 @@ class RasterImageBuilder:
             self._as_parameter_ = cptr
 
     def __del__(self):
-        check_error(libfile.capy_raster_image_builder_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_raster_image_builder_destroy(self))
 
     def set_size(self, w, h):
         check_error(libfile.capy_raster_image_builder_set_size(self, w, h))
@@ -1663,7 +1666,8 @@ class GraphicsState:
         self._as_parameter_ = opt
 
     def __del__(self):
-        check_error(libfile.capy_graphics_state_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_graphics_state_destroy(self))
 
     def set_CA(self, value):
         check_error(libfile.capy_graphics_state_set_CA(self, value))
@@ -1714,7 +1718,8 @@ class OptionalContentGroup:
         self._as_parameter_ = opt
 
     def __del__(self):
-        check_error(libfile.capy_optional_content_group_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_optional_content_group_destroy(self))
 
 
 class Type2Function:
@@ -1725,7 +1730,8 @@ class Type2Function:
         self._as_parameter_ = t2f
 
     def __del__(self):
-        check_error(libfile.capy_function_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_function_destroy(self))
 
 
 class Type3Function:
@@ -1741,7 +1747,8 @@ class Type3Function:
         self._as_parameter_ = t3f
 
     def __del__(self):
-        check_error(libfile.capy_function_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_function_destroy(self))
 
 
 class Type4Function:
@@ -1758,7 +1765,8 @@ class Type4Function:
         self._as_parameter_ = t4f
 
     def __del__(self):
-        check_error(libfile.capy_function_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_function_destroy(self))
 
 
 class Type2Shading:
@@ -1777,7 +1785,8 @@ class Type2Shading:
         check_error(libfile.capy_shading_set_domain(self, starting, ending))
 
     def __del__(self):
-        check_error(libfile.capy_shading_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_shading_destroy(self))
 
 
 class Type3Shading:
@@ -1798,7 +1807,8 @@ class Type3Shading:
         check_error(libfile.capy_shading_set_domain(self, starting, ending))
 
     def __del__(self):
-        check_error(libfile.capy_shading_destroy(self))
+        if self._as_parameter_ is not None:
+            check_error(libfile.capy_shading_destroy(self))
 
 
 class Type4Shading:
-- 
2.43.0


From 2b56e7324d2545447d7128eea016cdacf448b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 095/119] fix: converting images that are not plain 8 bit
 pixels fails cleanly

---
 src/colorconverter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 8a967e6..4f77e7d 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -239,9 +239,14 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
     cmsHPROFILE input_profile;
     const uint32_t input_pixelformat = pixelformat_for(ri.md.cs);
     const uint32_t output_pixelformat = pixelformat_for(output_format);
-    assert(ri.md.w > 0);
-    assert(ri.md.h > 0);
+    if(ri.md.pixel_depth != 8 || ri.md.compression != CAPY_COMPRESSION_NONE) {
+        RETERR(UnsupportedFormat);
+    }
     const uint64_t num_pixels = ((uint64_t)ri.md.w) * ri.md.h;
+    if(num_pixels == 0 ||
+       ri.pixels.size() != num_pixels * num_bytes_for((CapyPDF_Device_Colorspace)ri.md.cs)) {
+        RETERR(InvalidImageSize);
+    }
     LcmsHolder icc_holder;
     if(ri.icc_profile.empty()) {
         input_profile = profile_for(ri.md.cs);
-- 
2.43.0


From 91e75e6295d9c56dda39c852acf2d01674f1f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 096/119] fix: loading a missing image file that has no
 extension

---
 src/imagefileops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 100f125..de652d9 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -618,6 +618,9 @@ rvoe<RasterImage> load_image_file(const char *fname) {
     char buf[bufsize];
     buf[0] = 0;
     FILE *f = fopen(fname, "rb");
+    if(!f) {
+        RETERR(CouldNotOpenFile);
+    }
     auto rc = fread(buf, 1, bufsize, f);
     fclose(f);
     if(rc != bufsize) {
-- 
2.43.0


From 73cac4602343afe5b89a630ca41de80056465230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 097/119] fix: alpha channel of TIFF images

---
 src/imagefileops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index de652d9..b48e069 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -257,7 +257,7 @@ void separate_tif_alpha(RawPixelImage &image, const size_t num_color_channels) {
         for(size_t j = 0; j < num_color_channels; ++j) {
             colors.push_back(image.pixels[i + j]);
         }
-        image.alpha.push_back(image.pixels[num_color_channels]);
+        image.alpha.push_back(image.pixels[i + num_color_channels]);
     }
     image.pixels = std::move(colors);
 }
-- 
2.43.0


From c8ab7e77db9484a5fb9355320f6f0c93141a461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 098/119] fix: reject TIFF images with separate color planes

---
 src/imagefileops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index b48e069..bb3684f 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -307,7 +307,9 @@ rvoe<RasterImage> do_tiff_load(TIFF *tif) {
     if(TIFFGetField(tif, TIFFTAG_PLANARCONFIG, &planarconf) != 1) {
         RETERR(UnsupportedTIFF);
     }
-    // Maybe fail for this?
+    if(planarconf != PLANARCONFIG_CONTIG && samplesperpixel > 1) {
+        RETERR(UnsupportedTIFF);
+    }
 
     if(TIFFGetField(tif, TIFFTAG_ICCPROFILE, &icc_count, &icc_data) == 1) {
         result.icc_profile = std::vector<std::byte>((const std::byte *)icc_data,
-- 
2.43.0


From 07aadcdb9ecdcab16d4db1f45350a10bb9946637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 099/119] fix: only accept PNG palettes that are black and
 white

---
 src/imagefileops.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index bb3684f..fa8d658 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -93,6 +93,7 @@ void load_ga_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result)
 
 bool is_white(const png_color *c) { return c->red == 255 && c->green == 255 && c->blue == 255; }
 bool is_white(const png_color &c) { return is_white(&c); }
+bool is_black(const png_color &c) { return c.red == 0 && c.green == 0 && c.blue == 0; }
 
 void load_mono_png(png_struct *png_ptr,
                    png_info *info_ptr,
@@ -225,15 +226,17 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         if(num_channels != 1) {
             RETERR(UnsupportedFormat);
         }
-        if(palette_size == 2) {
-            // FIXME: validate that the two entries in the file are in fact black and white.
-
+        if(palette_size == 2 && trns_rc != PNG_INFO_tRNS) {
+            if(!((is_white(pspan[0]) && is_black(pspan[1])) ||
+                 (is_black(pspan[0]) && is_white(pspan[1])))) {
+                RETERR(NonBWColormap);
+            }
             // Some programs write ICC profiles to monochrome images. They confuse
             // PDF renderers quite a bit so delete.
             image.icc_profile.clear();
             // white
             load_mono_png(png_ptr, info_ptr, pspan, image);
-        } else if((palette_size == 3 || palette_size == 4) && trns_rc == PNG_INFO_tRNS) {
+        } else if(palette_size >= 2 && palette_size <= 4 && trns_rc == PNG_INFO_tRNS) {
             std::span<unsigned char> aspan(trans, num_trans);
             image.icc_profile.clear();
             ERCV(try_load_mono_alpha_png(png_ptr, info_ptr, pspan, aspan, image));
-- 
2.43.0


From ed3155a4d00c4f465a006f5ba6c94d51bc0e6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 100/119] fix: pixels and transparency of black and white PNG
 images with alpha

---
 src/imagefileops.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index fa8d658..b39fcd3 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -130,15 +130,6 @@ void load_mono_png(png_struct *png_ptr,
     assert(result.pixels.size() == final_size);
 }
 
-template<typename T> bool span_contains(std::span<T> &span, const T &value) {
-    for(const auto &e : span) {
-        if(e == value) {
-            return true;
-        }
-    }
-    return false;
-}
-
 // Special case for images that have 1-bit monochrome colors and a 1-bit alpha channel.
 rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
                                             png_info *info_ptr,
@@ -146,6 +137,13 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
                                             std::span<unsigned char> alpha,
                                             RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
+    for(size_t i = 0; i < palette.size(); ++i) {
+        // The alpha array may be shorter than the palette. The remaining entries are opaque.
+        const unsigned char a = i < alpha.size() ? alpha[i] : 255;
+        if(a != 0 && (a != 255 || !(is_white(palette[i]) || is_black(palette[i])))) {
+            RETERR(NonBWColormap);
+        }
+    }
     result.md.pixel_depth = 1;
     result.md.alpha_depth = 1;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
@@ -161,16 +159,18 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
             current_byte <<= 1;
             current_mask_byte <<= 1;
             auto input_value = current_row[i];
-            assert(input_value < palette.size()); // Span has .at only at c++26.
+            if(input_value >= palette.size()) { // Span has .at only at c++26.
+                RETERR(UnsupportedFormat);
+            }
             bool is_white_p = is_white(palette[input_value]);
-            bool is_trans_p = span_contains(alpha, current_row[i]);
+            bool is_trans_p = input_value < alpha.size() && alpha[input_value] == 0;
             if(!is_white_p) {
                 current_byte |= 1;
             }
             if(is_trans_p) {
                 current_mask_byte |= 1;
             }
-            if((i % 8 == 0) && i > 0) {
+            if(i % 8 == 7) {
                 result.pixels.push_back(std::byte(~current_byte));
                 result.alpha.push_back(std::byte(~current_mask_byte));
                 current_byte = 0;
@@ -182,9 +182,9 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
         if(num_padding_bits > 0) {
             current_byte <<= num_padding_bits;
             current_mask_byte <<= num_padding_bits;
+            result.pixels.push_back(std::byte(~current_byte));
+            result.alpha.push_back(std::byte(~current_mask_byte));
         }
-        result.pixels.push_back(std::byte(current_byte));
-        result.alpha.push_back(std::byte(~current_mask_byte));
     }
     assert(result.pixels.size() == final_size);
     assert(result.alpha.size() == final_size);
-- 
2.43.0


From 320d2d263b3fc3bbef64ce0ae196837b671d8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 101/119] fix: gray PNG images with less than 8 bits per pixel

---
 src/imagefileops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index b39fcd3..c848a6e 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -65,11 +65,13 @@ void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
     result.md.cs = CAPY_IMAGE_CS_GRAY;
 
     result.pixels.reserve(result.md.w * result.md.h);
+    const int bit_depth = png_get_bit_depth(png_ptr, info_ptr);
+    const int scale = bit_depth < 8 ? 255 / ((1 << bit_depth) - 1) : 1;
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
         std::byte *current_row = (std::byte *)rows[row_number];
         for(size_t i = 0; i < result.md.w; ++i) {
-            result.pixels.push_back(current_row[i]);
+            result.pixels.push_back(std::byte((int)current_row[i] * scale));
         }
     }
 }
-- 
2.43.0


From 410bd8f25712580d669e736fd009bad7f03874e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 102/119] fix: PNG images with 16 bits per sample

---
 src/imagefileops.cpp | 48 +++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index c848a6e..b220f40 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -23,26 +23,32 @@ const std::string_view JPG_SIG("\xff\xd8\xff", 3);
 const std::string_view TIF_SIG1("II*", 3);
 const std::string_view TIF_SIG2("MM", 2);
 
+// Samples of 16 bit images take two bytes in each row. PNG stores them
+// in the same byte order as PDF.
+size_t bytes_per_sample(png_struct *png_ptr, png_info *info_ptr) {
+    return png_get_bit_depth(png_ptr, info_ptr) == 16 ? 2 : 1;
+}
+
 void load_rgb_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
+    const size_t sample_size = bytes_per_sample(png_ptr, info_ptr);
+    result.md.pixel_depth = 8 * sample_size;
     result.md.cs = CAPY_IMAGE_CS_RGB;
     result.pixels.reserve(result.md.w * result.md.h * 3);
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
         std::byte *current_row = (std::byte *)rows[row_number];
-        for(size_t i = 0; i < result.md.w * 3; i += 3) {
+        for(size_t i = 0; i < result.md.w * 3 * sample_size; ++i) {
             result.pixels.push_back(current_row[i]);
-            result.pixels.push_back(current_row[i + 1]);
-            result.pixels.push_back(current_row[i + 2]);
         }
     }
 }
 
 void load_rgba_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
-    result.md.alpha_depth = 8;
+    const size_t sample_size = bytes_per_sample(png_ptr, info_ptr);
+    result.md.pixel_depth = 8 * sample_size;
+    result.md.alpha_depth = 8 * sample_size;
     result.md.cs = CAPY_IMAGE_CS_RGB;
 
     result.pixels.reserve(result.md.w * result.md.h * 3);
@@ -50,18 +56,21 @@ void load_rgba_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
         std::byte *current_row = (std::byte *)rows[row_number];
-        for(size_t i = 0; i < result.md.w * 4; i += 4) {
-            result.pixels.push_back(current_row[i]);
-            result.pixels.push_back(current_row[i + 1]);
-            result.pixels.push_back(current_row[i + 2]);
-            result.alpha.push_back(current_row[i + 3]);
+        for(size_t i = 0; i < result.md.w * 4 * sample_size; i += 4 * sample_size) {
+            for(size_t j = 0; j < 3 * sample_size; ++j) {
+                result.pixels.push_back(current_row[i + j]);
+            }
+            for(size_t j = 3 * sample_size; j < 4 * sample_size; ++j) {
+                result.alpha.push_back(current_row[i + j]);
+            }
         }
     }
 }
 
 void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
+    const size_t sample_size = bytes_per_sample(png_ptr, info_ptr);
+    result.md.pixel_depth = 8 * sample_size;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
 
     result.pixels.reserve(result.md.w * result.md.h);
@@ -70,7 +79,7 @@ void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
         std::byte *current_row = (std::byte *)rows[row_number];
-        for(size_t i = 0; i < result.md.w; ++i) {
+        for(size_t i = 0; i < result.md.w * sample_size; ++i) {
             result.pixels.push_back(std::byte((int)current_row[i] * scale));
         }
     }
@@ -78,17 +87,20 @@ void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
 
 void load_ga_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
-    result.md.pixel_depth = 8;
-    result.md.alpha_depth = 8;
+    const size_t sample_size = bytes_per_sample(png_ptr, info_ptr);
+    result.md.pixel_depth = 8 * sample_size;
+    result.md.alpha_depth = 8 * sample_size;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
 
     result.pixels.reserve(result.md.w * result.md.h);
     result.alpha.reserve(result.md.w * result.md.h);
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
         std::byte *current_row = (std::byte *)rows[row_number];
-        for(size_t i = 0; i < result.md.w * 2; i += 2) {
-            result.pixels.push_back(current_row[i]);
-            result.alpha.push_back(current_row[i + 1]);
+        for(size_t i = 0; i < result.md.w * 2 * sample_size; i += 2 * sample_size) {
+            for(size_t j = 0; j < sample_size; ++j) {
+                result.pixels.push_back(current_row[i + j]);
+                result.alpha.push_back(current_row[i + sample_size + j]);
+            }
         }
     }
 }
-- 
2.43.0


From 40ef29fcf2be00118ab3493f4608a3f0f9a84a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 103/119] fix: transparent color of gray and RGB PNG images

---
 src/imagefileops.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index b220f40..3f2857d 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -105,6 +105,33 @@ void load_ga_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result)
     }
 }
 
+// Gray and RGB images can define one color that is fully transparent.
+void load_color_key_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
+    png_color_16p key = nullptr;
+    if(png_get_tRNS(png_ptr, info_ptr, nullptr, nullptr, &key) != PNG_INFO_tRNS || !key) {
+        return;
+    }
+    unsigned char **rows = png_get_rows(png_ptr, info_ptr);
+    const size_t sample_size = bytes_per_sample(png_ptr, info_ptr);
+    const size_t num_channels = result.md.cs == CAPY_IMAGE_CS_RGB ? 3 : 1;
+    const uint32_t key_color[3] = {
+        num_channels == 3 ? key->red : key->gray, key->green, key->blue};
+    result.md.alpha_depth = 8;
+    result.alpha.reserve(result.md.w * result.md.h);
+    for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
+        const unsigned char *sample = rows[row_number];
+        for(size_t i = 0; i < result.md.w; ++i) {
+            bool is_key = true;
+            for(size_t j = 0; j < num_channels; ++j) {
+                const uint32_t value = sample_size == 2 ? sample[0] << 8 | sample[1] : sample[0];
+                is_key = is_key && value == key_color[j];
+                sample += sample_size;
+            }
+            result.alpha.push_back(std::byte{is_key ? (unsigned char)0 : (unsigned char)255});
+        }
+    }
+}
+
 bool is_white(const png_color *c) { return c->red == 255 && c->green == 255 && c->blue == 255; }
 bool is_white(const png_color &c) { return is_white(&c); }
 bool is_black(const png_color &c) { return c.red == 0 && c.green == 0 && c.blue == 0; }
@@ -223,8 +250,10 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         load_rgba_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_RGB) {
         load_rgb_png(png_ptr, info_ptr, image);
+        load_color_key_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY) {
         load_gray_png(png_ptr, info_ptr, image);
+        load_color_key_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY_ALPHA) {
         load_ga_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_PALETTE) {
-- 
2.43.0


From f35ccf4886ee4ec80f330e464da9d246b715af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 104/119] fix: embedded ICC profiles have the declared number
 of channels

---
 src/document.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 87ac06b..e2b9d07 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1474,13 +1474,17 @@ PdfDocument::find_icc_profile(std::span<std::byte> contents) {
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte> contents,
                                                            int32_t num_channels) {
+    if(contents.empty()) {
+        return CapyPDF_IccColorSpaceId{-1};
+    }
+    ERC(profile_channels, cm.get_num_channels(contents));
+    if(profile_channels != num_channels) {
+        RETERR(IncorrectColorChannelCount);
+    }
     auto existing = find_icc_profile(contents);
     if(existing) {
         return existing.value();
     }
-    if(contents.empty()) {
-        return CapyPDF_IccColorSpaceId{-1};
-    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/N", num_channels);
-- 
2.43.0


From 5055cfb65a0b2bb2dec185e5bcf7e9a5d295db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 105/119] fix: adding an empty ICC profile is an error

---
 src/document.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e2b9d07..e662b0e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1474,9 +1474,6 @@ PdfDocument::find_icc_profile(std::span<std::byte> contents) {
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte> contents,
                                                            int32_t num_channels) {
-    if(contents.empty()) {
-        return CapyPDF_IccColorSpaceId{-1};
-    }
     ERC(profile_channels, cm.get_num_channels(contents));
     if(profile_channels != num_channels) {
         RETERR(IncorrectColorChannelCount);
-- 
2.43.0


From f5233199516e766dc02cd322354c818a221d590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 106/119] fix: scale the samples of gray PNG images by their
 depth in the file

---
 src/imagefileops.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 3f2857d..a39db6c 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -67,14 +67,17 @@ void load_rgba_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
     }
 }
 
-void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
+// Each sample of these images is unpacked to a byte of its own.
+void load_gray_png(png_struct *png_ptr,
+                   png_info *info_ptr,
+                   const int bit_depth,
+                   RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
     const size_t sample_size = bytes_per_sample(png_ptr, info_ptr);
     result.md.pixel_depth = 8 * sample_size;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
 
     result.pixels.reserve(result.md.w * result.md.h);
-    const int bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     const int scale = bit_depth < 8 ? 255 / ((1 << bit_depth) - 1) : 1;
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
@@ -232,7 +235,7 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
     return NoReturnValue{};
 }
 
-rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
+rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr, const int bit_depth) {
     RawPixelImage image;
     image.md.w = png_get_image_width(png_ptr, info_ptr);
     image.md.h = png_get_image_height(png_ptr, info_ptr);
@@ -252,7 +255,7 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         load_rgb_png(png_ptr, info_ptr, image);
         load_color_key_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY) {
-        load_gray_png(png_ptr, info_ptr, image);
+        load_gray_png(png_ptr, info_ptr, bit_depth, image);
         load_color_key_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY_ALPHA) {
         load_ga_png(png_ptr, info_ptr, image);
@@ -486,6 +489,14 @@ rvoe<RasterImage> load_tif_from_memory(const char *buf, int64_t bufsize) {
     return do_tiff_load(tif);
 }
 
+// After the image has been read libpng only tells the unpacked bit depth.
+int stored_bit_depth(FILE *f) {
+    unsigned char header[25];
+    const auto num_read = fread(header, 1, sizeof(header), f);
+    rewind(f);
+    return num_read == sizeof(header) ? header[24] : 8;
+}
+
 rvoe<RasterImage> load_png_file(FILE *f) {
     struct PngCloser {
         png_struct *p = nullptr;
@@ -496,6 +507,7 @@ rvoe<RasterImage> load_png_file(FILE *f) {
             png_destroy_read_struct(&p, nullptr, nullptr);
         }
     };
+    const int bit_depth = stored_bit_depth(f);
     PngCloser pclose;
     pclose.p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
     pclose.i = png_create_info_struct(pclose.p);
@@ -505,7 +517,7 @@ rvoe<RasterImage> load_png_file(FILE *f) {
     }
     png_init_io(pclose.p, f);
     png_read_png(pclose.p, pclose.i, PNG_TRANSFORM_PACKING, nullptr);
-    return do_png_load(pclose.p, pclose.i);
+    return do_png_load(pclose.p, pclose.i, bit_depth);
 }
 
 rvoe<RasterImage> load_png_file(const char *fname) {
-- 
2.43.0


From 03fdb0468f2bc47c812935172386fb52c577f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 107/119] fix: variation axis values that are negative or
 exceed 16 bits

---
 src/document.cpp  | 3 ++-
 src/pdfcommon.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e662b0e..68f82b4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -417,7 +417,8 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
             memcpy(unpacked_tag, &swapped, 4);
             if(key == unpacked_tag) {
                 matched = true;
-                var_coords[i] = value << 16; // Stored in OpenType as 16x16 fixed point.
+                // Stored in OpenType as 16x16 fixed point. Freetype clamps to the range of the axis.
+                var_coords[i] = FT_Fixed(std::clamp(value, INT16_MIN, INT16_MAX)) * 65536;
                 break;
             }
         }
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index c31d46d..5dcad0f 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -656,7 +656,7 @@ struct FontProperties : public _capyPDF_FontProperties {
     // - Vertical or Horizontal writing
     // - Other CID metadata at al
 
-    std::unordered_map<std::string, uint32_t> variations;
+    std::unordered_map<std::string, int32_t> variations;
     std::optional<uint32_t> instance_index;
 
     bool has_variations() const { return instance_index || !variations.empty(); }
-- 
2.43.0


From 757084759e578020258c01c76c79d249b2cc8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 108/119] fix: checksum adjustment of embedded fonts is stored
 in its own field

---
 src/ft_subsetter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index a86d784..8f5e67a 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -774,6 +774,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     tf.head.checksum_adjustment = 0;
     // const auto start_of_head = odata.length(); // For checksum adjustment.
     tf.head.swap_endian();
+    align_table(odata);
     const auto head_offset = odata.size();
     directory.push_back(write_raw_table(
         odata, "head", std::span<const std::byte>((const std::byte *)&tf.head, sizeof(tf.head))));
-- 
2.43.0


From f94963d0db2ca8d80bb7a2a61f86fb7ddbf2692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 109/119] fix: report an error when the position in the output
 file is not known

---
 src/pdfwriter.cpp | 29 +++++++++++++++++++----------
 src/pdfwriter.hpp |  1 +
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 097b6c0..242c2d5 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -305,19 +305,32 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(FILE *output_file) {
 #endif
 }
 
+rvoe<int64_t> PdfWriter::current_offset() {
+#ifdef _MSC_VER
+    const int64_t offset = _ftelli64(ofile);
+#else
+    const int64_t offset = ftell(ofile);
+#endif
+    if(offset < 0) {
+        perror(nullptr);
+        RETERR(FileWriteError);
+    }
+    return offset;
+}
+
 rvoe<NoReturnValue> PdfWriter::write_to_file_impl() {
     ERCV(write_header());
     ERCV(doc.create_catalog());
     ERC(final_offsets, write_objects());
     compressed_object_number = final_offsets.size();
     if(use_xref) {
-        const int64_t objstm_offset = ftell(ofile);
+        ERC(objstm_offset, current_offset());
         ERCV(write_main_objstm(final_offsets));
-        const int64_t xref_offset = ftell(ofile);
+        ERC(xref_offset, current_offset());
         ERCV(write_cross_reference_stream(final_offsets, objstm_offset));
         ERCV(write_newstyle_trailer(xref_offset));
     } else {
-        const int64_t xref_offset = ftell(ofile);
+        ERC(xref_offset, current_offset());
         ERCV(write_cross_reference_table(final_offsets));
         ERCV(write_oldstyle_trailer(xref_offset));
     }
@@ -519,12 +532,7 @@ PdfWriter::write_cross_reference_stream(const std::vector<ObjectOffset> &final_o
         final_offsets.size() + 2; // One for objstm, one for this object.
     const size_t entry_size = 1 + 4 + 4;
     const int32_t root = total_number_of_objects - 3;
-    const uint64_t this_object_offset64 =
-#ifdef _MSC_VER
-        _ftelli64(ofile);
-#else
-        ftell(ofile);
-#endif
+    ERC(this_object_offset64, current_offset());
     if(objstm_offset64 > ((uint32_t)-1)) {
         RETERR(XRefOffsetTooBig);
     }
@@ -657,7 +665,8 @@ rvoe<NoReturnValue> PdfWriter::write_finished_object(int32_t object_number,
         return write_finished_object_to_objstm(dict_data);
     }
     std::string buf;
-    object_offsets.emplace_back(false, ftell(ofile));
+    ERC(offset, current_offset());
+    object_offsets.emplace_back(false, offset);
 
     auto appender = std::back_inserter(buf);
     std::format_to(appender, "{} 0 obj\n", object_number);
diff --git a/src/pdfwriter.hpp b/src/pdfwriter.hpp
index eee691c..07b0652 100644
--- a/src/pdfwriter.hpp
+++ b/src/pdfwriter.hpp
@@ -21,6 +21,7 @@ private:
     rvoe<NoReturnValue> write_to_file(FILE *output_file);
     rvoe<NoReturnValue> write_to_file_impl();
 
+    rvoe<int64_t> current_offset();
     rvoe<NoReturnValue> write_bytes(const char *buf,
                                     size_t buf_size); // With error checking.
     rvoe<NoReturnValue> write_bytes(std::string_view view) {
-- 
2.43.0


From 3805bc1eac43959e0b8b6f6e107674e1786f554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 110/119] fix: embedded file and form field builders keep their
 contents when they are used

---
 src/document.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 68f82b4..d414987 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2179,7 +2179,7 @@ rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
         CHECK_INDEXNESS_V(field.parent->id, form_fields);
     }
     auto field_id = (int32_t)form_fields.size();
-    auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
+    auto obj_id = add_object(DelayedFormField{{field_id}, field});
     form_fields.push_back((int32_t)obj_id);
     return CapyPDF_FormFieldId{field_id};
 }
@@ -2198,7 +2198,7 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         if(!ef.subtype.empty()) {
             fmt.add_token_pair("/Subtype", bytes2pdfstringliteral(ef.subtype.sv()));
         }
-        fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::move(ef.contents))});
+        fileobj_id = add_object(DeflatePDFObject{std::move(fmt), RawData(std::span<std::byte>(ef.contents))});
     }
 
     {
@@ -2214,7 +2214,9 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         fmt.end_dict();
         fmt.end_dict();
         auto filespec_id = add_object(FullPDFObject{fmt.steal(), {}});
-        embedded_files.emplace_back(EmbeddedFileObject{ef, filespec_id, fileobj_id});
+        // The contents are in the stream object already.
+        embedded_files.emplace_back(EmbeddedFileObject{
+            EmbeddedFile{{}, {}, ef.pdfname, ef.subtype, ef.description}, filespec_id, fileobj_id});
     }
     return CapyPDF_EmbeddedFileId{(int32_t)embedded_files.size() - 1};
 }
-- 
2.43.0


From 5410e91413bf084ff57cec59a3a210ad9ef60ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 111/119] fix: builders passed to other builders can be used
 again

---
 src/capi.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 720e5d1..1124e12 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -765,7 +765,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_3d_stream(CapyPDF_Generator *gen,
     API_BOUNDARY_START;
     auto *g = static_cast<PdfGen *>(gen);
     auto *three = static_cast<ThreeDStream *>(stream);
-    auto rc = g->add_3d_stream(std::move(*three));
+    auto rc = g->add_3d_stream(*three);
     if(rc) {
         *out_ptr = rc.value();
     }
@@ -934,7 +934,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_set_collection(CapyPDF_Generator *gen,
     auto *g = static_cast<PdfGen *>(gen);
     auto *c = static_cast<Collection *>(coll);
 
-    return conv_err(g->set_collection(std::move(*c)));
+    return conv_err(g->set_collection(*c));
 
     API_BOUNDARY_END;
 }
@@ -1461,7 +1461,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_append_viewport(CapyPDF_DrawContext *ctx,
     API_BOUNDARY_START;
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     auto *vp = static_cast<Viewport *>(vport);
-    auto rc = dc->append_viewport(std::move(*vp));
+    auto rc = dc->append_viewport(*vp);
     return conv_err(rc);
     API_BOUNDARY_END;
 }
@@ -2122,7 +2122,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_HT(CapyPDF_GraphicsState *stat
                                                      CapyPDF_Halftone *ht) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
     auto *s = static_cast<GraphicsState *>(state);
-    s->HT = std::move(ht->ht);
+    s->HT = ht->ht;
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3383,7 +3383,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_viewport_set_measure(CapyPDF_Viewport *vp,
     API_BOUNDARY_START;
     auto *vport = static_cast<Viewport *>(vp);
     auto *m = static_cast<RectilinearMeasure *>(measure);
-    vport->measure = std::move(*m);
+    vport->measure = *m;
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3407,7 +3407,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_X(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->X.push_back(std::move(*nf));
+    meas->X.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3417,7 +3417,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_Y(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->Y.push_back(std::move(*nf));
+    meas->Y.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3427,7 +3427,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_D(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->D.push_back(std::move(*nf));
+    meas->D.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3437,7 +3437,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_measure_append_A(CapyPDF_Measure *m,
     API_BOUNDARY_START;
     auto *meas = static_cast<RectilinearMeasure *>(m);
     auto *nf = static_cast<NumberFormat *>(f);
-    meas->A.push_back(std::move(*nf));
+    meas->A.push_back(*nf);
     RETNOERR;
     API_BOUNDARY_END;
 }
@@ -3498,7 +3498,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
     API_BOUNDARY_START;
     auto *c = static_cast<Collection *>(coll);
     auto *s = static_cast<CollectionSchema *>(schema);
-    c->schema = std::move(*s);
+    c->schema = *s;
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From 0de86664f4da681e1d1db5c7c6c8965a0e108167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 112/119] fix: release the FreeType variation data when a font
 instance cannot be selected

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index d414987..587d651 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -390,6 +390,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
         error = FT_Get_Default_Named_Instance(face, &named_instance);
         if(error != 0) {
             print_freetype_error(error);
+            FT_Done_MM_Var(face->glyph->library, mmvar);
             RETERR(FreeTypeError);
         }
     }
@@ -397,6 +398,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
     error = FT_Set_Named_Instance(face, named_instance);
     if(error != 0) {
         print_freetype_error(error);
+        FT_Done_MM_Var(face->glyph->library, mmvar);
         RETERR(FreeTypeError);
     }
 
-- 
2.43.0


From 3370b7dfeb37a2f55651bf52018252d0c3cbb852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 113/119] fix: numbers that are not finite are errors

---
 src/capi.cpp          | 86 +++++++++++++++++++++++++++++++++++++++++++
 src/errorhandling.cpp |  1 +
 src/errorhandling.hpp |  1 +
 3 files changed, 88 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 1124e12..2bf411d 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -8,6 +8,7 @@
 #include <drawcontext.hpp>
 #include <errorhandling.hpp>
 
+#include <cmath>
 #include <filesystem>
 
 #define RETNOERR return conv_err(ErrorCode::NoError)
@@ -17,6 +18,16 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_FINITE(...)                                                                          \
+    if(!all_finite({__VA_ARGS__})) {                                                               \
+        return conv_err(ErrorCode::NumberNotFinite);                                               \
+    }
+
+#define CHECK_FINITE_ARRAY(arr, size)                                                              \
+    if(!all_finite(arr, size)) {                                                                   \
+        return conv_err(ErrorCode::NumberNotFinite);                                               \
+    }
+
 #define CHECK_ENUM_ARG(v, max_enum_val)                                                            \
     if((int)v < 0 || ((int)v > (int)max_enum_val)) {                                               \
         return conv_err(ErrorCode::BadEnum);                                                       \
@@ -63,6 +74,16 @@ template<typename T> [[nodiscard]] CapyPDF_EC conv_err(const rvoe<T> &rc) {
     return (CapyPDF_EC)(rc ? ErrorCode::NoError : rc.error());
 }
 
+// PDF files can not contain infinities or NaNs.
+bool all_finite(const double *values, int32_t num_values) {
+    return !values || num_values <= 0 ||
+           std::all_of(values, values + num_values, [](double v) { return std::isfinite(v); });
+}
+
+bool all_finite(std::initializer_list<double> values) {
+    return all_finite(values.begin(), values.size());
+}
+
 rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
     if(!buf) {
         RETERR(ArgIsNull);
@@ -277,6 +298,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_page_properties_set_pagebox(CapyPDF_PagePropertie
                                                            double x2,
                                                            double y2) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     auto props = static_cast<PageProperties *>(pageprops);
     switch(boxtype) {
     case CAPY_BOX_MEDIA:
@@ -814,6 +836,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_lab_colorspace(CapyPDF_Generator *g
                                                             CapyPDF_LabColorSpaceId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(xw, yw, zw, amin, amax, bmin, bmax);
     auto *g = static_cast<PdfGen *>(gen);
     LabColorSpace cl;
     cl.xw = xw;
@@ -1068,6 +1091,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_c(CapyPDF_DrawContext *ctx,
                                         double x3,
                                         double y3) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2, x3, y3);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_c(x1, y1, x2, y2, x3, y3));
     API_BOUNDARY_END;
@@ -1081,6 +1105,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_cm(CapyPDF_DrawContext *ctx,
                                          double m5,
                                          double m6) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(m1, m2, m3, m4, m5, m6);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_cm(m1, m2, m3, m4, m5, m6));
     API_BOUNDARY_END;
@@ -1091,6 +1116,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_d(CapyPDF_DrawContext *ctx,
                                         int32_t array_size,
                                         double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(phase);
+    CHECK_FINITE_ARRAY(dash_array, array_size);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1165,6 +1192,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_h(CapyPDF_DrawContext *ctx) CAPYPDF_NOEXCE
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_i(CapyPDF_DrawContext *ctx,
                                         double flatness) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(flatness);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_i(flatness));
     API_BOUNDARY_END;
@@ -1206,6 +1234,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_l(CapyPDF_DrawContext *ctx,
                                         double x,
                                         double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     return conv_err(dc->cmd_l(x, y));
     API_BOUNDARY_END;
@@ -1215,6 +1244,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_m(CapyPDF_DrawContext *ctx,
                                         double x,
                                         double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_m(x, y));
     API_BOUNDARY_END;
@@ -1223,6 +1253,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_m(CapyPDF_DrawContext *ctx,
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_M(CapyPDF_DrawContext *ctx,
                                         double miterlimit) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(miterlimit);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_M(miterlimit));
     API_BOUNDARY_END;
@@ -1252,6 +1283,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_Q(CapyPDF_DrawContext *ctx) CAPYPDF_NOEXCE
 CapyPDF_EC
 capy_dc_cmd_re(CapyPDF_DrawContext *ctx, double x, double y, double w, double h) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y, w, h);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_re(x, y, w, h));
     API_BOUNDARY_END;
@@ -1304,6 +1336,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_sh(CapyPDF_DrawContext *ctx,
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_v(
     CapyPDF_DrawContext *ctx, double x2, double y2, double x3, double y3) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x2, y2, x3, y3);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_v(x2, y2, x3, y3));
     API_BOUNDARY_END;
@@ -1312,6 +1345,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_v(
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_w(CapyPDF_DrawContext *ctx,
                                         double line_width) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(line_width);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_w(line_width));
     API_BOUNDARY_END;
@@ -1334,6 +1368,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_Wstar(CapyPDF_DrawContext *ctx) CAPYPDF_NO
 CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_y(
     CapyPDF_DrawContext *ctx, double x1, double y1, double x3, double y3) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x3, y3);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     return conv_err(c->cmd_y(x1, y1, x3, y3));
     API_BOUNDARY_END;
@@ -1363,6 +1398,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_render_text(CapyPDF_DrawContext *ctx,
                                               double x,
                                               double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(point_size, x, y);
     auto *c = static_cast<PdfDrawContext *>(ctx);
     auto utxt = validate_utf8(text, strsize);
     if(!utxt) {
@@ -1425,6 +1461,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_set_group_matrix(CapyPDF_DrawContext *ctx,
                                                    double e,
                                                    double f) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(a, b, c, d, e, f);
     auto *dc = static_cast<PdfDrawContext *>(ctx);
     PdfMatrix m{a, b, c, d, e, f};
     return conv_err(dc->set_group_matrix(m));
@@ -1480,6 +1517,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_xobject_new(CapyPDF_Generator *gen,
                                                 double t,
                                                 CapyPDF_DrawContext **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, b, r, t);
     auto *g = static_cast<PdfGen *>(gen);
     auto bbox = PdfRectangle::construct(l, b, r, t);
     if(!bbox) {
@@ -1494,6 +1532,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_new(
     CapyPDF_Generator *gen, double l, double b, double r, double t, CapyPDF_DrawContext **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, b, r, t);
     auto *g = static_cast<PdfGen *>(gen);
     auto bbox = PdfRectangle::construct(l, b, r, t);
     if(!bbox) {
@@ -1511,6 +1550,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_tiling_pattern_context_new(CapyPDF_Generator *gen
                                                           double r,
                                                           double t) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, b, r, t);
     auto *g = static_cast<PdfGen *>(gen);
     auto bbox = PdfRectangle::construct(l, b, r, t);
     if(!bbox) {
@@ -1655,12 +1695,14 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_set_stroke(CapyPDF_Text *text,
 
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_w(CapyPDF_Text *text, double line_width) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(line_width);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_w(line_width));
     API_BOUNDARY_END;
 }
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_M(CapyPDF_Text *text, double miterlimit) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(miterlimit);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_M(miterlimit));
     API_BOUNDARY_END;
@@ -1686,6 +1728,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_d(CapyPDF_Text *text,
                                           int32_t array_size,
                                           double phase) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(phase);
+    CHECK_FINITE_ARRAY(dash_array, array_size);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_d(dash_array, array_size, phase));
     API_BOUNDARY_END;
@@ -1715,6 +1759,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_EMC(CapyPDF_Text *text) CAPYPDF_NOEXCEPT
 
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tc(CapyPDF_Text *text, double spacing) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(spacing);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tc(spacing));
     API_BOUNDARY_END;
@@ -1724,6 +1769,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Td(CapyPDF_Text *text,
                                            double x,
                                            double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Td(x, y));
     API_BOUNDARY_END;
@@ -1733,6 +1779,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_TD(CapyPDF_Text *text,
                                            double x,
                                            double y) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x, y);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_TD(x, y));
     API_BOUNDARY_END;
@@ -1742,6 +1789,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tf(CapyPDF_Text *text,
                                            CapyPDF_FontId font,
                                            double pointsize) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(pointsize);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tf(font, pointsize));
     API_BOUNDARY_END;
@@ -1759,6 +1807,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_TJ(CapyPDF_Text *text,
 
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_TL(CapyPDF_Text *text, double leading) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(leading);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_TL(leading));
     API_BOUNDARY_END;
@@ -1772,6 +1821,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_cmd_Tm(CapyPDF_Text *text,
                                            double e,
                                            double f) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(a, b, c, d, e, f);
     auto *t = static_cast<PdfText *>(text);
     return conv_err(t->cmd_Tm(PdfMatrix{a, b, c, d, e, f}));
     API_BOUNDARY_END;
@@ -1842,6 +1892,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_icc(CapyPDF_Color *color,
                                              double *values,
                                              int32_t num_values) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(values, num_values);
     ICCColor icc;
     icc.id = icc_id;
     icc.values.assign(values, values + num_values);
@@ -1854,6 +1905,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_separation(CapyPDF_Color *color,
                                                     CapyPDF_SeparationId sep_id,
                                                     double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     if(value < 0 || value > 1.0) {
         return conv_err(ErrorCode::ColorOutOfRange);
     }
@@ -1876,6 +1928,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_color_set_lab(CapyPDF_Color *color,
                                              double a,
                                              double b) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(l, a, b);
     color->c = LabColor{lab_id, l, a, b};
     RETNOERR;
     API_BOUNDARY_END;
@@ -1901,6 +1954,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_S(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
                                                 double duration) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(duration);
     auto pt = static_cast<Transition *>(tr);
     pt->duration = duration;
     RETNOERR;
@@ -1939,6 +1993,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_Di(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_SS(CapyPDF_Transition *tr,
                                                  double scale) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(scale);
     auto pt = static_cast<Transition *>(tr);
     pt->SS = scale;
     RETNOERR;
@@ -2008,6 +2063,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_SMask(CapyPDF_GraphicsState *s
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_CA(CapyPDF_GraphicsState *state,
                                                      double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     auto *s = static_cast<GraphicsState *>(state);
     s->CA = LimitDouble{value};
     RETNOERR;
@@ -2017,6 +2073,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_CA(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_ca(CapyPDF_GraphicsState *state,
                                                      double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     auto *s = static_cast<GraphicsState *>(state);
     s->ca = LimitDouble{value};
     RETNOERR;
@@ -2067,6 +2124,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_OPM(CapyPDF_GraphicsState *sta
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_FL(CapyPDF_GraphicsState *state,
                                                      double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     auto *s = static_cast<GraphicsState *>(state);
     if(value < 0) {
         return conv_err(ErrorCode::InvalidFlatness);
@@ -2079,6 +2137,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_FL(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_SM(CapyPDF_GraphicsState *state,
                                                      double value) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(value);
     auto *s = static_cast<GraphicsState *>(state);
     if(value < 0 || value > 1.0) {
         return conv_err(ErrorCode::InvalidFlatness);
@@ -2337,6 +2396,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_function_new(double *domain,
                                                   double n,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(n);
+    CHECK_FINITE_ARRAY(domain, domain_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType2{std::vector<double>(domain, domain + domain_size), c1->c, c2->c, n}});
     RETNOERR;
@@ -2360,6 +2421,9 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_function_new(double *domain,
                                                   int32_t encode_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(domain, domain_size);
+    CHECK_FINITE_ARRAY(bounds, bounds_size);
+    CHECK_FINITE_ARRAY(encode, encode_size);
     *out_ptr = new _capyPDF_Function(PdfFunction{
         FunctionType3{std::vector<double>(domain, domain + domain_size),
                       std::vector<CapyPDF_FunctionId>(functions, functions + functions_size),
@@ -2377,6 +2441,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_function_new(double *domain,
                                                   int32_t code_size,
                                                   CapyPDF_Function **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(domain, domain_size);
+    CHECK_FINITE_ARRAY(range, range_size);
     auto rc = validate_cstring(code, code_size);
     if(!rc) {
         return conv_err(rc.error());
@@ -2397,6 +2463,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x0, y0, x1, y1);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(PdfShading{ShadingType2{cs, x0, y0, x1, y1, func}});
     RETNOERR;
@@ -2425,6 +2492,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_shading_set_domain(CapyPDF_Shading *shade,
                                                   double starting,
                                                   double ending) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(starting, ending);
     if(auto *t2 = std::get_if<ShadingType2>(&shade->sh)) {
         t2->domain = ShadingDomain{starting, ending};
     } else if(auto *t3 = std::get_if<ShadingType3>(&shade->sh)) {
@@ -2448,6 +2516,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 6);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(
         ShadingType3{cs, coords[0], coords[1], coords[2], coords[3], coords[4], coords[5], func});
@@ -2462,6 +2531,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(minx, miny, maxx, maxy);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType4{{}, minx, miny, maxx, maxy, cs});
     RETNOERR;
@@ -2471,6 +2541,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
 CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_add_triangle(
     CapyPDF_Shading *shade, const double *coords, const CapyPDF_Color **color) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 6);
     auto *sh4 = std::get_if<ShadingType4>(&shade->sh);
     if(!sh4) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2488,6 +2559,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_extend(CapyPDF_Shading *shade,
                                                     const double *coords,
                                                     const CapyPDF_Color *color) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 2);
     auto *sh4 = std::get_if<ShadingType4>(&shade->sh);
     if(!sh4) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2512,6 +2584,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(minx, miny, maxx, maxy);
     CHECK_ENUM_ARG(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType6{
         {},
@@ -2528,6 +2601,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
 CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_add_patch(
     CapyPDF_Shading *shade, const double *coords, const CapyPDF_Color **colors) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 24);
     auto *sh6 = std::get_if<ShadingType6>(&shade->sh);
     if(!sh6) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2544,6 +2618,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_extend(CapyPDF_Shading *shade,
                                                     const double *coords,
                                                     const CapyPDF_Color **colors) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(coords, 16);
     auto *sh6 = std::get_if<ShadingType6>(&shade->sh);
     if(!sh6) {
         return conv_err(ErrorCode::IncorrectShadingType);
@@ -2592,6 +2667,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_line_annotation_new(const char *utf8_text,
                                                    double y2,
                                                    CapyPDF_Annotation **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     auto u8str = validate_utf8(utf8_text, strsize);
     if(!u8str) {
         return conv_err(u8str);
@@ -2670,6 +2746,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_uri(CapyPDF_Annotation *annotation
 CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_rectangle(
     CapyPDF_Annotation *annotation, double x1, double y1, double x2, double y2) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     auto *a = static_cast<Annotation *>(annotation);
     a->rect = PdfRectangle{x1, y1, x2, y2};
     RETNOERR;
@@ -2702,6 +2779,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_line_leader(CapyPDF_Annotation *an
                                                           double LL,
                                                           double LLE) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(LL, LLE);
     auto *a = static_cast<Annotation *>(annotation);
     if(auto *line = std::get_if<LineAnnotation>(&a->sub)) {
         line->leaders = Leaders{LL, LLE};
@@ -2903,6 +2981,9 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_destination_set_page_xyz(CapyPDF_Destination *des
                                                         double *y,
                                                         double *z) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE_ARRAY(x, 1);
+    CHECK_FINITE_ARRAY(y, 1);
+    CHECK_FINITE_ARRAY(z, 1);
     auto *d = static_cast<Destination *>(dest);
     if(physical_page_number < 0) {
         return conv_err(ErrorCode::InvalidPageNumber);
@@ -2965,6 +3046,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_outline_set_destination(
 CAPYPDF_PUBLIC CapyPDF_EC capy_outline_set_C(CapyPDF_Outline *outline, double r, double g, double b)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(r, g, b);
     auto *o = static_cast<Outline *>(outline);
     o->C = DeviceRGBColor{r, g, b};
     RETNOERR;
@@ -3012,6 +3094,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_shading_pattern_set_matrix(CapyPDF_ShadingPattern
                                                           double e,
                                                           double f) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(a, b, c, d, e, f);
     auto *p = static_cast<ShadingPattern *>(shp);
     p->m = PdfMatrix{a, b, c, d, e, f};
     RETNOERR;
@@ -3233,6 +3316,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_halftone_set_type1(CapyPDF_Halftone *ht,
                                                   CapyPDF_Halftone_Spot_Function htspot)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(frequency, angle);
     CHECK_ENUM_ARG(htspot, CAPY_HT_FUNC_DIAMOND);
     ht->ht = HalftoneType1{frequency, angle, htspot};
     RETNOERR;
@@ -3373,6 +3457,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_destroy(CapyPDF_FormField *field) CAPY
 CAPYPDF_PUBLIC CapyPDF_EC capy_viewport_new(
     double x1, double y1, double x2, double y2, CapyPDF_Viewport **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(x1, y1, x2, y2);
     *out_ptr = new Viewport{{}, PdfRectangle{x1, y1, x2, y2}, {}, {}};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3454,6 +3539,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_number_format_new(const char *name,
                                                  double C,
                                                  CapyPDF_NumberFormat **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_FINITE(C);
     auto rc = validate_utf8(name, namelen);
     if(!rc) {
         return conv_err(rc);
diff --git a/src/errorhandling.cpp b/src/errorhandling.cpp
index 7a5f15c..16208b9 100644
--- a/src/errorhandling.cpp
+++ b/src/errorhandling.cpp
@@ -105,6 +105,7 @@ const std::array<const char *, (std::size_t)ErrorCode::NumErrors> error_texts{
 "The metadata XML must contain a \"pdf:Producer\" entry with the value \"CapyPDF\".",
 "Collection object already exists.",
 "Output file too big for xref table. Please report this issue in CapyPDF bug tracker.",
+"Numbers must be finite.",
 };
 
 // clang-format on
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index 0dfd646..796af1b 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -103,6 +103,7 @@ enum class ErrorCode : int32_t {
     ProducerMissingCapy,
     CollectionExists,
     XRefOffsetTooBig,
+    NumberNotFinite,
 
     // When you add an error code here, also add the string representation in the .cpp file.
     NumErrors,
-- 
2.43.0


From ae0e179f5e8d45c52b2b26532eeaa22c33f4b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 114/119] fix: two page labels for the same page are an error

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 587d651..29cbecf 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -696,7 +696,7 @@ PdfDocument::add_page_labeling(uint32_t start_page,
                                std::optional<CapyPDF_Page_Label_Number_Style> style,
                                std::optional<u8string> prefix,
                                std::optional<uint32_t> start_num) {
-    if(!page_labels.empty() && page_labels.back().start_page > start_page) {
+    if(!page_labels.empty() && page_labels.back().start_page >= start_page) {
         RETERR(NonSequentialPageNumber);
     }
     page_labels.emplace_back(start_page, style, std::move(prefix), start_num);
-- 
2.43.0


From 82594072050d732dc1fefd0869f013517e7816f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 115/119] fix: text width with any point size

---
 src/document.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 29cbecf..2af6525 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2326,12 +2326,12 @@ rvoe<CapyPDF_SoftMaskId> PdfDocument::add_soft_mask(const SoftMask &sm) {
 std::optional<double>
 PdfDocument::glyph_advance(CapyPDF_FontId fid, double pointsize, uint32_t codepoint) const {
     FT_Face face = fonts.at(fid.id).fontdata.face.get();
-    FT_Set_Char_Size(face, 0, (FT_F26Dot6)(pointsize * 64), 300, 300);
-    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP) != 0) {
+    // Freetype can not scale to sizes smaller than one point or to very big ones.
+    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_SCALE) != 0) {
         return {};
     }
     const auto font_unit_advance = face->glyph->metrics.horiAdvance;
-    return (font_unit_advance / 64.0) / 300.0 * 72.0;
+    return font_unit_advance * pointsize / face->units_per_EM;
 }
 
 rvoe<CapyPDF_FontId>
-- 
2.43.0


From bcf936f23cb57def85dd848c621e8d094c061233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 116/119] fix: negative line width in a text object is an error

---
 src/drawcontext.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 9a50488..cad3d2f 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1006,6 +1006,9 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_text(const PdfText &textobj) {
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
+            if(w.width < 0) {
+                RETERR(NegativeLineWidth);
+            }
             cmds.append_command(w.width, "w");
             RETOK;
         },
-- 
2.43.0


From 3cfb17a1ec4dcff8f5ad69f7ec475d38bd2a3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 117/119] fix: annotating something else than a page is an
 error

---
 src/drawcontext.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index cad3d2f..2fb74b5 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -245,6 +245,9 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    if(context_type != CAPY_DC_PAGE) {
+        RETERR(InvalidDrawContextType);
+    }
     CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
-- 
2.43.0


From 0582bcf368a8f430da602902ccffde786acc7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 118/119] fix: invalid Unicode codepoints are errors

---
 src/capi.cpp          | 7 +++++++
 src/errorhandling.cpp | 1 +
 src/errorhandling.hpp | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 2bf411d..02bfa26 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -13,6 +13,11 @@
 
 #define RETNOERR return conv_err(ErrorCode::NoError)
 
+#define CHECK_CODEPOINT(c)                                                                         \
+    if((c) > 0x10FFFF || ((c) >= 0xD800 && (c) <= 0xDFFF)) {                                       \
+        return conv_err(ErrorCode::BadCodepoint);                                                  \
+    }
+
 #define CHECK_BOOLEAN(b)                                                                           \
     if(b < 0 || b > 1) {                                                                           \
         return conv_err(ErrorCode::BadBoolean);                                                    \
@@ -1573,6 +1578,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_sequence_new(CapyPDF_TextSequence **out_ptr)
 CAPYPDF_PUBLIC CapyPDF_EC capy_text_sequence_append_codepoint(CapyPDF_TextSequence *tseq,
                                                               uint32_t codepoint) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_CODEPOINT(codepoint);
     auto *ts = static_cast<TextSequence *>(tseq);
     auto rc = ts->append_unicode(codepoint);
     return conv_err(rc);
@@ -1633,6 +1639,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_sequence_append_raw_glyph(CapyPDF_TextSequen
     if(glyph_id == 0) {
         return conv_err(ErrorCode::MissingGlyph);
     }
+    CHECK_CODEPOINT(codepoint);
     auto rc = ts->append_raw_glyph(glyph_id, codepoint);
     return conv_err(rc);
     API_BOUNDARY_END;
diff --git a/src/errorhandling.cpp b/src/errorhandling.cpp
index 16208b9..8f03249 100644
--- a/src/errorhandling.cpp
+++ b/src/errorhandling.cpp
@@ -106,6 +106,7 @@ const std::array<const char *, (std::size_t)ErrorCode::NumErrors> error_texts{
 "Collection object already exists.",
 "Output file too big for xref table. Please report this issue in CapyPDF bug tracker.",
 "Numbers must be finite.",
+"Not a valid Unicode codepoint.",
 };
 
 // clang-format on
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index 796af1b..709f31a 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -104,6 +104,7 @@ enum class ErrorCode : int32_t {
     CollectionExists,
     XRefOffsetTooBig,
     NumberNotFinite,
+    BadCodepoint,
 
     // When you add an error code here, also add the string representation in the .cpp file.
     NumErrors,
-- 
2.43.0


From 44d34c2c48b66e0262a30e0b3e4a7d6409714609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 119/119] fix: only ICC profiles that PDF permits can be
 embedded

---
 src/colorconverter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 4f77e7d..e65001f 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -299,9 +299,20 @@ rvoe<int> PdfColorConverter::get_num_channels(std::span<std::byte> icc_data) con
     if(!h) {
         RETERR(InvalidICCProfile);
     }
-    auto num_channels = (int32_t)cmsChannelsOf(cmsGetColorSpace(h));
+    const auto colorspace = cmsGetColorSpace(h);
     cmsCloseProfile(h);
-    return num_channels;
+    // These are the only ones permitted in PDF files.
+    switch(colorspace) {
+    case cmsSigGrayData:
+        return 1;
+    case cmsSigRgbData:
+    case cmsSigLabData:
+        return 3;
+    case cmsSigCmykData:
+        return 4;
+    default:
+        RETERR(IncorrectColorChannelCount);
+    }
 }
 
 } // namespace capypdf::internal
-- 
2.43.0

