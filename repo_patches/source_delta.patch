From 69a0a19f7a9431e249dd92a778ff0d6adf024f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 01/82] fix: adjust offsets for the type of the erased field,
 not of the one following it

---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d8b31f9..3de1347 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -663,9 +663,10 @@ struct Fbfr32 {
       to = reinterpret_cast<fieldhead *>(data_ + len_);
     }
 
+    auto type = Fldtype32(from->fieldid);
     auto diff = reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from);
     memmove(from, to, (data_ + len_) - reinterpret_cast<char *>(to));
-    shift(Fldtype32(from->fieldid), -diff);
+    shift(type, -diff);
   }
 
   int offset_for(int type) {
-- 
2.43.0


From cc132c3654386e2844aefdbfdaa0899a2a4c9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 02/82] fix: default value of nested buffers must be as large
 as an empty buffer

---
 src/fbfr32.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 3de1347..2f87004 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -35,10 +35,8 @@ static unsigned int crc32b(unsigned char *data, size_t len) {
   return ~crc;
 }
 
-static char zeros[] {
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0
-};
+// Default value of every type, an empty nested buffer being the largest one
+alignas(8) static char zeros[64] = {0};
 
 struct fieldhead {
   FLDID32 fieldid;
-- 
2.43.0


From 0da6bf20666ba284bfcba028b4fc5ccf2b9bae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 03/82] fix: check space for all default values before filling
 missing occurrences

---
 src/fbfr32.h | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 2f87004..24efaae 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -167,26 +167,25 @@ struct Fbfr32 {
       oc = count;
     }
 
-    // Fill missing occurances with default values
-    for (FLDOCC32 o = count; o < oc; o++) {
-      chg(fieldid, o, zeros, 0);
-    }
-
     auto type = Fldtype32(fieldid);
     auto klass = fldclass(fieldid);
 
     // Fill in default values
     flen = value_len(type, value, flen);
 
-    ssize_t need;
-    if (klass == FIELD8) {
-      need = sizeof(field8b);
-    } else if (klass == FIELD16) {
-      need = sizeof(field16b);
-    } else if (klass == FIELDN) {
-      need = sizeof(fieldn) + fieldn::size(flen);
-    } else {
-      __builtin_unreachable();  // LCOV_EXCL_LINE
+    ssize_t need = field_size(klass, flen);
+
+    if (oc > static_cast<FLDOCC32>(count)) {
+      // Default values and the value itself must fit or nothing is changed
+      ssize_t gap = field_size(klass, value_len(type, zeros, 0));
+      if (len_ + (oc - count) * gap + need > size_) {
+        FERROR(FNOSPACE, "");
+        return -1;
+      }
+      // Fill missing occurances with default values
+      for (FLDOCC32 o = count; o < oc; o++) {
+        chg(fieldid, o, zeros, 0);
+      }
     }
 
     auto field = where(fieldid, oc);
@@ -908,6 +907,17 @@ struct Fbfr32 {
         __builtin_unreachable();  // LCOV_EXCL_LINE
     }
   }
+
+  static ssize_t field_size(storage_class klass, FLDLEN32 flen) {
+    if (klass == FIELD8) {
+      return sizeof(field8b);
+    } else if (klass == FIELD16) {
+      return sizeof(field16b);
+    } else if (klass == FIELDN) {
+      return sizeof(fieldn) + fieldn::size(flen);
+    }
+    __builtin_unreachable();  // LCOV_EXCL_LINE
+  }
 };
 
 // Hooks for buffer type below
-- 
2.43.0


From 541907ea4b4bdf7a019df8133c4e61c67b05d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 04/82] fix: Fjoin32 never returned when several occurrences
 had to be removed

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 24efaae..a1262c0 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -587,7 +587,9 @@ struct Fbfr32 {
       if (r == -1) {
         return -1;
       } else if (r == 1) {
+        // Occurrence was removed, the next one took its place
         end = reinterpret_cast<fieldhead *>(data_ + len_);
+        oc--;
       } else {
         it = next_(it);
       }
-- 
2.43.0


From 116ea3b8ac08b9a18d715924b9c06fe6f4941604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 05/82] fix: clear padding so that Fchksum32 depends on the
 contents only

---
 src/fbfr32.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index a1262c0..07b5c45 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -100,7 +100,8 @@ struct Fbfr32 {
     size_ = buflen - min_size();
     len_ = 0;
 
-    memset(offsets_, 0, sizeof(offsets_));
+    // Including the padding before data
+    memset(offsets_, 0, data_ - reinterpret_cast<char *>(offsets_));
     return 0;
   }
   void reinit(FLDLEN32 buflen) { size_ = buflen - min_size(); }
@@ -227,11 +228,16 @@ struct Fbfr32 {
       memset(f->data, 0x0, sizeof(f->data));
       std::copy_n(value, flen, reinterpret_cast<field8b *>(field)->data);
     } else if (klass == FIELD16) {
-      std::copy_n(value, flen, reinterpret_cast<field16b *>(field)->data);
+      auto f = reinterpret_cast<field16b *>(field);
+      // Padding between field and value
+      memset(field + 1, 0x0, f->data - reinterpret_cast<char *>(field + 1));
+      std::copy_n(value, flen, f->data);
     } else if (klass == FIELDN) {
       auto f = reinterpret_cast<fieldn *>(field);
       f->flen = flen;
       std::copy_n(value, flen, f->data);
+      // Padding after the value
+      memset(f->data + flen, 0x0, fieldn::size(flen) - flen);
       if (type == FLD_FML32) {
         FBFR32 *fbfr = reinterpret_cast<FBFR32 *>(f->data);
         fbfr->size_ = fbfr->len_;
-- 
2.43.0


From 25e23370ee67bb07730fc4cef47fb973b87147c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 06/82] fix: Ffprint32 output of backslash and bytes above 127
 could not be read back

---
 src/fbfr32.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 07b5c45..77c0936 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -655,10 +655,11 @@ struct Fbfr32 {
  private:
   void print_bytes(FILE *iop, const char *s, int len) {
     for (int i = 0; i < len; i++, s++) {
-      if (isprint(*s)) {
-        fputc(*s, iop);
+      auto c = static_cast<unsigned char>(*s);
+      if (isprint(c) && c != '\\') {
+        fputc(c, iop);
       } else {
-        fprintf(iop, "\\%02x", *s);
+        fprintf(iop, "\\%02x", c);
       }
     }
   }
-- 
2.43.0


From e62e94fd5bde392578ad60f8ac0e092473506fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 07/82] fix: Fextread32 must read CARRAY with its exact length
 and NUL bytes

---
 src/extreader.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extreader.h b/src/extreader.h
index 1403e88..067e69a 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -77,6 +77,11 @@ class extreader : public basic_parser {
       fml.mutate([&](FBFR32 *fbfr) {
         return Fadd32(fbfr, fieldid, reinterpret_cast<char *>(nested.get()), 0);
       });
+    } else if (Fldtype32(fieldid) == FLD_CARRAY) {
+      fml.mutate([&](FBFR32 *fbfr) {
+        return Fadd32(fbfr, fieldid, const_cast<char *>(fvalue.data()),
+                      fvalue.size());
+      });
     } else {
       fml.mutate([&](FBFR32 *fbfr) {
         return CFadd32(fbfr, fieldid, const_cast<char *>(fvalue.c_str()), 0,
-- 
2.43.0


From c4c756cd5965a564862c722ea8637fd2ac0fe02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 08/82] fix: NUL byte is neither a hexadecimal digit nor a flag

---
 src/basic_parser.h | 5 +++--
 src/extreader.h    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index efb1a90..170f6ae 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -2,6 +2,7 @@
 // This file is part of Fuxedo
 // Copyright (C) 2017 Aivars Kalvans <aivars.kalvans@gmail.com>
 
+#include <cctype>
 #include <cstdio>
 #include <cstring>
 #include <functional>
@@ -56,10 +57,10 @@ class basic_parser {
   }
 
   bool hex(std::string *s = nullptr) {
-    if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+    if (sym_ != EOF && ::isxdigit(sym_)) {
       char high = sym_;
       next();
-      if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+      if (sym_ != EOF && ::isxdigit(sym_)) {
         char low = sym_;
         next();
         if (s != nullptr) {
diff --git a/src/extreader.h b/src/extreader.h
index 067e69a..25af9f9 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -93,7 +93,7 @@ class extreader : public basic_parser {
   }
 
   bool flag(std::string *s = nullptr) {
-    if (accept([](int c) { return strchr("+-=", c) != nullptr; }, s)) {
+    if (accept([](int c) { return c == '+' || c == '-' || c == '='; }, s)) {
       return true;
     }
     return false;
-- 
2.43.0


From 7ed147c638ad3a680c7b70c7ca213caad73a2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 09/82] fix: Fread32 of a truncated stream left an inconsistent
 buffer

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 77c0936..8bc7946 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -150,6 +150,8 @@ struct Fbfr32 {
     len_ = len;
     auto n = used() - sizeof(size_) - sizeof(len_);
     if (fread(reinterpret_cast<char *>(&len_) + sizeof(len_), 1, n, iop) != n) {
+      // Whatever was read is not a buffer
+      init(size());
       FERROR(FEUNIX, "");
       return -1;
     }
-- 
2.43.0


From 3d174788e84c518ce701ae7e72ede2b1b36a760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 10/82] fix: Fmkfldid32 must refuse numbers that do not fit in
 the field identifier

---
 src/fbfr32fld.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 7e3db98..5ecfd71 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -47,7 +47,7 @@ struct Fbfr32fields {
       Ferror32 = FTYPERR;
       return -1;
     }
-    if (num < 1) {
+    if (num < 1 || num > 0xffffff) {
       Ferror32 = FBADFLD;
       return -1;
     }
-- 
2.43.0


From cea8894f80b9bcb9f3a0240939311aa2179d6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 11/82] fix: Fextread32 lost the first character of the next
 buffer in the stream

---
 src/basic_parser.h | 8 ++++++++
 src/extreader.h    | 1 +
 src/fml32.cpp      | 1 +
 3 files changed, 10 insertions(+)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index 170f6ae..f27fd38 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -123,6 +123,14 @@ class basic_parser {
     }
   }
 
+  // Gives back the symbol read ahead so that reading can continue after it
+  void unread() {
+    if (fin_ != nullptr && sym_ != EOF) {
+      ungetc(sym_, fin_);
+      sym_ = EOF;
+    }
+  }
+
   std::streambuf *in_;
   FILE *fin_;
   int count_;
diff --git a/src/extreader.h b/src/extreader.h
index 25af9f9..0282847 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -21,6 +21,7 @@ class extreader : public basic_parser {
       ;
     return true;
   }
+  void finish() { unread(); }
   FBFR32 *get() { return buf.get(); }
 
  private:
diff --git a/src/fml32.cpp b/src/fml32.cpp
index d50ef97..af79186 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -572,6 +572,7 @@ int Fextread32(FBFR32 *fbfr, FILE *iop) {
         if (!p.parse()) {
           return -1;
         }
+        p.finish();
         return fbfr->cpy(p.get());
       },
       -1);
-- 
2.43.0


From 774eea72735b23e10aad96312f764e70d7ffbd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 12/82] fix: conversion of CARRAY to CARRAY added a byte

---
 src/fml32.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index af79186..7ff6e40 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -452,6 +452,10 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
         } else if (fromtype == FLD_CARRAY) {
           auto from = std::string(fromval, fromlen);
           TYPCVTS;
+          if (totype == FLD_CARRAY) {
+            // Same type, no terminator is added
+            *tolen = fromlen;
+          }
         } else {
           FERROR(FEBADOP, "");
           return nullptr;
-- 
2.43.0


From db7ffc56ea26d420e951233f3283d0524d507365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 13/82] fix: compiled expression overflowed its memory for long
 string constants

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 28997e7..befdbf6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -76,7 +76,9 @@ class ast_tree {
 
   void insert(uint32_t where, const char *data, uint32_t len) {
     if (size_ - len_ < len) {
-      size_ *= 2;
+      while (size_ - len_ < len) {
+        size_ *= 2;
+      }
       tree_ = (char *)realloc(tree_, size_);
     }
     memmove(tree_ + where + len, tree_ + where, len_ - where);
-- 
2.43.0


From 372935b940a5bac59efe67c2dc24da225375cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 14/82] fix: Fboolco32 must refuse text after a complete
 expression

---
 src/expr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index befdbf6..0a5d732 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -134,6 +134,11 @@ class expression_parser : public basic_parser {
 
   char *parse() {
     if (parse_expr()) {
+      if (!eof()) {
+        throw basic_parser_error(
+            "Unexpected text after expression", row_, col_,
+            " invalid character '" + std::string(1, sym_) + "'");
+      }
       return tree_.take_tree();
     }
     return nullptr;
-- 
2.43.0


From 82886aa21585f4967cfb4dce57f5a197652e77cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 15/82] fix: too complex expressions exhausted the stack

---
 src/expr.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 0a5d732..646cec5 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -231,10 +231,12 @@ class expression_parser : public basic_parser {
         }
       }
       tree_.insert(lhs, &op, sizeof(op));
+      nested();
     }
   }
 
   uint32_t parse_primary() {
+    nested();
     space();
 
     std::string tok;
@@ -362,6 +364,15 @@ class expression_parser : public basic_parser {
     return false;
   }
 
+  // Both parsing and evaluation are recursive, limit the use of stack
+  void nested() {
+    if (++nested_ > max_nested) {
+      throw basic_parser_error("Too complex expression", row_, col_, "");
+    }
+  }
+  static constexpr int max_nested = 10000;
+  int nested_ = 0;
+
   // FIXME: to emulate lookahead/advance of binops because we don't have a lexer
   std::string op_;
   ast_tree tree_;
-- 
2.43.0


From 8edce575046ddaa5fb2ba72c9032f1cde9037e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 16/82] fix: values of fields overwrote each other or
 overflowed in comparisons

---
 src/expr.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 646cec5..64e8ac7 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -456,7 +456,8 @@ class eval_value {
   char *tree;
   long l;
   double d;
-  const char *s;
+  // Copy because CFfind32 reuses memory of the previous value
+  std::string s;
 
   eval_value(char *tree, int value)
       : tree(tree), l(value), type_(eval_type::is_long) {}
@@ -483,7 +484,7 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atof(s);
+      return atof(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
@@ -493,18 +494,16 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atol(s);
+      return atol(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
-  const char *to_string(char *buf) const {
+  std::string to_string() const {
     if (type_ == eval_type::is_long) {
-      sprintf(buf, "%ld", l);
-      return buf;
+      return std::to_string(l);
     } else if (type_ == eval_type::is_double) {
-      sprintf(buf, "%f", d);
-      return buf;
+      return std::to_string(d);
     }
     return s;
   }
@@ -568,8 +567,7 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   auto lexical_compare = lhs.is_const_string() || rhs.is_const_string() ||
                          (lhs.is_string() && rhs.is_string());
   if (lexical_compare && op != matches && op != not_matches) {
-    char lbuf[64], rbuf[64];
-    lhs = eval_value(nullptr, strcmp(lhs.to_string(lbuf), rhs.to_string(rbuf)));
+    lhs = eval_value(nullptr, lhs.to_string().compare(rhs.to_string()));
     rhs = eval_value(nullptr, 0);
   }
 
@@ -587,17 +585,17 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string().c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string().c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From 94db9a06c677206511662b02a371bb3bb7654b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 17/82] fix: negation and truth of floating-point values
 ignored the fraction

---
 src/expr.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 64e8ac7..67c1cfb 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -488,6 +488,12 @@ class eval_value {
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
+  bool to_bool() const {
+    if (type_ == eval_type::is_double) {
+      return d != 0;
+    }
+    return to_long() != 0;
+  }
   long to_long() const {
     if (type_ == eval_type::is_long) {
       return l;
@@ -631,9 +637,12 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     auto val = boolev(fbfr, tree);
     tree = val.tree;
     if (op == unary_minus) {
+      if (val.is_double()) {
+        return eval_value(tree, -val.d);
+      }
       return eval_value(tree, -val.to_long());
     } else if (op == logical_negation) {
-      return eval_value(tree, !val.to_long());
+      return eval_value(tree, !val.to_bool());
     } else if (op == bitwise_negation) {
       return eval_value(tree, ~val.to_long());
     }
@@ -704,7 +713,7 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     return -1;
   }
   auto v = boolev(fbfr, tree + 4);
-  return v.to_long() != 0;
+  return v.to_bool();
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
-- 
2.43.0


From 58c93bc711f5d4e5af2e0234830991997c18a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 18/82] fix: evaluation errors terminated the process

---
 src/expr.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 67c1cfb..454da53 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -609,6 +610,12 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   throw std::runtime_error("unsupported comparison operator");
 }
 
+static void check_division(long lhs, long rhs) {
+  if (rhs == 0 || (lhs == std::numeric_limits<long>::min() && rhs == -1)) {
+    throw std::runtime_error("division by zero or overflow");
+  }
+}
+
 eval_value boolev(FBFR32 *fbfr, char *tree) {
   char op = *tree++;
   if (op == const_long) {
@@ -655,9 +662,13 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     if (op == multiplication) {
       return apply<std::multiplies>(tree, lhs, rhs);
     } else if (op == division) {
+      if (!lhs.is_double() && !rhs.is_double()) {
+        check_division(lhs.to_long(), rhs.to_long());
+      }
       return apply<std::divides>(tree, lhs, rhs);
     } else if (op == modulus) {
       // Fail on double?
+      check_division(lhs.to_long(), rhs.to_long());
       return eval_value(tree, lhs.to_long() % rhs.to_long());
     } else if (op == addition) {
       return apply<std::plus>(tree, lhs, rhs);
@@ -712,8 +723,12 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_bool();
+  try {
+    return boolev(fbfr, tree + 4).to_bool();
+  } catch (const std::exception &e) {
+    FERROR(FEINVAL, "%s", e.what());
+    return -1;
+  }
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
@@ -725,6 +740,10 @@ double Ffloatev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_double();
+  try {
+    return boolev(fbfr, tree + 4).to_double();
+  } catch (const std::exception &e) {
+    FERROR(FEINVAL, "%s", e.what());
+    return -1;
+  }
 }
-- 
2.43.0


From ad7424e8e8f1b3b5e43ac422ddd84732ad900082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 19/82] fix: Fboolpr32 output did not compile back to the same
 expression

---
 src/expr.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 454da53..a13e9d6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -298,7 +298,7 @@ class expression_parser : public basic_parser {
       }
     } else if (unsigned_number(&tok)) {
       if (tok.find('.') != std::string::npos) {
-        double value = std::stof(tok);
+        double value = std::stod(tok);
         e = tree_.append(const_double, reinterpret_cast<char *>(&value),
                          sizeof(value));
       } else {
@@ -400,6 +400,9 @@ char *Fboolco32(char *expression) {
   return nullptr;
 }
 
+// The smallest denormalized number needs this many digits in the fraction
+static constexpr int max_double_digits = 1100;
+
 static char *boolpr(char *tree, FILE *iop) {
   uint8_t op = static_cast<uint8_t>(*tree++);
   if (op == const_long) {
@@ -411,11 +414,27 @@ static char *boolpr(char *tree, FILE *iop) {
     double value;
     std::copy_n(tree, sizeof(value), reinterpret_cast<char *>(&value));
     tree += sizeof(value);
-    fprintf(iop, "( %f ) ", value);
+    // as many digits as needed to get the same value back
+    std::string text = std::to_string(value);
+    char buf[32 + std::numeric_limits<double>::max_exponent10 +
+             max_double_digits];
+    for (int digits = 6; std::stod(text) != value && digits < max_double_digits;
+         text = buf) {
+      snprintf(buf, sizeof(buf), "%.*f", ++digits, value);
+    }
+    fprintf(iop, "( %s ) ", text.c_str());
   } else if (op == const_string) {
-    auto len = strlen(tree);
-    fprintf(iop, "( '%s' ) ", tree);
-    tree += len + 1;
+    fprintf(iop, "( '");
+    for (; *tree != '\0'; tree++) {
+      if (isprint(static_cast<unsigned char>(*tree)) && *tree != '\'' &&
+          *tree != '\\') {
+        fputc(*tree, iop);
+      } else {
+        fprintf(iop, "\\%02x", static_cast<unsigned char>(*tree));
+      }
+    }
+    fprintf(iop, "' ) ");
+    tree++;
   } else if (op == field) {
     FLDID32 fieldid;
     std::copy_n(tree, sizeof(fieldid), reinterpret_cast<char *>(&fieldid));
-- 
2.43.0


From 4c09a4a67a869e88ca568c55221e55d4a8c40d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 20/82] fix: NUL character in a string constant corrupted the
 compiled expression

---
 src/expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index a13e9d6..44d3d72 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -307,6 +307,10 @@ class expression_parser : public basic_parser {
                          sizeof(value));
       }
     } else if (string(&tok)) {
+      if (tok.find('\0') != std::string::npos) {
+        throw basic_parser_error("NUL character in string literal", row_, col_,
+                                 "");
+      }
       e = tree_.append(const_string, tok.c_str(), tok.size() + 1);
     } else if (accept('(')) {
       e = parse_expr();
-- 
2.43.0


From 95d082d348f9e4aec94eed3b70c95e611fcdf333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 21/82] fix: field occurrences out of range wrapped around

---
 src/expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 44d3d72..b22e962 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -294,7 +294,8 @@ class expression_parser : public basic_parser {
         e = tree_.append(field_any, reinterpret_cast<char *>(&fieldid),
                          sizeof(fieldid));
       } else {
-        e = tree_.append(fieldid, std::stol(oc));
+        // throws if the occurrence is out of range
+        e = tree_.append(fieldid, std::stoi(oc));
       }
     } else if (unsigned_number(&tok)) {
       if (tok.find('.') != std::string::npos) {
-- 
2.43.0


From 6392a7b4c3a4458636198c08aa9ce631e8c9286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 22/82] fix: printing of very small constants in Fboolpr32

---
 src/expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index b22e962..8faaaaa 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -423,7 +423,8 @@ static char *boolpr(char *tree, FILE *iop) {
     std::string text = std::to_string(value);
     char buf[32 + std::numeric_limits<double>::max_exponent10 +
              max_double_digits];
-    for (int digits = 6; std::stod(text) != value && digits < max_double_digits;
+    for (int digits = 6;
+         atof(text.c_str()) != value && digits < max_double_digits;
          text = buf) {
       snprintf(buf, sizeof(buf), "%.*f", ++digits, value);
     }
-- 
2.43.0


From db86f761f93e376bb3954b3982059783fa30e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 23/82] fix: base64 characters after padding must be refused

---
 src/base64.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 24a6639..63f5a27 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -102,7 +102,10 @@ size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen) {
     err |= c0 = decoding[ibytes[ipos++]];
     err |= c1 = decoding[ibytes[ipos++]];
     c2 = c3 = 0;
-    if (ibytes[ipos] != '=') {
+    if (ibytes[ipos] == '=') {
+      // nothing but padding may follow padding
+      err |= ibytes[ipos + 1] != '=' ? 128 : 0;
+    } else {
       outc++;
       err |= c2 = decoding[ibytes[ipos++]];
       if (ibytes[ipos] != '=') {
-- 
2.43.0


From 2f9221959d9268758025d2fb097cc637c34e8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 24/82] fix: tpimport damaged the output buffer when the input
 was refused

---
 src/mem.cpp | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index a7bd82c..8c43431 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -5,6 +5,8 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstring>
+#include <stdexcept>
+#include <string>
 
 #include "misc.h"
 
@@ -175,17 +177,40 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     flags |= TPEX_STRING;
   }
 
-  long needed = sizeof(tpmem);
+  // Validate first to leave the output buffer intact in case of errors
+  std::string decoded;
+  const char *data = istr;
+  long dlen = ilen;
   if (flags & TPEX_STRING) {
     ilen = strlen(istr);
     if (ilen % 4) {
       TPERROR(TPEPROTO, "Invalid base64 string");
       return -1;
     }
-    needed += ilen / 4 * 3;
-  } else {
-    needed += ilen;
+    decoded.resize(ilen / 4 * 3);
+    try {
+      decoded.resize(
+          base64decode(istr, ilen, &decoded[0], decoded.size()));
+    } catch (const std::invalid_argument &e) {
+      TPERROR(TPEPROTO, "Invalid base64 string");
+      return -1;
+    }
+    data = decoded.data();
+    dlen = decoded.size();
+  }
+
+  tpmem header;
+  constexpr long header_size = sizeof(tpmem) - offsetof(tpmem, type);
+  if (dlen < header_size) {
+    TPERROR(TPEPROTO, "Incomplete buffer");
+    return -1;
+  }
+  std::copy_n(data, header_size, header.type);
+  const auto tptype = typeptr(header.type, header.subtype);
+  if (tptype == nullptr) {
+    return -1;
   }
+  long needed = sizeof(tpmem) + dlen;
 
   auto omem = memptr(*obuf);
   if (needed > omem->size) {
@@ -193,19 +218,9 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     omem = memptr(*obuf);
   }
 
-  if (flags & TPEX_STRING) {
-    (void)base64decode(istr, ilen,
-                       reinterpret_cast<char *>(omem) + offsetof(tpmem, type),
-                       ilen);
-  } else {
-    std::copy_n(istr, ilen,
-                reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
-  }
+  std::copy_n(data, dlen,
+              reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
 
-  const auto tptype = typeptr(omem->type, omem->subtype);
-  if (tptype == nullptr) {
-    return -1;
-  }
   if (tptype->reinit != nullptr) {
     tptype->reinit(omem->data, omem->size);
   }
-- 
2.43.0


From 7faf5d20f32ab470c63136d9b7a096d486d9e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 25/82] fix: tprealloc did not store the new size of the buffer

---
 src/mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index 8c43431..0628b1c 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -111,6 +111,7 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From 3a750c1170e40e5278e29cd3babb5f53fc092fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 26/82] fix: messages sent through a file lost their category

---
 src/ipc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 13916de..68e1552 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -193,6 +193,7 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     msgfile fmsg;
     fmsg.mtype = data->mtype;
     fmsg.ttype = fux::ipc::file;
+    fmsg.cat = data->cat;
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-- 
2.43.0


From c221b51bd7fb4c5282fd3e8035459451797ad511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 27/82] fix: temporary file remained when sending the message
 failed

---
 src/ipc.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 68e1552..35ae270 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -197,11 +197,16 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-    if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
+    try {
+      if (msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
+        return true;
+      }
+    } catch (...) {
       unlink(tmpname);
-      return false;
+      throw;
     }
-    return true;
+    unlink(tmpname);
+    return false;
   } else {
     data->ttype = fux::ipc::queue;
     return msgsnd_timed(msqid, data.buf(), data.size(), flags, timeout);
-- 
2.43.0


From 82b5ce351408d131aba592d1ee0cf81ff4bcddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 28/82] fix: refused client registration left an entry with a
 bad reply queue

---
 src/BBL.cpp | 4 ++--
 src/mib.cpp | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 9bdcb1c..8c6604a 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -86,9 +86,9 @@ static void monitor_clients() {
     }
     if (!alive(accesser.pid)) {
       accesser.pid = 0;
-      if (accesser.rpid != 0) {
+      if (accesser.rpid != -1) {
         fux::ipc::qdelete(accesser.rpid);
-        accesser.rpid = 0;
+        accesser.rpid = -1;
       }
     }
   }
diff --git a/src/mib.cpp b/src/mib.cpp
index fb727ff..f4a56d1 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -305,19 +305,20 @@ size_t mib::find_service(const std::string &servicename) {
 }
 
 size_t mib::make_accesser(pid_t pid) {
-  ssize_t at = -1;
+  size_t at = accessers()->len;
   for (size_t i = 0; i < accessers()->len; i++) {
     if (accessers().at(i).pid == 0) {
       at = i;
       break;
     }
   }
-  if (at == -1) {
-    at = accessers()->len++;
-  }
   auto &accesser = accessers().at(at);
   accesser.rpid_timeout = INVALID_TIME;
+  accesser.rpid = -1;
   accesser.pid = pid;
+  if (at == accessers()->len) {
+    accessers()->len++;
+  }
   return at;
 }
 
-- 
2.43.0


From 7ee5a5480fa6aa7610c6fc87bfb45c0931943b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 29/82] fix: copied names must be terminated

---
 src/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index 1c2f741..d55ac9a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -96,7 +96,7 @@ void checked_copy(const std::string &src, char (&dst)[N]) {
     throw std::length_error(string_format(
         "%s too long for destination of %d bytes", src.c_str(), N));
   }
-  std::copy_n(src.c_str(), src.size(), dst);
+  std::copy_n(src.c_str(), src.size() + 1, dst);
 }
 
 template <unsigned int N>
-- 
2.43.0


From a424ad5b587541819fa3a519f7050639bc7d8577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 30/82] fix: service registry was changed without lock in
 tpunadvertise

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index 39a3995..7f7382f 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -146,6 +146,7 @@ struct server_main {
       auto freeme = it->first;
       advertisements.erase(it);
       free(const_cast<char *>(freeme));
+      auto lock = m_.data_lock();
       m_.unadvertise(svcname, mib_queue, mib_server);
     } else {
       TPERROR(TPENOENT, "svcname not advertised");
-- 
2.43.0


From d81590497aae54e708d692ebab0353f6cfb637fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 31/82] fix: text that is not a transaction identifier
 overflowed the identifier

---
 src/trx.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trx.h b/src/trx.h
index dbb6c19..2860fbd 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -51,6 +51,14 @@ inline XID to_xid(const std::string &s) {
     throw std::logic_error("Invalid XID string");
   }
 
+  for (size_t i = 1; i < parts.size(); i++) {
+    if (parts[i].size() % 2 != 0 || parts[i].size() / 2 > sizeof(xid.data) / 2 ||
+        parts[i].find_first_not_of("0123456789abcdefABCDEF") !=
+            std::string::npos) {
+      throw std::logic_error("Invalid XID string");
+    }
+  }
+
   xid.formatID = std::stol(parts[0]);
   xid.gtrid_length = parts[1].size() / 2;
   if (parts.size() == 3) {
-- 
2.43.0


From 2269143b0a4c88744b75a4857e136dfce161faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 32/82] fix: transaction characteristics were not initialised

---
 src/tx.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 0ae2a08..dc38bec 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -58,6 +58,13 @@ struct tx_context {
       grpcfg = &mibcon_.group_by_id(fux::tx::grpno);
       fux::tx::grpidx = mibcon_.find_group(fux::tx::grpno);
     }
+    init();
+  }
+  void init() {
+    memset(&info, 0, sizeof(info));
+    info.when_return = TX_COMMIT_COMPLETED;
+    info.transaction_control = TX_UNCHAINED;
+    info.transaction_state = TX_ACTIVE;
     notrx();
   }
   void notrx() {
@@ -105,7 +112,7 @@ int tx_open() {
   auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
-      getctxt().notrx();
+      getctxt().init();
       getctxt().state = tx_state::s1;
     }
     return TX_OK;
-- 
2.43.0


From 553f31f8ad6197b743953e9d924896cfca648374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 33/82] fix: tx_open and tx_close crashed in clients

---
 src/tx.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tx.cpp b/src/tx.cpp
index dc38bec..1a475a5 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -99,6 +99,10 @@ static int rm_err(int xarc, const char *func) {
 }
 
 int tx_open() {
+  if (getctxt().grpcfg == nullptr) {
+    userlog("Not a member of a server group, no Resource Manager to open");
+    return TX_ERROR;
+  }
   char *info = getctxt().grpcfg->openinfo;
   auto len = strlen(xasw->name);
   if (strlen(getctxt().grpcfg->openinfo) > 0) {
@@ -126,6 +130,9 @@ int tx_close() {
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
+  if (getctxt().grpcfg == nullptr) {
+    return TX_OK;
+  }
   auto xarc = xasw->xa_close_entry(getctxt().grpcfg->closeinfo, fux::tx::grpno,
                                    TMNOFLAGS);
   if (xarc == XA_OK) {
-- 
2.43.0


From 966dfa2b2387e8f6b130f51f2ec58cdbf6d11141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 34/82] fix: transactions left entries in the transaction table
 and started twice in chained mode

---
 src/tx.cpp | 122 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 84 insertions(+), 38 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 1a475a5..6b36420 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -172,15 +172,37 @@ static XID xid() {
   return xid;
 }
 
+static void forget(fux::gttid gttid) {
+  auto lock = getmib().data_lock();
+  getmib().transactions().end(gttid);
+}
+
 int tx_begin() {
   if (TMREGISTER) {
     // return TX_OK;
   }
 
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
-  return _tx_start(&info);
+  fux::gttid gttid;
+  try {
+    auto lock = getmib().data_lock();
+    gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to start transaction: %s", e.what());
+    return TX_ERROR;
+  }
+  auto rc = _tx_start(&info);
+  if (rc == TX_OK) {
+    getctxt().gttid = gttid;
+  } else {
+    forget(gttid);
+  }
+  return rc;
 }
 
 static bool tx_set1(int rc) {
@@ -188,12 +210,6 @@ static bool tx_set1(int rc) {
          rc == TX_HAZARD || rc == TX_COMMITTED;
 }
 
-static bool tx_set2(int rc) {
-  return rc == TX_NO_BEGIN || rc == TX_ROLLBACK_NO_BEGIN ||
-         rc == TX_MIXED_NO_BEGIN || rc == TX_HAZARD_NO_BEGIN ||
-         rc == TX_COMMITTED_NO_BEGIN;
-}
-
 static int change_state(int rc) {
   if (tx_set1(rc)) {
     if (getctxt().state == tx_state::s3) {
@@ -201,11 +217,9 @@ static int change_state(int rc) {
     } else if (getctxt().state == tx_state::s4) {
       // Chained
       getctxt().state = tx_state::s2;
-      return tx_begin();
-    }
-  } else if (tx_set2(rc)) {
-    if (getctxt().state == tx_state::s4) {
-      getctxt().state = tx_state::s2;
+      if (tx_begin() != TX_OK) {
+        return rc + TX_NO_BEGIN;
+      }
     }
   }
   return rc;
@@ -238,30 +252,41 @@ static std::vector<branch> collect(XID *xid) {
   return branches;
 }
 
-int _tx_end(TXINFO *info);
+static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
   TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
+  auto gttid = getctxt().gttid;
+  auto rc = _tx_end(&info, TMSUCCESS);
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
   std::vector<branch> branches1 = collect(&info.xid);
-
-  command(branches1, &info.xid, fux::tm::prepare);
-
-  // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
   bool commit = true;
-  for (auto &p : branches1) {
-    if (p.result == XA_RDONLY) {
-      // Nothing to do
-      continue;
-    }
-    if (p.result != XA_OK) {
-      commit = false;
+
+  if (rc == TX_OK) {
+    command(branches1, &info.xid, fux::tm::prepare);
+
+    // Collect interested branches for the 2nd phase
+    for (auto &p : branches1) {
+      if (p.result == XA_RDONLY) {
+        // Nothing to do
+        continue;
+      }
+      if (p.result != XA_OK) {
+        commit = false;
+        if (p.result >= XA_RBBASE && p.result <= XA_RBEND) {
+          // Rolled back already
+          continue;
+        }
+      }
+      branches2.push_back(p);
     }
-    branches2.push_back(p);
+  } else {
+    // Work can't be committed
+    commit = false;
+    branches2 = branches1;
   }
 
   if (commit) {
@@ -271,23 +296,25 @@ int tx_commit() {
   if (commit) {
     command(branches2, &info.xid, fux::tm::commit);
     clean_tlog(&info.xid);
-    return change_state(TX_OK);
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_FAIL);
   }
+  forget(gttid);
+  return change_state(commit ? TX_OK : TX_ROLLBACK);
 }
 
 int tx_rollback() {
   TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
+  auto gttid = getctxt().gttid;
+  auto rc = _tx_end(&info, TMSUCCESS);
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
   std::vector<branch> branches = collect(&info.xid);
 
   command(branches, &info.xid, fux::tm::rollback);
+  forget(gttid);
 
   return change_state(TX_OK);
 }
@@ -339,11 +366,6 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
-int _tx_end(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUCCESS);
-  return change_state(rc);
-}
-
 int _tx_end(bool ok) {
   TXINFO info;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
@@ -374,6 +396,10 @@ static int _tx_start(TXINFO *info, long flags) {
     return TX_OK;
   }
 
+  if (info != nullptr) {
+    getctxt().notrx();
+  }
+
   if (xarc == XAER_RMERR) {
     return TX_ERROR;
   } else if (xarc == XAER_DUPID) {
@@ -391,7 +417,27 @@ static int _tx_start(TXINFO *info, long flags) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
+int _tx_resume(TXINFO *info) {
+  if (info == nullptr) {
+    return _tx_start(info, TMRESUME);
+  }
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+  fux::gttid gttid;
+  try {
+    auto lock = getmib().data_lock();
+    gttid = getmib().transactions().find(info->xid);
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to resume transaction: %s", e.what());
+    return TX_ERROR;
+  }
+  auto rc = _tx_start(info, TMRESUME);
+  if (rc == TX_OK) {
+    getctxt().gttid = gttid;
+  }
+  return rc;
+}
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
-- 
2.43.0


From a5f436ef13c9c2892327bd86384dc1e38087cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 35/82] fix: transaction commands consumed replies of other
 calls

---
 src/tx.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 6b36420..0aea2b0 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -511,8 +511,6 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
 int tpacall_group(int grpno, char *svc, char *data, long len, long flags);
 void command(std::vector<branch> &branches, XID *xid, int command) {
   fux::fml32buf buf;
-  int pending = 0;
-
   for (auto &p : branches) {
     buf.put(TA_XAFUNC, 0, command);
     buf.put(TA_XID, 0, fux::to_string(xid));
@@ -527,22 +525,22 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
       p.result = TMER_TMERR;
-      break;
     }
-    pending++;
   }
 
-  while (pending > 0) {
-    int cd;
+  // Only these replies, there might be others pending
+  for (auto &p : branches) {
+    if (p.cd == -1) {
+      continue;
+    }
     long len = 0;
-    int rc =
-        tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, TPGETANY);
-
-    for (auto &p : branches) {
-      if (p.cd == cd) {
-        p.result = buf.get<long>(TA_XARET, 0);
-        pending--;
-      }
+    if (tpgetrply(&p.cd, reinterpret_cast<char **>(buf.ptrptr()), &len,
+                  TPNOTIME) == -1) {
+      userlog("Failed to get reply from TM in group %d (%s)", p.grpno,
+              tpstrerror(tperrno));
+      p.result = TMER_TMERR;
+    } else {
+      p.result = buf.get<long>(TA_XARET, 0, TMER_TMERR);
     }
   }
 }
-- 
2.43.0


From 474c6b661acf95cacd4197ce5ba66b1bd001862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 36/82] fix: services left, joined and forwarded transactions
 wrongly

---
 src/server.cpp | 18 +++++++++------
 src/trx.h      |  4 ++--
 src/tx.cpp     | 59 ++++++++++++++++++++++++++++++++++++++++++++------
 3 files changed, 65 insertions(+), 16 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 7f7382f..10d9e15 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -211,8 +211,10 @@ struct server_thread {
 
   void tpforward(char *svc, char *data, long len, long flags) {
     auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional()) {
-      fux::tx_end(true);
+    bool transactional = fux::tx::transactional();
+    if (transactional && !fux::tx_end(true)) {
+      reply(TPESVCERR, 0, data, len, TPNOFLAGS);
+      longjmp(tpreturn_env, 1);
     }
 
     int msqid = get_queue(svc);
@@ -226,7 +228,7 @@ struct server_thread {
       userlog("tpforward with flags!=0");
     }
     checked_copy(svc, res->servicename);
-    res->flags = flags;
+    res->flags = transactional ? flags | TPTRAN : flags;
     res->replyq = req->replyq;
     res->mtype = req->cd;
     res->cd = req->cd;
@@ -261,8 +263,8 @@ struct server_thread {
   }
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
-    if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPSUCCESS);
+    if (fux::tx::transactional() && !fux::tx_end(rval == TPMINVAL)) {
+      rval = TPESVCERR;
     }
     reply(rval, rcode, data, len, flags);
     longjmp(tpreturn_env, 1);
@@ -317,8 +319,10 @@ static void dispatch() {
     tpsvcinfo.len = thread_ptr->req.size_data();
     tpsvcinfo.cd = thread_ptr->req->cd;
 
-    if (thread_ptr->req->flags & TPTRAN) {
-      fux::tx_join(thread_ptr->req->gttid);
+    if (thread_ptr->req->flags & TPTRAN &&
+        !fux::tx_join(thread_ptr->req->gttid)) {
+      thread_ptr->reply(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
+      continue;
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
diff --git a/src/trx.h b/src/trx.h
index 2860fbd..84aaa2b 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -18,8 +18,8 @@ bool transactional();
 }  // namespace tx
 void tx_resume();
 void tx_suspend();
-void tx_join(fux::gttid id);
-void tx_end(bool ok);
+bool tx_join(fux::gttid id);
+bool tx_end(bool ok);
 
 inline std::string to_string(XID *xid) {
   char buf[32];
diff --git a/src/tx.cpp b/src/tx.cpp
index 0aea2b0..ddee63e 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -70,8 +70,10 @@ struct tx_context {
   void notrx() {
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
+    initiator = false;
   }
   tx_state state;
+  bool initiator;
   group *grpcfg = nullptr;
   TXINFO info;
   fux::gttid gttid;
@@ -199,6 +201,7 @@ int tx_begin() {
   auto rc = _tx_start(&info);
   if (rc == TX_OK) {
     getctxt().gttid = gttid;
+    getctxt().initiator = true;
   } else {
     forget(gttid);
   }
@@ -254,6 +257,11 @@ static std::vector<branch> collect(XID *xid) {
 
 static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
+  // Only the initiator decides, not the participants
+  if (fux::tx::transactional() && !getctxt().initiator) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   auto gttid = getctxt().gttid;
   auto rc = _tx_end(&info, TMSUCCESS);
@@ -304,6 +312,10 @@ int tx_commit() {
 }
 
 int tx_rollback() {
+  if (fux::tx::transactional() && !getctxt().initiator) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   auto gttid = getctxt().gttid;
   auto rc = _tx_end(&info, TMSUCCESS);
@@ -366,10 +378,17 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
-int _tx_end(bool ok) {
+// Ends the part of the transaction done here, the next one is not started even
+// in chained mode
+static int _tx_leave(bool ok) {
   TXINFO info;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
-  return change_state(rc);
+  if (getctxt().state == tx_state::s3) {
+    getctxt().state = tx_state::s1;
+  } else if (getctxt().state == tx_state::s4) {
+    getctxt().state = tx_state::s2;
+  }
+  return rc;
 }
 
 static int _tx_start(TXINFO *info, long flags) {
@@ -435,6 +454,7 @@ int _tx_resume(TXINFO *info) {
   auto rc = _tx_start(info, TMRESUME);
   if (rc == TX_OK) {
     getctxt().gttid = gttid;
+    getctxt().initiator = true;
   }
   return rc;
 }
@@ -444,12 +464,37 @@ int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 namespace fux {
 void tx_resume() { _tx_resume(nullptr); }
 void tx_suspend() { _tx_suspend(nullptr); }
-void tx_end(bool ok) { _tx_end(ok); }
-void tx_join(fux::gttid gttid) {
-  auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
+bool tx_end(bool ok) {
+  if (getctxt().initiator) {
+    userlog("Transaction was not ended before returning, rolling back");
+    tx_set_transaction_control(TX_UNCHAINED);
+    tx_rollback();
+    return false;
+  }
+  return _tx_leave(ok) == TX_OK;
+}
+bool tx_join(fux::gttid gttid) {
   TXINFO info;
-  info.xid = t.xid;
-  _tx_start(&info, TMJOIN);
+  bool joined;
+  try {
+    auto lock = getmib().data_lock();
+    info.xid = getmib().transactions().at(gttid).xid;
+    if (info.xid.formatID == -1) {
+      throw std::out_of_range("Transaction has ended");
+    }
+    joined = getmib().transactions().has_joined(gttid, fux::tx::grpidx);
+    getmib().transactions().join(gttid, fux::tx::grpidx);
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to join transaction: %s", e.what());
+    return false;
+  }
+  // The first one in the group starts the branch, the others join it
+  if (_tx_start(&info, joined ? TMJOIN : TMNOFLAGS) != TX_OK &&
+      _tx_start(&info, joined ? TMNOFLAGS : TMJOIN) != TX_OK) {
+    return false;
+  }
+  getctxt().gttid = gttid;
+  return true;
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
-- 
2.43.0


From 7f89e3f331db0b0e909d925e7dfc52c8e7efe456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 37/82] fix: transaction was lost when it could not be
 suspended

---
 src/tx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index ddee63e..4354b9b 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -344,7 +344,10 @@ static int _tx_end(TXINFO *info, long flags) {
           xarc);
   if (info != nullptr) {
     *info = getctxt().info;
-    getctxt().notrx();
+    // The transaction is still here if it could not be suspended
+    if (xarc == XA_OK || !(flags & TMSUSPEND)) {
+      getctxt().notrx();
+    }
   }
 
   int rc = TX_OK;
-- 
2.43.0


From 01ed1a948a4f126e61ced416ba8eefabf38dc181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 38/82] fix: the transaction table was placed beyond the end of
 the shared memory

---
 src/mib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index f4a56d1..e0ea266 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -122,7 +122,7 @@ void mib::init_memory() {
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
 
-  mem_->transactions_off = off;
+  mem_->transactions_off = off - offsetof(mibmem, data);
   transactions().init(100, cfg_.maxgroups);
 
   off += nearest64(transaction_table::needed(transactions().size,
-- 
2.43.0


From 983bc22a75bade0f09b471f4180a1aaa94cc890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 39/82] fix: invalid arguments of calls were not refused

---
 src/client.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 466af02..fd74f69 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -60,6 +60,10 @@ class client {
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
                     long flags) try {
+    if (svc == nullptr) {
+      TPERROR(TPEINVAL, "svc is null");
+      return -1;
+    }
     int msqid = repo_.get_queue(grpno, svc);
     return tpacall_queue(msqid, svc, data, len, flags);
   } catch (const std::out_of_range &e) {
@@ -75,6 +79,12 @@ class client {
       }
     }
 
+    if (flags & TPNOREPLY && !(flags & TPNOTRAN) &&
+        fux::tx::transactional()) {
+      TPERROR(TPEINVAL, "TPNOREPLY in transaction without TPNOTRAN");
+      return -1;
+    }
+
     rq.set_data(data, len);
     checked_copy(svc, rq->servicename);
     if (flags & TPNOREPLY) {
@@ -113,8 +123,9 @@ class client {
   }
 
   int tpgetrply(int *cd, char **data, long *len, long flags) {
-    if (data == nullptr) {
-      TPERROR(TPEINVAL, "data is null");
+    if (cd == nullptr || data == nullptr) {
+      TPERROR(TPEINVAL, "cd or data is null");
+      return -1;
     }
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
@@ -366,6 +377,14 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
            long flags) {
   return fux::atmi::exception_boundary(
       [&] {
+        if (odata == nullptr || tptypes(*odata, nullptr, nullptr) == -1) {
+          TPERROR(TPEINVAL, "odata is null");
+          return -1;
+        }
+        if (flags & TPNOREPLY) {
+          TPERROR(TPEINVAL, "TPNOREPLY is not allowed here");
+          return -1;
+        }
         fux::suspend_guard g(!(flags & TPNOTRAN));
         int cd = getclient().tpacall_group(-1, svc, idata, ilen, flags);
         if (cd == -1) {
-- 
2.43.0


From 76695ec2336ebff8bdf7fdb7b905a89b5e58fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 40/82] fix: replies to cancelled and timed out calls were
 delivered

---
 src/client.cpp | 15 ++++++++++++++-
 src/resp.h     |  6 +++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index fd74f69..fc60454 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -161,6 +161,13 @@ class client {
         userlog("%s received on %0x", __func__, rpid);
       }
 
+      // Nobody is waiting for it anymore, cancelled or timed out
+      if (!has_res && res->cat != fux::ipc::unblock &&
+          !cds.is_allocated(res->cd)) {
+        userlog("Dropping reply for cd=%d", res->cd);
+        continue;
+      }
+
       if (res->cat == fux::ipc::unblock) {
         if (flags & TPGETANY) {
           *cd = 0;
@@ -205,6 +212,8 @@ class client {
     return 0;
   }
 
+  void forget(int cd) { cds.forget(cd); }
+
   int tpsblktime(int blktime, long flags) {
     long units = flags & 0xf0;
     long what = flags - units;
@@ -390,7 +399,11 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
         if (cd == -1) {
           return -1;
         }
-        return tpgetrply(&cd, odata, olen, flags);
+        int ret = tpgetrply(&cd, odata, olen, flags & ~TPGETANY);
+        if (ret == -1) {
+          getclient().forget(cd);
+        }
+        return ret;
       },
       -1);
 }
diff --git a/src/resp.h b/src/resp.h
index baa6759..929d781 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -53,8 +53,10 @@ class responses {
     return 0;
   }
 
+  bool is_allocated(int cd) { return calls_.find(cd) != calls_.end(); }
+
   int any_buffered() {
-    for (auto it : calls_) {
+    for (auto &it : calls_) {
       if (it.second.status == flags::buffered) {
         return it.first;
       }
@@ -71,6 +73,8 @@ class responses {
 
   fux::ipc::msg &buffered(int cd) { return calls_[cd].res; }
 
+  void forget(int cd) { calls_.erase(cd); }
+
   int release(int cd) {
     auto it = calls_.find(cd);
     if (it == calls_.end()) {
-- 
2.43.0


From 705d99369cd92858185a16c56bf3d18cce56ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 41/82] fix: length of data included the internal header

---
 src/client.cpp | 2 +-
 src/ipc.h      | 6 ++++++
 src/mem.cpp    | 2 ++
 src/misc.h     | 2 ++
 src/server.cpp | 2 +-
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index fc60454..ec6745b 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -191,7 +191,7 @@ class client {
       *cd = res->cd;
       cds.release(*cd);
       if (len != nullptr) {
-        *len = res.size_data();
+        *len = res.data_len();
       }
       if (res->rval == TPMINVAL) {
         fux::atmi::reset_tperrno();
diff --git a/src/ipc.h b/src/ipc.h
index 809518f..f16e2b8 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -17,6 +17,7 @@
 
 #include <atmidefs.h>
 #include "defs.h"
+#include "misc.h"
 
 namespace fux {
 namespace ipc {
@@ -87,6 +88,11 @@ class msg {
   size_t size() const { return bytes_.size(); }
   size_t size_data() const { return bytes_.size() - sizeof(msgmem); }
 
+  // Length of user's data
+  long data_len() const {
+    return size_data() == 0 ? 0 : size_data() - fux::mem::headersize();
+  }
+
   void set_data(char *data, long len);
   void get_data(char **data);
 
diff --git a/src/mem.cpp b/src/mem.cpp
index 0628b1c..d7c8b8a 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -278,6 +278,8 @@ int tpexport(char *ibuf, long ilen, char *ostr, long *olen, long flags) {
 
 void setowner(char *ptr, char **owner) { memptr(ptr)->owner = owner; }
 
+long headersize() { return sizeof(tpmem) - offsetof(tpmem, type); }
+
 long bufsize(char *ptr, long used) {
   auto mem = memptr(ptr);
   const auto tptype = typeptr(mem->type, mem->subtype);
diff --git a/src/misc.h b/src/misc.h
index d55ac9a..3b45f1a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -142,6 +142,8 @@ namespace fux {
 namespace mem {
 void setowner(char *ptr, char **owner);
 long bufsize(char *ptr, long used = -1);
+// Bytes of an exported buffer that are not user's data
+long headersize();
 }  // namespace mem
 }  // namespace fux
 
diff --git a/src/server.cpp b/src/server.cpp
index 10d9e15..e29365d 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -316,7 +316,7 @@ static void dispatch() {
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
     tpsvcinfo.flags = thread_ptr->req->flags;
-    tpsvcinfo.len = thread_ptr->req.size_data();
+    tpsvcinfo.len = thread_ptr->req.data_len();
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN &&
-- 
2.43.0


From 921cbcf881609c6e6f1c0469dce9f6f3d55e0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 42/82] fix: calls and replies without data were decoded from
 garbage

---
 src/ipc.cpp    | 3 +++
 src/server.cpp | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 35ae270..ac66f5d 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -252,6 +252,9 @@ void msg::set_data(char *data, long len) {
 }
 
 void msg::get_data(char **data) {
+  if (size_data() == 0) {
+    return;
+  }
   if (tpimport((*this)->data, size_data(), data, 0, 0) == -1) {
     throw std::runtime_error("tpimport failed");
   }
diff --git a/src/server.cpp b/src/server.cpp
index e29365d..59bbd56 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -293,7 +293,8 @@ static void dispatch() {
 
       thread_ptr->prepare();
       thread_ptr->req.get_data(&thread_ptr->atmibuf);
-      tpsvcinfo.data = thread_ptr->atmibuf;
+      tpsvcinfo.data =
+          thread_ptr->req.size_data() > 0 ? thread_ptr->atmibuf : nullptr;
       if (strcmp(thread_ptr->req->servicename, ".stop") == 0) {
         fux::fml32buf buf(&tpsvcinfo);
 
-- 
2.43.0


From 7b53cc59bc993d4a2925c212da2ef06744eefd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 43/82] fix: block time was restarted, ignored and used up more
 than once in a call

---
 src/client.cpp | 59 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index ec6745b..b6ef923 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -59,13 +59,18 @@ class client {
   }
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
-                    long flags) try {
+                    long flags) {
+    return tpacall_group(grpno, svc, data, len, flags, next_blocktime(flags));
+  }
+
+  int tpacall_group(int grpno, const char *svc, char *data, long len,
+                    long flags, long blocktime) try {
     if (svc == nullptr) {
       TPERROR(TPEINVAL, "svc is null");
       return -1;
     }
     int msqid = repo_.get_queue(grpno, svc);
-    return tpacall_queue(msqid, svc, data, len, flags);
+    return tpacall_queue(msqid, svc, data, len, flags, blocktime);
   } catch (const std::out_of_range &e) {
     TPERROR(TPENOENT, "Service %s does not exist", svc);
     return -1;
@@ -73,6 +78,11 @@ class client {
 
   int tpacall_queue(int msqid, const char *svc, char *data, long len,
                     long flags) {
+    return tpacall_queue(msqid, svc, data, len, flags, next_blocktime(flags));
+  }
+
+  int tpacall_queue(int msqid, const char *svc, char *data, long len,
+                    long flags, long blocktime) {
     if (data != nullptr) {
       if (tptypes(data, nullptr, nullptr) == -1) {
         return -1;
@@ -105,7 +115,7 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+    if (fux::ipc::qsend(msqid, rq, blocktime, to_flags(flags))) {
       fux::atmi::reset_tperrno();
       return rq->cd;
     }
@@ -123,6 +133,16 @@ class client {
   }
 
   int tpgetrply(int *cd, char **data, long *len, long flags) {
+    return tpgetrply(cd, data, len, flags, next_blocktime(flags));
+  }
+
+  int tpgetrply(int *cd, char **data, long *len, long flags, long blocktime) {
+    // The time limit is for the whole call no matter how many replies to other
+    // calls are received meanwhile
+    const auto deadline = (flags & TPNOTIME)
+                              ? INVALID_TIME
+                              : std::chrono::steady_clock::now() +
+                                    std::chrono::milliseconds(blocktime);
     if (cd == nullptr || data == nullptr) {
       TPERROR(TPEINVAL, "cd or data is null");
       return -1;
@@ -153,10 +173,17 @@ class client {
       }
 
       if (!has_res) {
-        mibcon_.accessers().at(client_).rpid_timeout =
-            std::chrono::steady_clock::now() +
-            std::chrono::milliseconds(next_blocktime());
-        fux::ipc::qrecv(rpid, res, 0, 0);
+        mibcon_.accessers().at(client_).rpid_timeout = deadline;
+        try {
+          fux::ipc::qrecv(rpid, res, 0, (flags & TPNOBLOCK) ? IPC_NOWAIT : 0);
+        } catch (const std::system_error &e) {
+          mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
+          if (e.code().value() == ENOMSG) {
+            TPERROR(TPEBLOCK, "No reply yet");
+            return -1;
+          }
+          throw;
+        }
         mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
         userlog("%s received on %0x", __func__, rpid);
       }
@@ -168,6 +195,12 @@ class client {
         continue;
       }
 
+      // Sent for one of the previous calls
+      if (res->cat == fux::ipc::unblock &&
+          std::chrono::steady_clock::now() < deadline) {
+        continue;
+      }
+
       if (res->cat == fux::ipc::unblock) {
         if (flags & TPGETANY) {
           *cd = 0;
@@ -270,8 +303,11 @@ class client {
     return timeout;
   }
 
-  long next_blocktime() {
+  long next_blocktime(long flags) {
     long blocktime = 0;
+    if (flags & TPNOTIME) {
+      return blocktime;
+    }
     if (blocktime_next != 0) {
       blocktime = blocktime_next;
       blocktime_next = 0;
@@ -395,11 +431,14 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
           return -1;
         }
         fux::suspend_guard g(!(flags & TPNOTRAN));
-        int cd = getclient().tpacall_group(-1, svc, idata, ilen, flags);
+        auto blocktime = getclient().next_blocktime(flags);
+        int cd =
+            getclient().tpacall_group(-1, svc, idata, ilen, flags, blocktime);
         if (cd == -1) {
           return -1;
         }
-        int ret = tpgetrply(&cd, odata, olen, flags & ~TPGETANY);
+        int ret = getclient().tpgetrply(
+            &cd, odata, olen, flags & ~(TPGETANY | TPNOBLOCK), blocktime);
         if (ret == -1) {
           getclient().forget(cd);
         }
-- 
2.43.0


From e2a8d60e72023a94d779a83e56672ccdcd58167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 44/82] fix: negative and large block times

---
 src/client.cpp | 7 ++++++-
 src/ipc.cpp    | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index b6ef923..289721e 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -252,8 +252,13 @@ class client {
     long what = flags - units;
     long timeout;
 
+    if (blktime < 0) {
+      TPERROR(TPEINVAL, "Invalid time passed to tpsblktime(%d, ...)", blktime);
+      return -1;
+    }
+
     if (units == TPBLK_SECOND) {
-      timeout = blktime * 1000;
+      timeout = blktime * 1000L;
     } else if (units == TPBLK_MILLISECOND) {
       timeout = blktime;
     } else {
diff --git a/src/ipc.cpp b/src/ipc.cpp
index ac66f5d..091c68e 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -155,9 +155,9 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
     }
   } else {  // noflags
     const long interval_msec = 100;
-    int times = msec / interval_msec + 2;
+    long times = msec / interval_msec + 2;
 
-    for (int i = 0; i < times; i++) {
+    for (long i = 0; i < times; i++) {
       int n = msgsnd(msqid, ptr, len - sizeof(long), IPC_NOWAIT);
       if (n != -1) {
         return true;
-- 
2.43.0


From cae0ef54381916d6a3dfec9a94636fe872674070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 45/82] fix: system errors had no code and call descriptors
 were lost

---
 src/client.cpp | 11 ++++++++---
 src/misc.h     |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 289721e..a1cf1c7 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -115,9 +115,14 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, blocktime, to_flags(flags))) {
-      fux::atmi::reset_tperrno();
-      return rq->cd;
+    try {
+      if (fux::ipc::qsend(msqid, rq, blocktime, to_flags(flags))) {
+        fux::atmi::reset_tperrno();
+        return rq->cd;
+      }
+    } catch (...) {
+      cds.forget(rq->cd);
+      throw;
     }
 
     if (flags & TPNOBLOCK) {
diff --git a/src/misc.h b/src/misc.h
index 3b45f1a..a3aa8e4 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -73,7 +73,7 @@ void exception_boundary(F &&f) noexcept {
     reset_tperrno();
     f();
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
   }
 }
 
@@ -83,7 +83,7 @@ auto exception_boundary(F &&f, R &&r) noexcept -> decltype(f()) {
     reset_tperrno();
     return f();
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
     return r;
   }
 }
-- 
2.43.0


From f23919f8d91c92cf3dd3f8d90c834917dce29be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 46/82] fix: services that do not return and withdrawn services
 left caller waiting

---
 src/server.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 59bbd56..6d53e4e 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -155,6 +155,12 @@ struct server_main {
     return 0;
   }
 
+  void (*find_service(const char *svcname))(TPSVCINFO *) {
+    fux::scoped_fuxlock lock(mutex);
+    auto it = advertisements.find(svcname);
+    return it != advertisements.end() ? it->second : nullptr;
+  }
+
   bool handle(long mtype, fux::fml32buf &buf) {
     // Do not want to see this message again
     mtype_ = -(mtype - 1);
@@ -327,8 +333,15 @@ static void dispatch() {
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
-      it->second(&tpsvcinfo);
+      auto func = main_ptr->find_service(tpsvcinfo.name);
+      if (func == nullptr) {
+        userlog("Service %s is not advertised", tpsvcinfo.name);
+        thread_ptr->tpreturn(TPENOENT, 0, nullptr, 0, TPNOFLAGS);
+      }
+      func(&tpsvcinfo);
+      userlog("Service %s returned without tpreturn() or tpforward()",
+              tpsvcinfo.name);
+      thread_ptr->tpreturn(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
     }
   }
 }
-- 
2.43.0


From b5f0b05e081a6e5eb494a19a01d03e42a47a1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 47/82] fix: advertising blocked while another thread waited
 for requests

---
 src/server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 6d53e4e..92a3b8f 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -80,6 +80,7 @@ struct server_main {
   struct tmsvrargs_t *tmsvrargs;
 
   std::mutex mutex;
+  std::mutex receive_mutex;
   std::map<const char *, void (*)(TPSVCINFO *), cmp_cstr> advertisements;
 
   mib &m_;
@@ -289,7 +290,7 @@ static void dispatch() {
     TPSVCINFO tpsvcinfo;
     {
       userlog("Dispatch loop");
-      fux::scoped_fuxlock lock(main_ptr->mutex);
+      fux::scoped_fuxlock lock(main_ptr->receive_mutex);
       if (main_ptr->stop) {
         break;
       }
-- 
2.43.0


From a24bf621f7ca3fbc849ca3c6064efa7ffa1f89b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 48/82] fix: shutdown request for another server was executed
 as a service

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index 92a3b8f..ffdcb1f 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -318,6 +318,7 @@ static void dispatch() {
           userlog("Not the target receiver of message, put back in queue");
           fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
                           fux::ipc::flags::notime);
+          continue;
         }
       }
     }  // lock
-- 
2.43.0


From 19bf30fd84c043157d0a8ef215179a90d336406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 49/82] fix: too long service name terminated the server

---
 src/server.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index ffdcb1f..23b64a4 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -101,6 +101,10 @@ struct server_main {
       TPERROR(TPEINVAL, "invalid svcname");
       return -1;
     }
+    if (strlen(svcname) >= XATMI_SERVICE_NAME_LENGTH) {
+      TPERROR(TPEINVAL, "svcname too long");
+      return -1;
+    }
     if (func == nullptr) {
       TPERROR(TPEINVAL, "invalid func");
       return -1;
-- 
2.43.0


From 236ceb038fe750a21c10574dbc99d66ec263e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 50/82] fix: server terminated when the caller or the next
 service was gone

---
 src/server.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 23b64a4..5d8ed4e 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -228,13 +228,12 @@ struct server_thread {
       longjmp(tpreturn_env, 1);
     }
 
+    if (svc == nullptr) {
+      throw std::invalid_argument("svc is null");
+    }
     int msqid = get_queue(svc);
     res.set_data(data, len);
 
-    if (data != nullptr && data != atmibuf) {
-      tpfree(data);
-    }
-
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
@@ -247,6 +246,10 @@ struct server_thread {
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
+
     longjmp(tpreturn_env, 1);
   }
 
@@ -269,7 +272,12 @@ struct server_thread {
       res->mtype = req->cd;
       res->cd = req->cd;
 
-      fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
+      try {
+        fux::ipc::qsend(req->replyq, res, 0, fux::ipc::flags::notime);
+      } catch (const std::exception &e) {
+        // The caller is gone
+        userlog("Failed to send reply: %s", e.what());
+      }
     }
   }
 
-- 
2.43.0


From 8066daf921dab0b9bababc4bcb34dd234f1e4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 51/82] fix: failures to join the domain or advertise were not
 reported

---
 src/client.cpp | 16 ++++++++++++----
 src/server.cpp |  6 ++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index a1cf1c7..4407a22 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -365,8 +365,12 @@ int tpinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpterm() {
@@ -383,8 +387,12 @@ int tpappthrinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrterm() {
diff --git a/src/server.cpp b/src/server.cpp
index 5d8ed4e..b7423ef 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -498,7 +498,8 @@ int tpadvertisex(char *svcname, void (*func)(TPSVCINFO *), long flags) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
-  return main_ptr->tpadvertisex(svcname, func, flags);
+  return fux::atmi::exception_boundary(
+      [&] { return main_ptr->tpadvertisex(svcname, func, flags); }, -1);
 }
 
 int tpunadvertise(char *svcname) {
@@ -506,7 +507,8 @@ int tpunadvertise(char *svcname) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
-  return main_ptr->tpunadvertise(svcname);
+  return fux::atmi::exception_boundary(
+      [&] { return main_ptr->tpunadvertise(svcname); }, -1);
 }
 
 void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
-- 
2.43.0


From 8aadaf5e1e8630c01aa836c5ab635b525a75a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 52/82] fix: services of stopped and killed servers stayed
 advertised

---
 src/mib.cpp    | 13 +++++++++++++
 src/mib.h      |  2 ++
 src/server.cpp | 10 ++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index e0ea266..b21570e 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -188,6 +188,19 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   services().at(service).modified();
 }
 
+// Everything advertised by the server
+void mib::unadvertise(size_t server) {
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    auto &advertisement = advertisements().at(i);
+    if (advertisement.service != badoff && advertisement.server == server) {
+      services().at(advertisement.service).modified();
+      advertisement.state = state_t::INValid;
+      advertisement.service = advertisement.queue = advertisement.server =
+          badoff;
+    }
+  }
+}
+
 size_t mib::find_queue(const std::string &rqaddr) {
   for (size_t i = 0; i < queues()->len; i++) {
     if (rqaddr == queues().at(i).rqaddr) {
diff --git a/src/mib.h b/src/mib.h
index c02ed2b..f923178 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -149,6 +149,8 @@ class mib {
   void advertise(const std::string &servicename, size_t queue, size_t server);
   void unadvertise(const std::string &servicename, size_t queue, size_t server);
 
+  void unadvertise(size_t server);
+
   size_t find_queue(const std::string &rqaddr);
   size_t make_queue(const std::string &rqaddr);
 
diff --git a/src/server.cpp b/src/server.cpp
index b7423ef..cf4ccc4 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -441,6 +441,11 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   main_ptr->argv = argv;
   main_ptr->tmsvrargs = tmsvrargs;
   fux::glob::xasw = tmsvrargs->xa_switch;
+  {
+    // Left from the previous instance if it was killed
+    auto lock = m.data_lock();
+    m.unadvertise(main_ptr->mib_server);
+  }
 
   if (int n = tmsvrargs->svrinit(argc, argv); n != 0) {
     userlog("tpsvrinit() = %d", n);
@@ -480,6 +485,11 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
 
   tmsvrargs->mainloop(0);
 
+  {
+    auto lock = m.data_lock();
+    m.unadvertise(main_ptr->mib_server);
+  }
+
   tmsvrargs->svrdone();
   main_ptr->inactive();
   if (main_thread_ptr->reply_to_shutdown) {
-- 
2.43.0


From fd1f5b96614674a58277a7a3f1d4fc6c91e45af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 53/82] fix: BBL terminated or hung when a client was gone

---
 src/BBL.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 8c6604a..dd49d2e 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -55,7 +55,13 @@ static void handle_blocktime() {
       req->cat = fux::ipc::unblock;
       userlog("Sending unblock message to client=%d queue=%0x", int(i),
               acc.rpid);
-      fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::notime);
+      try {
+        // Client with a full queue does not need unblocking
+        fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::noblock);
+      } catch (const std::exception &e) {
+        userlog("Failed to send unblock message to client=%d: %s", int(i),
+                e.what());
+      }
     }
   }
 }
-- 
2.43.0


From be3e678a5910fc2ef60ffd8dfbbbd4156c13e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 54/82] fix: tmboot and tmshutdown ignored server and group
 selection

---
 src/tmboot.cpp     | 7 +++++++
 src/tmshutdown.cpp | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index 8814da1..c82fdf8 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -125,6 +125,13 @@ int main(int argc, char *argv[]) {
     auto servers = m.servers();
     for (size_t i = 0; i < servers->len; i++) {
       auto &srv = servers[i];
+      if (srvid != -1 && srvid != srv.srvid) {
+        continue;
+      }
+      if (!grpname.empty() &&
+          (srv.grpno == 0 || grpname != m.group_by_id(srv.grpno).srvgrp)) {
+        continue;
+      }
       if (srv.autostart) {
         start(srv, no, d1);
       }
diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 87c7174..702df37 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -57,6 +57,11 @@ int main(int argc, char *argv[]) {
       if (srvid != -1 && srvid != server.srvid) {
         continue;
       }
+      if (!grpname.empty() &&
+          (server.grpno == 0 ||
+           grpname != m.group_by_id(server.grpno).srvgrp)) {
+        continue;
+      }
       if (server.pid == 0) {
         continue;
       }
@@ -96,7 +101,7 @@ int main(int argc, char *argv[]) {
     }
 
     tpterm();
-    if (srvid == -1) {
+    if (srvid == -1 && grpname.empty()) {
       m.remove();
     }
   } catch (const std::exception &e) {
-- 
2.43.0


From 99a8af671eb20f34bd06341d614fdd73cf5fed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 55/82] fix: tmshutdown waited for killed servers

---
 src/tmshutdown.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 702df37..0289be3 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -68,6 +68,14 @@ int main(int argc, char *argv[]) {
       if (server.is_inactive()) {
         continue;
       }
+      if (!alive(server.pid)) {
+        // Killed, will not reply
+        server.pid = 0;
+        server.state = state_t::INActive;
+        auto lock = m.data_lock();
+        m.unadvertise(i);
+        continue;
+      }
       server.suspend();
       auto &queue = queues.at(server.rqaddr);
 
-- 
2.43.0


From da68eb7d90de9214cd8f21de49a9745cfbb1f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 56/82] fix: SCANUNIT in seconds was refused

---
 src/ubb2mib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0b4d3b1..0a791a8 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -69,7 +69,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
   // scanunit to milliseconds
   std::transform(scanunit.begin(), scanunit.end(), scanunit.begin(),
                  [](unsigned char c) { return std::tolower(c); });
-  if (scanunit.compare(scanunit.size() - 2, 2, "ms")) {
+  if (scanunit.size() > 2 &&
+      scanunit.compare(scanunit.size() - 2, 2, "ms") == 0) {
     scanunit = scanunit.substr(0, scanunit.size() - 2);
   } else {
     scanunit += "000";
-- 
2.43.0


From 6d821cac7b26fb25f1e7fe7de7346a872943e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 57/82] fix: MAXSERVICES above 65535 was stored truncated

---
 src/tmloadcf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 9999622..c97cd1c 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -77,7 +77,7 @@ int main(int argc, char *argv[]) {
     tuxcfg.ipckey = std::stoi(config.resources.at("IPCKEY"));
     tuxcfg.maxservers = require(config.resources, "MAXSERVERS", 1, 8192, 50);
     tuxcfg.maxservices =
-        require(config.resources, "MAXSERVICES", 1, 1048575, 100);
+        require(config.resources, "MAXSERVICES", 1, 65535, 100);
     tuxcfg.maxgroups = require(config.resources, "MAXGROUPS", 1, 32768, 100);
     tuxcfg.maxqueues = require(config.resources, "MAXQUEUES", 1, 8192, 50);
     tuxcfg.maxaccessers =
-- 
2.43.0


From 4b6fe8243172e3f7621c45f9179aadc26d386a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 58/82] fix: tmloadcf replaced the configuration before
 checking the new one

---
 src/tmloadcf.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index c97cd1c..3bf0bca 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -83,18 +83,26 @@ int main(int argc, char *argv[]) {
     tuxcfg.maxaccessers =
         require(config.resources, "MAXACCESSERS", 1, 32768, 100);
 
-    std::ofstream fout(outfile, std::ios::binary);
-    fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
-
-    fin.clear();
-    fin.seekg(0);
-    fout << fin.rdbuf();
-
     //    tuxcfg.maxqueues = std::stoi(config.resources.at("MAXQUEUES"));
 
+    // Do not touch the existing configuration until the new one is valid
     mib m(tuxcfg, fux::mib::in_heap());
 
     ubb2mib(config, m);
+
+    if (noop) {
+      return 0;
+    }
+
+    std::ofstream fout;
+    fout.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+    fout.open(outfile, std::ios::binary);
+    fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
+
+    fin.clear();
+    fin.seekg(0);
+    fout << fin.rdbuf();
+    fout.close();
   } catch (const std::system_error &e) {
     std::cerr << e.code().message() << std::endl;
     return -1;
-- 
2.43.0


From 4dff6eb5154ae7e67a1b51d7b898ef024b64ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 59/82] fix: administrative requests failed after unadvertise
 and terminated BBL

---
 src/tpadmcall.cpp | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9fd2949..8e5ff26 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -176,6 +176,10 @@ static void t_svcgrp_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < svcgrp.length(); i++) {
     auto &adv = svcgrp.at(i);
+    if (adv.service == mib::badoff) {
+      // Unadvertised
+      continue;
+    }
     auto &service = m.services().at(adv.service);
     out.put(TA_SERVICENAME, oc, service.servicename);
     //    out.put(TA_SRVGRP, oc,
@@ -260,17 +264,23 @@ static std::map<std::tuple<std::string, std::string>,
                    {{"T_QUEUE", "GET"}, t_queue_get}};
 
 int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
-  fml32buf in(&inbuf);
-  fml32buf out(outbuf);
-
-  auto klass = in.get<std::string>(TA_CLASS, 0);
-  auto operation = in.get<std::string>(TA_OPERATION, 0);
-
-  auto func = implemented.find({klass, operation});
-  if (func == implemented.end()) {
-  } else {
-    func->second(in, out);
-  }
-
-  return -1;
+  return fux::atmi::exception_boundary(
+      [&] {
+        fml32buf in(&inbuf);
+        fml32buf out(outbuf);
+
+        auto klass = in.get<std::string>(TA_CLASS, 0);
+        auto operation = in.get<std::string>(TA_OPERATION, 0);
+
+        auto func = implemented.find({klass, operation});
+        if (func == implemented.end()) {
+          TPERROR(TPEINVAL, "%s %s is not supported", operation.c_str(),
+                  klass.c_str());
+          return -1;
+        }
+        func->second(in, out);
+        fux::atmi::reset_tperrno();
+        return 0;
+      },
+      -1);
 }
-- 
2.43.0


From 30566ecc4c7a71db7bf7c44bfb7badffadfff6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 60/82] fix: servers were reported in the wrong group

---
 src/tpadmcall.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 8e5ff26..d530e0d 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -137,10 +137,12 @@ static void t_server_get(fml32buf &in, fml32buf &out) {
   for (size_t i = 0; i < srv.length(); i++) {
     auto &server = srv.at(i);
 
-    out.put(TA_SRVGRP, oc, m.groups().at(server.group_idx).srvgrp);
+    // BBL does not belong to any group
+    auto grp = m.find_group(server.grpno);
+    out.put(TA_SRVGRP, oc, grp == mib::badoff ? "" : m.groups().at(grp).srvgrp);
     out.put(TA_SRVID, oc, server.srvid);
     out.put(TA_SERVERNAME, oc, server.servername);
-    out.put(TA_GRPNO, oc, m.groups().at(server.group_idx).grpno);
+    out.put(TA_GRPNO, oc, server.grpno);
     out.put(TA_STATE, oc, to_string(server.state));
     out.put(TA_BASESRVID, oc, server.basesrvid);
     out.put(TA_CLOPT, oc, server.clopt);
-- 
2.43.0


From acde2a622a8a301573796f2a4564d9516191e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 61/82] fix: long messages overflowed the buffer and mixed with
 other messages in userlog

---
 src/userlog.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/userlog.cpp b/src/userlog.cpp
index 978c6e3..5cfdb59 100644
--- a/src/userlog.cpp
+++ b/src/userlog.cpp
@@ -3,12 +3,14 @@
 
 #include <userlog.h>
 
+#include <fcntl.h>
 #include <stdarg.h>
 #include <sys/time.h>
 #include <sys/utsname.h>
 #include <time.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -47,11 +49,11 @@ int userlog(const char *fmt, ...) {
   snprintf(logfile, sizeof(logfile), "%s.%02d%02d%02d", ULOGPFX.c_str(),
            timeinfo.tm_mon + 1, timeinfo.tm_mday, timeinfo.tm_year % 100);
 
-  FILE *fout = fopen(logfile, "a");
-  if (fout == nullptr) {
+  int fd = open(logfile, O_WRONLY | O_APPEND | O_CREAT, 0666);
+  if (fd == -1) {
     return -1;
   }
-  auto _ = gsl::finally([&] { fclose(fout); });
+  auto _ = gsl::finally([&] { close(fd); });
 
   char buf[BUFSIZ];
   ssize_t n;
@@ -68,11 +70,20 @@ int userlog(const char *fmt, ...) {
 
   va_list ap;
   va_start(ap, fmt);
-  n += vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap);
+  auto len = vsnprintf(nullptr, 0, fmt, ap);
   va_end(ap);
-  buf[n++] = '\n';
-  buf[n] = 0;
-  fwrite(buf, n, 1, fout);
+  if (n < 0 || len < 0) {
+    return -1;
+  }
+
+  // Everything at once so lines of other processes do not get in between
+  std::string line(buf, std::min<size_t>(n, sizeof(buf) - 1));
+  n = line.size();
+  line.resize(n + len + 1);
+  va_start(ap, fmt);
+  vsnprintf(&line[n], len + 1, fmt, ap);
+  va_end(ap);
+  line.back() = '\n';
 
-  return 0;
+  return write(fd, line.data(), line.size()) == ssize_t(line.size()) ? 0 : -1;
 }
-- 
2.43.0


From 93a271740cf1703ec0faa56d62c78a4e6eb31fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 62/82] fix: late request could join another transaction

---
 src/client.cpp | 1 +
 src/ipc.h      | 2 ++
 src/server.cpp | 4 +++-
 src/trx.h      | 8 +++++++-
 src/tx.cpp     | 6 ++++--
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 4407a22..51b4d59 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -110,6 +110,7 @@ class client {
     if (!(flags & TPNOTRAN) && fux::tx::transactional()) {
       rq->flags |= TPTRAN;
       rq->gttid = fux::tx::gttid();
+      rq->xid = fux::tx::xid();
     } else {
       rq->flags = 0;
       rq->gttid = fux::bad_gttid;
diff --git a/src/ipc.h b/src/ipc.h
index f16e2b8..396533a 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -16,6 +16,7 @@
 #include <vector>
 
 #include <atmidefs.h>
+#include <xa.h>
 #include "defs.h"
 #include "misc.h"
 
@@ -64,6 +65,7 @@ struct msgfile : msgbase {
 struct msgmem : msgbase {
   char servicename[XATMI_SERVICE_NAME_LENGTH];
   fux::gttid gttid;
+  XID xid;
   long flags;
   int cd;
   int replyq;
diff --git a/src/server.cpp b/src/server.cpp
index cf4ccc4..e773c90 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -222,6 +222,7 @@ struct server_thread {
 
   void tpforward(char *svc, char *data, long len, long flags) {
     auto gttid = fux::tx::gttid();
+    auto xid = fux::tx::xid();
     bool transactional = fux::tx::transactional();
     if (transactional && !fux::tx_end(true)) {
       reply(TPESVCERR, 0, data, len, TPNOFLAGS);
@@ -243,6 +244,7 @@ struct server_thread {
     res->mtype = req->cd;
     res->cd = req->cd;
     res->gttid = gttid;
+    res->xid = xid;
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
@@ -341,7 +343,7 @@ static void dispatch() {
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN &&
-        !fux::tx_join(thread_ptr->req->gttid)) {
+        !fux::tx_join(thread_ptr->req->gttid, thread_ptr->req->xid)) {
       thread_ptr->reply(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
       continue;
     }
diff --git a/src/trx.h b/src/trx.h
index 84aaa2b..1990c20 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -14,11 +14,17 @@ namespace fux {
 
 namespace tx {
 fux::gttid gttid();
+const XID &xid();
 bool transactional();
+inline bool same(const XID &a, const XID &b) {
+  return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length &&
+         a.bqual_length == b.bqual_length &&
+         memcmp(a.data, b.data, a.gtrid_length + a.bqual_length) == 0;
+}
 }  // namespace tx
 void tx_resume();
 void tx_suspend();
-bool tx_join(fux::gttid id);
+bool tx_join(fux::gttid id, const XID &xid);
 bool tx_end(bool ok);
 
 inline std::string to_string(XID *xid) {
diff --git a/src/tx.cpp b/src/tx.cpp
index 4354b9b..1940dcc 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -476,13 +476,14 @@ bool tx_end(bool ok) {
   }
   return _tx_leave(ok) == TX_OK;
 }
-bool tx_join(fux::gttid gttid) {
+bool tx_join(fux::gttid gttid, const XID &xid) {
   TXINFO info;
   bool joined;
   try {
     auto lock = getmib().data_lock();
     info.xid = getmib().transactions().at(gttid).xid;
-    if (info.xid.formatID == -1) {
+    // The entry might be used by another transaction now
+    if (info.xid.formatID == -1 || !fux::tx::same(info.xid, xid)) {
       throw std::out_of_range("Transaction has ended");
     }
     joined = getmib().transactions().has_joined(gttid, fux::tx::grpidx);
@@ -501,6 +502,7 @@ bool tx_join(fux::gttid gttid) {
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
+const XID &xid() { return getctxt().info.xid; }
 bool transactional() { return !(getctxt().info.xid.formatID == -1); }
 }  // namespace tx
 };  // namespace fux
-- 
2.43.0


From af226b2aa065a709d82c664a4210c77aadda562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 63/82] fix: transactions were committed with failed and
 unfinished calls

---
 src/client.cpp | 33 ++++++++++++++++++++++++++++++++-
 src/resp.h     | 17 ++++++++++++++++-
 src/trx.h      |  5 +++--
 src/tx.cpp     | 21 +++++++++++++++++++++
 4 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 51b4d59..9a29bec 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -111,6 +111,9 @@ class client {
       rq->flags |= TPTRAN;
       rq->gttid = fux::tx::gttid();
       rq->xid = fux::tx::xid();
+      if (!(flags & TPNOREPLY)) {
+        cds.xid(rq->cd) = rq->xid;
+      }
     } else {
       rq->flags = 0;
       rq->gttid = fux::bad_gttid;
@@ -213,6 +216,9 @@ class client {
         } else {
           userlog("Received time-out for cd=%d", res->cd);
         }
+        if (!(flags & TPGETANY)) {
+          fux::tx::rollback_only(cds.xid(*cd));
+        }
         TPERROR(TPETIME, "Timeout message received");
         return -1;
       }
@@ -228,6 +234,9 @@ class client {
       res.get_data(data);
       tpurcode = res->rcode;
       *cd = res->cd;
+      if (res->rval != TPMINVAL) {
+        fux::tx::rollback_only(cds.xid(*cd));
+      }
       cds.release(*cd);
       if (len != nullptr) {
         *len = res.data_len();
@@ -243,16 +252,32 @@ class client {
   }
 
   int tpcancel(int cd) {
+    if (cds.is_allocated(cd) && cds.xid(cd).formatID != -1) {
+      TPERROR(TPETRAN, "Call is associated with transaction");
+      return -1;
+    }
     if (cds.release(cd) == -1) {
       return -1;
     }
-    // TPETRAN
     fux::atmi::reset_tperrno();
     return 0;
   }
 
   void forget(int cd) { cds.forget(cd); }
 
+  // The transaction can't be ended while it is used by services, replies that
+  // were not received can't be trusted
+  void wait(const XID &xid) {
+    int cd;
+    while ((cd = cds.any_of(xid)) != -1) {
+      fux::tx::rollback_only(xid);
+      auto data = tpalloc(const_cast<char *>("STRING"), nullptr, 0);
+      tpgetrply(&cd, &data, nullptr, TPNOFLAGS);
+      tpfree(data);
+      cds.forget(cd);
+    }
+  }
+
   int tpsblktime(int blktime, long flags) {
     long units = flags & 0xf0;
     long what = flags - units;
@@ -476,4 +501,10 @@ int tpgblktime(long flags) {
       [&] { return getclient().tpgblktime(flags); }, -1);
 }
 
+void tpwait(const XID &xid) {
+  if (current_client) {
+    current_client->wait(xid);
+  }
+}
+
 int get_queue(const char *svc) { return getclient().get_queue(svc); }
diff --git a/src/resp.h b/src/resp.h
index 929d781..25cfdbd 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -4,6 +4,7 @@
 #include "ipc.h"
 #include "mib.h"
 #include "misc.h"
+#include "trx.h"
 
 class responses {
  private:
@@ -11,6 +12,7 @@ class responses {
   struct response {
     flags status;
     fux::ipc::msg res;
+    XID xid;
   };
   std::map<int, response> calls_;
   int seq_;
@@ -40,10 +42,23 @@ class responses {
       // If cd wrapped around and cd has still no response
       // assume it will never come
     }
-    calls_[cd] = response{flags::none, {}};
+    calls_[cd] = response{flags::none, {}, {}};
+    calls_[cd].xid.formatID = -1;
     return cd;
   }
 
+  // Transaction of the call
+  XID &xid(int cd) { return calls_.at(cd).xid; }
+
+  int any_of(const XID &xid) {
+    for (auto &it : calls_) {
+      if (it.second.xid.formatID != -1 && fux::tx::same(it.second.xid, xid)) {
+        return it.first;
+      }
+    }
+    return -1;
+  }
+
   int check(int cd) {
     auto it = calls_.find(cd);
     if (it == calls_.end()) {
diff --git a/src/trx.h b/src/trx.h
index 1990c20..20442db 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -16,6 +16,7 @@ namespace tx {
 fux::gttid gttid();
 const XID &xid();
 bool transactional();
+void rollback_only(const XID &xid);
 inline bool same(const XID &a, const XID &b) {
   return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length &&
          a.bqual_length == b.bqual_length &&
@@ -167,9 +168,9 @@ struct transaction_table {
     throw std::out_of_range("No free entries in transaction table");
   }
 
-  fux::gttid find(XID &xid) {
+  fux::gttid find(const XID &xid) {
     for (size_t i = 0; i < len; i++) {
-      XID &x = (*this)[i].xid;
+      const XID &x = (*this)[i].xid;
       if (x.formatID == xid.formatID && x.gtrid_length == xid.gtrid_length &&
           x.bqual_length == xid.bqual_length &&
           memcmp(x.data, xid.data, xid.gtrid_length + xid.bqual_length) == 0) {
diff --git a/src/tx.cpp b/src/tx.cpp
index 1940dcc..7299a0e 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -255,6 +255,8 @@ static std::vector<branch> collect(XID *xid) {
   return branches;
 }
 
+void tpwait(const XID &xid);
+
 static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
   // Only the initiator decides, not the participants
@@ -269,6 +271,12 @@ int tx_commit() {
     return rc;
   }
 
+  tpwait(info.xid);
+  if (getmib().transactions()[gttid].state == transaction::do_rollback) {
+    // Some of the work was not done
+    rc = TX_FAIL;
+  }
+
   std::vector<branch> branches1 = collect(&info.xid);
   std::vector<branch> branches2;
   bool commit = true;
@@ -323,6 +331,7 @@ int tx_rollback() {
     return rc;
   }
 
+  tpwait(info.xid);
   std::vector<branch> branches = collect(&info.xid);
 
   command(branches, &info.xid, fux::tm::rollback);
@@ -503,6 +512,18 @@ bool tx_join(fux::gttid gttid, const XID &xid) {
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
 const XID &xid() { return getctxt().info.xid; }
+void rollback_only(const XID &xid) {
+  if (xid.formatID == -1) {
+    return;
+  }
+  try {
+    auto lock = getmib().data_lock();
+    auto &transactions = getmib().transactions();
+    transactions[transactions.find(xid)].state = transaction::do_rollback;
+  } catch (const std::out_of_range &e) {
+    userlog("Transaction has ended already: %s", e.what());
+  }
+}
 bool transactional() { return !(getctxt().info.xid.formatID == -1); }
 }  // namespace tx
 };  // namespace fux
-- 
2.43.0


From 67a5ba3722633ee07b90a7b7eca2ce043ca4691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 64/82] fix: comments after parameters and a missing last
 newline were refused

---
 src/ubbreader.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ubbreader.h b/src/ubbreader.h
index 0d75c0e..526b749 100644
--- a/src/ubbreader.h
+++ b/src/ubbreader.h
@@ -31,8 +31,7 @@ class ubbreader : public basic_parser {
             throw basic_parser_error("RESOURCES section must have PARAM VALUE",
                                      row_, "VALUE");
           }
-          whitespace();
-          if (!accept('\n')) {
+          if (!parse_till_eol() && !eof()) {
             throw basic_parser_error("RESOURCES section must have PARAM VALUE",
                                      row_, "");
           }
@@ -76,7 +75,7 @@ class ubbreader : public basic_parser {
       if (!name(section)) {
         throw basic_parser_error("section name expected", row_, "*SECTION");
       }
-      if (!parse_till_eol()) {
+      if (!parse_till_eol() && !eof()) {
         throw basic_parser_error("newline expected", row_, "*SECTION");
       }
       return true;
@@ -86,12 +85,15 @@ class ubbreader : public basic_parser {
 
   bool parse_params(ubb_params *ubbparams) {
     while (true) {
-      whitespace();
       // Continued on next line
-      if (accept('\n')) {
+      if (parse_till_eol()) {
         if (!whitespace()) {
           return true;
         }
+        continue;
+      }
+      if (eof()) {
+        return true;
       }
 
       std::string key, value;
-- 
2.43.0


From f17d56e6794f7800a1f8f825c33e6821caa8cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 65/82] fix: threads attached to the domain at the same time
 crashed

---
 src/mib.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index b21570e..b14748e 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 
@@ -446,16 +447,23 @@ void mib::remove(std::vector<int> &q, std::vector<int> &m,
 void ubb2mib(ubbconfig &u, mib &m);
 
 mib &getmib() {
+  static std::mutex mutex;
   static std::unique_ptr<mib> mibcon;
 
+  // May be used by several threads from the start
+  std::lock_guard<std::mutex> guard(mutex);
   if (!mibcon.get()) {
     auto cfg = getconfig();
-    mibcon = std::make_unique<mib>(cfg);
-    if (mibcon->servers()->len == 0) {
-      ubbconfig u;
-      getconfig(&u);
-      ubb2mib(u, *mibcon.get());
+    auto con = std::make_unique<mib>(cfg);
+    {
+      auto lock = con->data_lock();
+      if (con->servers()->len == 0) {
+        ubbconfig u;
+        getconfig(&u);
+        ubb2mib(u, *con.get());
+      }
     }
+    mibcon = std::move(con);
   }
 
   return *mibcon.get();
-- 
2.43.0


From 4773d3afa7e78c83efcf6dcc460031831e9e1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 66/82] fix: two servers joining a transaction at the same time
 could both fail

---
 src/tx.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 7299a0e..7726899 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -501,9 +501,11 @@ bool tx_join(fux::gttid gttid, const XID &xid) {
     userlog("Failed to join transaction: %s", e.what());
     return false;
   }
-  // The first one in the group starts the branch, the others join it
-  if (_tx_start(&info, joined ? TMJOIN : TMNOFLAGS) != TX_OK &&
-      _tx_start(&info, joined ? TMNOFLAGS : TMJOIN) != TX_OK) {
+  // The first one in the group starts the branch, the others join it. The
+  // first one might not have started it yet or might start it right after that.
+  if (!(joined && _tx_start(&info, TMJOIN) == TX_OK) &&
+      _tx_start(&info, TMNOFLAGS) != TX_OK &&
+      _tx_start(&info, TMJOIN) != TX_OK) {
     return false;
   }
   getctxt().gttid = gttid;
-- 
2.43.0


From c18aa2a33b59ca559d90bcbc8bb02f7e745b98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 67/82] fix: requests with other types of data confused or
 stopped BBL and TMS

---
 src/BBL.cpp |  5 ++++-
 src/fux.h   |  8 ++++++++
 src/tx.cpp  | 12 ++++++++++--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index dd49d2e..12fe95a 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -120,7 +120,10 @@ extern "C" void TMIB(TPSVCINFO *svcinfo) {
   fux::fml32buf rq(svcinfo);
   fux::fml32buf rs;
 
-  tpadmcall(rq.ptr(), rs.ptrptr(), 0);
+  if (!fux::is_fml32(svcinfo) || tpadmcall(rq.ptr(), rs.ptrptr(), 0) == -1) {
+    userlog("Invalid request to .TMIB");
+    fux::tpreturn(TPFAIL, 0, rs);
+  }
 
   fux::tpreturn(TPSUCCESS, 0, rs);
 }
diff --git a/src/fux.h b/src/fux.h
index 258c952..5816c69 100644
--- a/src/fux.h
+++ b/src/fux.h
@@ -205,6 +205,14 @@ class fml32buf {
   }
 };
 
+// Requests may contain any type of buffer
+inline bool is_fml32(TPSVCINFO *svcinfo) {
+  char type[8 + 1] = "";
+  return svcinfo->data != nullptr &&
+         ::tptypes(svcinfo->data, type, nullptr) != -1 &&
+         std::string("FML32") == type;
+}
+
 inline void tpreturn(int rval, long rcode, fml32buf &buf) {
   ::tpreturn(rval, rcode, reinterpret_cast<char *>(*buf.ptrptr()), 0, 0);
 }
diff --git a/src/tx.cpp b/src/tx.cpp
index 7726899..23892b7 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -655,6 +655,14 @@ static void tm(fux::fml32buf &buf) {
 
 extern "C" void TM(TPSVCINFO *svcinfo) {
   fux::fml32buf buf(svcinfo);
-  tm(buf);
-  fux::tpreturn(TPSUCCESS, 0, buf);
+  bool ok = fux::is_fml32(svcinfo);
+  if (ok) {
+    try {
+      tm(buf);
+    } catch (const std::exception &e) {
+      userlog("Invalid request to TM: %s", e.what());
+      ok = false;
+    }
+  }
+  fux::tpreturn(ok ? TPSUCCESS : TPFAIL, 0, buf);
 }
-- 
2.43.0


From c41bca67fe3de1bfa2946f61cd0b60fd2d782173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 68/82] fix: services that nobody offers were still shown as
 active

---
 src/mib.cpp | 15 ++++++++++++++-
 src/mib.h   |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index b14748e..8f8b731 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -186,6 +186,18 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   advertisement.state = state_t::INValid;
   advertisement.service = advertisement.queue = advertisement.server = badoff;
 
+  withdrawn(service);
+}
+
+// One of the advertisements of the service is gone
+void mib::withdrawn(size_t service) {
+  bool offered = false;
+  for (size_t i = 0; i < advertisements()->len && !offered; i++) {
+    offered = advertisements().at(i).service == service;
+  }
+  if (!offered) {
+    services().at(service).state = state_t::INActive;
+  }
   services().at(service).modified();
 }
 
@@ -194,10 +206,11 @@ void mib::unadvertise(size_t server) {
   for (size_t i = 0; i < advertisements()->len; i++) {
     auto &advertisement = advertisements().at(i);
     if (advertisement.service != badoff && advertisement.server == server) {
-      services().at(advertisement.service).modified();
+      auto service = advertisement.service;
       advertisement.state = state_t::INValid;
       advertisement.service = advertisement.queue = advertisement.server =
           badoff;
+      withdrawn(service);
     }
   }
 }
diff --git a/src/mib.h b/src/mib.h
index f923178..68d5715 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -193,6 +193,7 @@ class mib {
 
  private:
   size_t find_advertisement(size_t service, size_t queue, size_t server);
+  void withdrawn(size_t service);
   void init_memory();
 
   tuxconfig cfg_;
-- 
2.43.0


From 8eedb20fcf143ab384800d58caa00803c4867af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 69/82] fix: MIN and MAX of servers were not shown

---
 src/ubb2mib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0a791a8..617d674 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -138,6 +138,9 @@ void ubb2mib(ubbconfig &u, mib &m) {
       auto &server = servers.at(m.make_server(srvid, grpno, srvconf.first,
                                               srvconf.second["CLOPT"], rqaddr));
       server.autostart = n < min;
+      server.basesrvid = basesrvid;
+      server.min = min;
+      server.max = max;
       server.mindispatchthreads = minthreads;
       server.maxdispatchthreads = maxthreads;
     }
-- 
2.43.0


From 611e2d45ea2a1e2630b497302a457fcafcbcb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 70/82] fix: headers got a wrong name, several views in a file
 were refused

---
 src/view32.h    |  6 ++++++
 src/viewc32.cpp | 12 +++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/view32.h b/src/view32.h
index d757c45..2b975bf 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -63,6 +63,7 @@ class view_parser : public basic_parser {
                                      "VIEW\tVIEWNAME\nEND");
           }
           done_ = true;
+          name_.clear();
       entries_.push_back(
           {nullptr, nullptr, nullptr, std::make_unique<std::string>("end")});
         } else if (first == "VIEW") {
@@ -74,9 +75,14 @@ class view_parser : public basic_parser {
             throw basic_parser_error("View name expected", row_,
                                      "VIEW\tVIEWNAME");
           }
+          done_ = false;
         entries_.push_back(
           {nullptr, nullptr, std::make_unique<std::string>(name_), nullptr});
         } else {
+          if (name_.empty()) {
+            throw basic_parser_error("No view definition", row_,
+                                     "VIEW\tVIEWNAME\nEND");
+          }
           std::string type = first;
 
           std::string cname, fbname, count, flag, size, nullv;
diff --git a/src/viewc32.cpp b/src/viewc32.cpp
index 0764278..4b73f05 100644
--- a/src/viewc32.cpp
+++ b/src/viewc32.cpp
@@ -21,16 +21,10 @@ static void process_file(const std::string &file, bool no_fml,
   p.parse();
 
   std::ofstream fout;
-  auto slash = file.find_last_of('/');
-  if (slash == std::string::npos) {
-    slash = 0;
-  }
-  auto dot = file.find_last_of('.');
-  if (dot != std::string::npos && dot < slash) {
-    dot = std::string::npos;
-  }
+  auto name = file.substr(file.find_last_of('/') + 1);
+  name = name.substr(0, name.find_last_of('.'));
   fout.exceptions(std::ifstream::failbit | std::ifstream::badbit);
-  fout.open(output_directory + "/" + file.substr(slash, dot) + ".h");
+  fout.open(output_directory + "/" + name + ".h");
 
   for (auto &i : p.entries()) {
     if (i.r) {
-- 
2.43.0


From 27544a02f7ba8ce768647249cbdbc3dcb19549a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 71/82] fix: views with unknown types or impossible counts and
 sizes were accepted

---
 src/view32.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/view32.h b/src/view32.h
index 2b975bf..eb53c76 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -99,10 +99,22 @@ class view_parser : public basic_parser {
                 "type\ncname\tfbname\tcount\tflag\tsize\tnull");
           }
 
+          if (type != "short" && type != "int" && type != "long" &&
+              type != "float" && type != "double" && type != "char" &&
+              type != "string" && type != "carray" && type != "dec_t") {
+            throw basic_parser_error("Unknown type", row_, "");
+          }
+          if (!positive(count)) {
+            throw basic_parser_error("Invalid count", row_, "");
+          }
+
           if (size.size() > 0) {
             if (type != "string" && type != "carray" && type != "dec_t") {
               throw basic_parser_error("Size supported only for string, carray and dec_t types", row_, "");
             }
+            if (type != "dec_t" && !positive(size)) {
+              throw basic_parser_error("Invalid size", row_, "");
+            }
           }
 
           for (auto c : flag) {
@@ -128,6 +140,10 @@ class view_parser : public basic_parser {
     return accept('-') || unsigned_number(s);
   }
 
+  static bool positive(const std::string &s) {
+    return s.find('.') == std::string::npos && std::stol(s) > 0;
+  }
+
   bool null_value(std::string *s) {
     s->clear();
     if (accept('-')) {
-- 
2.43.0


From fba85bef4ef5b3d2ef609e6b4f31e63149466095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 72/82] fix: ud32 crashed after replies of other types and
 without a service name

---
 src/extreader.h |  1 +
 src/ud32.cpp    | 21 +++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/extreader.h b/src/extreader.h
index 0282847..575de27 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -23,6 +23,7 @@ class extreader : public basic_parser {
   }
   void finish() { unread(); }
   FBFR32 *get() { return buf.get(); }
+  FBFR32 *release() { return buf.release(); }
 
  private:
   fux::fml32ptr buf;
diff --git a/src/ud32.cpp b/src/ud32.cpp
index b9bd3fc..da82e6e 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -10,6 +10,8 @@
 
 #include <atmi.h>
 
+#include <gsl/gsl_util>
+
 #include "extreader.h"
 #include "fux.h"
 
@@ -50,13 +52,18 @@ int main(int argc, char *argv[]) {
   try {
     extreader r(stdin);
     r.parse();
-    FBFR32 *fbfr = r.get();
+    // The buffer may be replaced by the reply
+    FBFR32 *fbfr = r.release();
+    auto _ = gsl::finally([&] { tpfree(reinterpret_cast<char *>(fbfr)); });
     fux::fml32buf rq(&fbfr);
 
-    char *srvcnm = Ffind32(fbfr, SRVCNM, 0, nullptr);
-    if (srvcnm == nullptr) {
+    char *name = Ffind32(fbfr, SRVCNM, 0, nullptr);
+    if (name == nullptr) {
       fprintf(stderr, "No service name found (%s)\n", Fstrerror32(Ferror32));
+      return -1;
     }
+    std::string service(name);
+    auto srvcnm = &service[0];
     Fprint32(fbfr);
 
     if (timeout > 0) {
@@ -76,7 +83,13 @@ int main(int argc, char *argv[]) {
               tpstrerror(tperrno));
     }
 
-    Fprint32(fbfr);
+    char type[8 + 1] = "";
+    if (tptypes(reinterpret_cast<char *>(fbfr), type, nullptr) == -1 ||
+        std::string("FML32") != type) {
+      fprintf(stderr, "%s returned %s, not FML32\n", srvcnm, type);
+    } else {
+      Fprint32(fbfr);
+    }
     if (cd == -1) {
       if (timeout > 0) {
         tpabort(0);
-- 
2.43.0


From 0063dc8ce91e54c565a0ba8c79ce8632103e2a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 73/82] fix: ud32 sent requests outside of a transaction it
 could not start

---
 src/ud32.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index da82e6e..48190d3 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -66,8 +66,9 @@ int main(int argc, char *argv[]) {
     auto srvcnm = &service[0];
     Fprint32(fbfr);
 
-    if (timeout > 0) {
-      tpbegin(timeout, 0);
+    if (timeout > 0 && tpbegin(timeout, 0) == -1) {
+      fprintf(stderr, "tpbegin failed %d %s\n", tperrno, tpstrerror(tperrno));
+      return -1;
     }
 
     int cd;
-- 
2.43.0


From 315dca37a9aef661ead46db9c5d68d3d28603e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 74/82] fix: options -p and -r of ud32 had no effect

---
 src/ud32.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index 48190d3..fe6c6f1 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -64,7 +64,9 @@ int main(int argc, char *argv[]) {
     }
     std::string service(name);
     auto srvcnm = &service[0];
-    Fprint32(fbfr);
+    if (!noprint) {
+      Fprint32(fbfr);
+    }
 
     if (timeout > 0 && tpbegin(timeout, 0) == -1) {
       fprintf(stderr, "tpbegin failed %d %s\n", tperrno, tpstrerror(tperrno));
@@ -73,7 +75,7 @@ int main(int argc, char *argv[]) {
 
     int cd;
     if (noreply) {
-      cd = tpacall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0, TPNOFLAGS);
+      cd = tpacall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0, TPNOREPLY);
     } else {
       long olen = 0;
       cd = tpcall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0,
@@ -88,7 +90,7 @@ int main(int argc, char *argv[]) {
     if (tptypes(reinterpret_cast<char *>(fbfr), type, nullptr) == -1 ||
         std::string("FML32") != type) {
       fprintf(stderr, "%s returned %s, not FML32\n", srvcnm, type);
-    } else {
+    } else if (!noprint) {
       Fprint32(fbfr);
     }
     if (cd == -1) {
-- 
2.43.0


From 2899fa5cb44f5942b7a8f70c4989906e32d7ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 75/82] fix: buildserver crashed in directories that cannot be
 written

---
 src/buildserver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buildserver.cpp b/src/buildserver.cpp
index 3c4268b..1b14b0c 100644
--- a/src/buildserver.cpp
+++ b/src/buildserver.cpp
@@ -9,7 +9,9 @@
 
 #include <sys/wait.h>
 #include <unistd.h>
+#include <cerrno>
 #include <cstdio>
+#include <cstring>
 
 #include "build.h"
 #include "misc.h"
@@ -140,6 +142,11 @@ int main(int argc, char *argv[]) {
 
   char tmpname[] = "fuxedo-XXXXXX";
   int fd = mkstemp(tmpname);
+  if (fd == -1) {
+    std::cerr << "Failed to create " << tmpname << ": " << strerror(errno)
+              << std::endl;
+    return -1;
+  }
   FILE *fout = fdopen(fd, "w");
 
   gencode(fout, parse_services(services), threads,
-- 
2.43.0


From 64c3775f949098e2720473090d0dc33044cff1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 76/82] fix: buildserver crashed if a line of the RM file had
 no linker options

---
 src/build.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/build.h b/src/build.h
index 7662796..1734996 100644
--- a/src/build.h
+++ b/src/build.h
@@ -22,7 +22,13 @@ static std::map<std::string, rminfo> parse_rm(const std::string &filename) {
       continue;
     }
     auto parts = fux::split(line, ":");
-    rms.insert(std::make_pair(parts.at(0), rminfo{parts.at(1), parts.at(2)}));
+    if (parts.size() < 2) {
+      continue;
+    }
+    // Options for the linker may be left out
+    rms.insert(std::make_pair(
+        parts.at(0),
+        rminfo{parts.at(1), parts.size() > 2 ? parts.at(2) : std::string()}));
   }
   return rms;
 }
-- 
2.43.0


From 64aa71a067b3bd721331c053977f365353634e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 77/82] fix: buildclient did not use CFLAGS

---
 src/buildclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildclient.cpp b/src/buildclient.cpp
index 854425f..3135bbc 100644
--- a/src/buildclient.cpp
+++ b/src/buildclient.cpp
@@ -56,7 +56,7 @@ int main(int argc, char *argv[]) {
   cmd.push_back(outfile);
   cmd.insert(cmd.end(), lastfiles.begin(), lastfiles.end());
 
-  auto command = join(cmd, " ");
+  auto command = join(cmd, " ") + " " + cflags;
 
   if (verbose) {
     std::cout << command << std::endl;
-- 
2.43.0


From b3d8b07e9f6ba4dcfe55cae941c488c2b907f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 78/82] fix: names of fields returned earlier were freed by
 loading field tables again

---
 src/fbfr32fld.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 5ecfd71..a1b18bc 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -97,7 +97,7 @@ struct Fbfr32fields {
   }
 
  private:
-  bool read_fld32_file(const std::string &fname) {
+  bool read_fld32_file(const std::string &fname, bool names, bool ids) {
     std::ifstream fields(fname);
     if (!fields) {
       return false;
@@ -106,8 +106,12 @@ struct Fbfr32fields {
     field_table_parser p(fields);
     p.parse();
     for (auto field : p.fields()) {
-      id_to_name.insert(make_pair(field.fieldid, field.name));
-      name_to_id.insert(make_pair(field.name, field.fieldid));
+      if (names) {
+        id_to_name.insert(make_pair(field.fieldid, field.name));
+      }
+      if (ids) {
+        name_to_id.insert(make_pair(field.name, field.fieldid));
+      }
     }
 
     return true;
@@ -126,15 +130,18 @@ struct Fbfr32fields {
 
     std::unique_lock<std::shared_timed_mutex> lock(mutex);
 
-    id_to_name.clear();
-    name_to_id.clear();
+    // A mapping that is loaded stays as it is, names from it are in use
+    bool names = !id_to_name_loaded, ids = !name_to_id_loaded;
+    if (!names && !ids) {
+      return;
+    }
 
     id_to_name_loaded = true;
     name_to_id_loaded = true;
 
     for (auto &fname : files) {
       for (auto &dname : dirs) {
-        if (read_fld32_file(dname + "/" + fname)) {
+        if (read_fld32_file(dname + "/" + fname, names, ids)) {
           break;
         }
       }
-- 
2.43.0


From 92b396b32a77c155f4dc631fc90e67df7db9ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:13 +0000
Subject: [PATCH 79/82] fix: tmipcrm asked forever at the end of the input

---
 src/tmipcrm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tmipcrm.cpp b/src/tmipcrm.cpp
index acdc517..4cc645f 100644
--- a/src/tmipcrm.cpp
+++ b/src/tmipcrm.cpp
@@ -4,6 +4,7 @@
 #include <clara.hpp>
 #include <cstdlib>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 #include "mib.h"
@@ -11,7 +12,9 @@
 static std::string input(const std::string &prompt) {
   std::cout << prompt << std::flush;
   std::string in;
-  std::getline(std::cin, in);
+  if (!std::getline(std::cin, in)) {
+    throw std::runtime_error("No answer");
+  }
   return in;
 }
 
-- 
2.43.0


From d759b0324ca7822c551015199c1ea6dcd90d4207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:28 +0000
Subject: [PATCH 80/82] fix: allocations that are too large crashed instead of
 being refused

---
 src/fml32.cpp | 8 ++++++++
 src/mem.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index 7ff6e40..dd8dc73 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -132,6 +132,10 @@ FBFR32 *Falloc32(FLDOCC32 F, FLDLEN32 V) {
   fux::fml32::reset_Ferror32();
   long buflen = Fneeded32(F, V);
   FBFR32 *fbfr = (FBFR32 *)malloc(buflen);
+  if (fbfr == nullptr) {
+    FERROR(FMALLOC, "cannot allocate %ld bytes", buflen);
+    return nullptr;
+  }
   Finit32(fbfr, buflen);
   return fbfr;
 }
@@ -185,6 +189,10 @@ FBFR32 *Frealloc32(FBFR32 *fbfr, FLDOCC32 F, FLDLEN32 V) {
 
   fux::fml32::reset_Ferror32();
   fbfr = (FBFR32 *)realloc(fbfr, buflen);
+  if (fbfr == nullptr) {
+    FERROR(FMALLOC, "cannot allocate %ld bytes", buflen);
+    return nullptr;
+  }
   fbfr->reinit(buflen);
   return fbfr;
 }
diff --git a/src/mem.cpp b/src/mem.cpp
index d7c8b8a..fa50db9 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -75,6 +75,10 @@ char *tpalloc(char *type, char *subtype, long size) {
 
   size = size >= tptype->default_size ? size : tptype->default_size;
   auto mem = (tpmem *)malloc(sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "cannot allocate %ld bytes", size);
+    return nullptr;
+  }
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wstringop-truncation"
   strncpy(mem->type, type, sizeof(mem->type));
@@ -111,6 +115,10 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "cannot allocate %ld bytes", size);
+    return nullptr;
+  }
   mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
-- 
2.43.0


From fbe15728036db28c1b74f2121ceca7eee8deb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:41 +0000
Subject: [PATCH 81/82] fix: tptypes did not return the size of the buffer

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index fa50db9..486daf0 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -169,7 +169,7 @@ long tptypes(char *ptr, char *type, char *subtype) {
   }
 
   fux::atmi::reset_tperrno();
-  return 0;
+  return mem->size;
 }
 
 int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
-- 
2.43.0


From 461f5d989f93c01c457fdafe34e4ff7ce7cc802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:38 +0000
Subject: [PATCH 82/82] fix: withdraw the services of a server that failed to
 start

tmboot reported a server as failed and forgot its process, but what it had
advertised in tpsvrinit() (or before the advertisement of its table failed)
stayed in the bulletin board: callers got the dead server's queue and waited
for the time limit instead of TPENOENT or another server.
---
 src/tmboot.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index c82fdf8..dd7cb10 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -15,7 +15,8 @@
 #include "mib.h"
 #include "misc.h"
 
-static void start(server &srv, bool no, bool d1) {
+static void start(mib &m, size_t idx, bool no, bool d1) {
+  auto &srv = m.servers().at(idx);
   std::vector<const char *> argv;
   argv.push_back(srv.servername);
   argv.push_back("-g");
@@ -73,6 +74,12 @@ static void start(server &srv, bool no, bool d1) {
       std::cout << "\tprocess id=" << srv.pid << " ... Started." << std::endl;
     } else {
       srv.pid = 0;
+      srv.state = state_t::INActive;
+      {
+        // Nobody will serve what it advertised before failing
+        auto lock = m.data_lock();
+        m.unadvertise(idx);
+      }
       std::cout << "\tFailed." << std::endl;
     }
   }
@@ -133,7 +140,7 @@ int main(int argc, char *argv[]) {
         continue;
       }
       if (srv.autostart) {
-        start(srv, no, d1);
+        start(m, i, no, d1);
       }
     }
   } catch (const std::exception &e) {
-- 
2.43.0

