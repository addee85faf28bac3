From 3b5c202acd2298d73344d005ffdfd6b473cfae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 01/77] fix: matching_command must not overwrite the long title
 index of a command

Assigning through the reference `li` replaced _long_commands by _short_commands as soon as
one word was looked up as a short title.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8060aae..d7bb926 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -244,9 +244,9 @@ namespace cmdr {
       auto *p2    = it->second;
       cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, true));
     } else {
-      li              = c._short_commands;
-      auto const &it1 = li.find(pc.title);
-      if (it1 != li.end()) {
+      auto &lis       = c._short_commands;
+      auto const &it1 = lis.find(pc.title);
+      if (it1 != lis.end()) {
         cmr.matched = true;
         auto *p2    = it1->second;
         cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
-- 
2.43.0


From 5a3974c89401b4b64ba575e31a6f96f4d2f9a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 02/77] fix: count a hit only for the flag which is matched
 finally

matching_flag_on() bumped the hit count of each shorter candidate on its way to the longest
match, and carried the hit_long/hit_special state of those candidates over.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index d7bb926..259da5d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -260,6 +260,7 @@ namespace cmdr {
                         bool is_long, bool is_special,
                         std::function<opt::types::indexed_args const &(opt::cmd *)> const &li) {
     arg_matching_result amr;
+    opt::arg *best{};
     auto &mc = pc.matched_commands();
 
     for (auto it = mc.rbegin(); it != mc.rend(); it++) {
@@ -275,17 +276,13 @@ namespace cmdr {
               amr.matched        = true;
               amr.matched_length = (int) itz.first.length();
               amr.matched_str    = itz.first;
-              is_long |= itz.second->hit_long();
-              is_special |= itz.second->hit_special();
-              amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+              best               = itz.second;
             }
           } else {
             amr.matched        = true;
             amr.matched_length = (int) itz.first.length();
             amr.matched_str    = itz.first;
-            is_long |= itz.second->hit_long();
-            is_special |= itz.second->hit_special();
-            amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+            best               = itz.second;
             break;
           }
         }
@@ -296,6 +293,13 @@ namespace cmdr {
         goto lookup_parents;
       }
     }
+
+    // count the hit once, for the flag which has been chosen at last
+    if (best != nullptr) {
+      is_long |= best->hit_long();
+      is_special |= best->hit_special();
+      amr.obj = (cmdr::opt::arg *) &(best->update_hit_count(amr.matched_str, 1, is_long, is_special));
+    }
     return amr;
   }
 
-- 
2.43.0


From 2b38fb1beda4f560b2706d55a1eaa25e6d30afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 03/77] fix: strip_quotes() keeps the closing quote and runs
 out of bounds on quotes-only text

substr() takes a length, not an end position.
---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 68372ef..65483dd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -441,10 +441,9 @@ namespace cmdr::string {
   inline std::string strip_quotes(const std::string &str) {
     if (str.empty()) return str;
     std::size_t p1 = 0, p2 = str.length() - 1;
-    while (str[p1] == '"' || str[p1] == '\'') p1++;
-    while (str[p2] == '"' || str[p2] == '\'') p2--;
-    if (p2 + 1 < p1) p2 = p1 - 1;
-    return str.substr(p1, p2 + 1);
+    while (p1 <= p2 && (str[p1] == '"' || str[p1] == '\'')) p1++;
+    while (p2 > p1 && (str[p2] == '"' || str[p2] == '\'')) p2--;
+    return str.substr(p1, p2 + 1 - p1);
   }
 
   inline void strip_quotes(std::istream &is, std::string &s) {
-- 
2.43.0


From 3b33f90af996a3b1a66e3e19364ba263497a0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 04/77] fix: read_until() never returns when a long delimiter
 is absent or split over reads

It compared the tail with the delimiter after appending only its first character, and went
on reading at the end of the stream.
---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 30 +++++++----------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 65483dd..dd6a40c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -401,29 +401,17 @@ namespace cmdr::string {
 
   inline std::string read_until(std::istream &in, char const *delimiter = ",") {
     std::string cr;
-    char de   = *delimiter;
-    size_t sz = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      std::getline(in, temp, de);
-      cr += temp + de;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    return cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    const std::size_t sz = std::strlen(delimiter);
+    for (char ch; in.get(ch);) {
+      cr += ch;
+      if (cr.size() >= sz && cr.compare(cr.size() - sz, sz, delimiter) == 0)
+        return cr.substr(0, cr.size() - sz); // or return cr; if you want to keep the delimiter
+    }
+    return cr;
   }
-
   inline bool read_until(std::istream &in, std::string &ret, char const *delimiter = ",") {
-    std::string cr;
-    char delim = *delimiter;
-    size_t sz  = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      if (!std::getline(in, temp, delim))
-        return false;
-      cr += temp + delim;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    ret = cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    if (in.peek() == std::istream::traits_type::eof()) return false;
+    ret = read_until(in, delimiter);
     return true;
   }
 
-- 
2.43.0


From 583eaa69769618edd7a834e5b2f3cb78065475b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 05/77] fix: a text value is read completely, also when it
 contains white spaces

strip_quotes(istream) read one word only, and did not undo the escapes which operator<< puts
into a quoted text; a quoted value in the next word kept quotes that the other spellings drop.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh   | 1 +
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 259da5d..9f3a70f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -116,6 +116,7 @@ namespace cmdr {
         remains = string::strip_quotes(remains);
         if (remains.empty() && pc.index + 1 < argc) {
           remains    = argv[++pc.index];
+          remains    = string::strip_quotes(remains);
           extra_argv = true;
         }
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index dd6a40c..0984f0b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -437,11 +437,11 @@ namespace cmdr::string {
   inline void strip_quotes(std::istream &is, std::string &s) {
     auto ch = is.peek();
     if (ch == '\'' || ch == '"') {
-      char c;
-      is >> c;
-      s = read_until(is, (char) ch);
+      is >> std::quoted(s, (char) ch);
+    } else if (ch == std::istream::traits_type::eof()) {
+      s.clear();
     } else
-      is >> s;
+      std::getline(is, s, '\0'); // the whole text, not just its first word
   }
 
 
-- 
2.43.0


From 54ef2e05b54df28407a98a719129f4efa6889330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 06/77] fix: a flag keeps its value when the given text cannot
 be read, and an explicit empty value does not swallow the next word

- a failed or overflowing conversion replaced the value by 0 or the limit of the type, partly without a message
- '=' and quotes were not counted when the rest of a combined word was located (-c=5v)
- '--name=' took the next word as its value
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh  | 10 ++++++----
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 9f3a70f..6936680 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -113,8 +113,9 @@ namespace cmdr {
         if (remains[0] == '=') {
           remains = remains.substr(1);
         }
-        remains = string::strip_quotes(remains);
-        if (remains.empty() && pc.index + 1 < argc) {
+        auto leads = (int) std::min(pc.title.find_first_not_of("\"'", pc.title.length() - remains.length()), pc.title.length()) - (int) (pc.title.length() - remains_orig_len);
+        remains    = string::strip_quotes(remains);
+        if (remains_orig_len == 0 && pc.index + 1 < argc) {
           remains    = argv[++pc.index];
           remains    = string::strip_quotes(remains);
           extra_argv = true;
@@ -124,15 +125,16 @@ namespace cmdr {
         opt::arg::var_type &val = amr.obj->default_value();
         auto xb                 = sst.tellg();
         sst >> *val.get();
+        bool ok      = !sst.fail(); // tellg() sets failbit at the end of the stream
         auto xe      = sst.tellg();
         int read     = static_cast<int>(xe - xb);
-        value_parsed = read > 0 || sst.eof();
+        value_parsed = ok && (read > 0 || sst.eof());
         if (!value_parsed) {
           if (extra_argv) {
             --pc.index; // restore the parsing pointer
           }
         } else if (read > 0) {
-          amr.matched_length += read;
+          amr.matched_length += leads + read;
         } else if (!extra_argv) {
           amr.matched_length += (int) remains_orig_len;
         }
diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5ae99f4..e2ea8cd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -584,7 +584,9 @@ namespace cmdr::vars {
       auto &reg = any_parsers();
       if (const auto it = reg.find(std::type_index(a.type()));
           it != reg.cend()) {
+        std::any saved = a;
         it->second(is, a);
+        if (is.fail()) a = std::move(saved); // unreadable: keep the old value
         return true;
       }
 #if defined(_DEBUG)
-- 
2.43.0


From 92a414c01f6b00367aa72c7224164a7844415342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 07/77] fix: lists given without brackets lose their first
 character, and the last element is repeated

parse_array() dropped the first character it had read ahead, pushed the last element twice or
an uninitialized one for an empty list, and cut texts at white spaces.
---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 38 ++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index e2ea8cd..e87d11b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -292,24 +292,32 @@ namespace cmdr::vars {
 
     template<class T>
     static bool parse_array(std::istream &is, std::vector<T> &a) {
-      bool ok;
-      char ch;
       std::string s;
-      is >> ch;
-      if (ch != '[') s += ch;
-      while ((ok = string::read_until(is, s, ",")) == true) {
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
+      if (!std::getline(is, s))
+        is.clear(is.rdstate() & ~std::ios::failbit); // an empty text is an empty list
+      auto p1 = s.find_first_not_of(" \t"), p2 = s.find_last_not_of(" \t");
+      s = p1 == std::string::npos ? std::string{} : s.substr(p1, p2 + 1 - p1);
+      if (!s.empty() && s.front() == '[') s.erase(0, 1);
+      if (!s.empty() && s.back() == ']') s.pop_back();
+      if (s.empty()) return true;
+      for (std::size_t pos = 0, next; pos != std::string::npos; pos = next) {
+        next = s.find(',', pos);
+        std::stringstream ss(s.substr(pos, next == std::string::npos ? next : next++ - pos));
+        T t{};
+        ss >> std::ws;
+        if constexpr (std::is_same_v<T, std::string>) {
+          string::strip_quotes(ss, t);
+        } else if constexpr (std::is_same_v<T, bool>) {
+          parse_bool(ss, t);
+        } else {
+          ss >> t;
+        }
+        if (ss.fail()) {
+          is.setstate(std::ios::failbit);
+          return false;
+        }
         a.push_back(t);
       }
-
-      std::getline(is, s);
-      s = string::strip(s, "", "]");
-      T t;
-      std::stringstream ss(s);
-      ss >> t;
-      a.push_back(t);
       return true;
     }
 
-- 
2.43.0


From 637081fa8f5b52873bdc85123cb8ac9765673dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 08/77] fix: the spellings of booleans are read as documented

parse_bool() extracted its characters by `is >> int`, which fails on letters, so that e.g.
"on", "true" or "yes" were not recognized.
---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 112 ++---------------------
 1 file changed, 6 insertions(+), 106 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index e87d11b..521817c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -336,118 +336,18 @@ namespace cmdr::vars {
      * @return
      */
     static bool parse_bool(std::istream &is, bool &x) {
-      int ch;
-      ch = is.peek();
-      if (ch == '0') {
-        x = false;
-        is >> ch;
-        return true;
-      }
-      if (ch == '1') {
+      std::string s;
+      for (auto ch = is.peek(); ch != std::istream::traits_type::eof() && std::isalnum(ch); ch = is.peek())
+        s += (char) std::tolower(is.get());
+      if (s == "1" || s == "t" || s == "true" || s == "y" || s == "yes" || s == "on") {
         x = true;
-        is >> ch;
         return true;
       }
-
-      if (ch == 't' || ch == 'T') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'r' || ch == 'R') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'u' || ch == 'U') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 'e' || ch == 'E') {
-              is >> ch;
-              x = true;
-              return true;
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'y' || ch == 'Y') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'e' || ch == 'E') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 's' || ch == 'S') {
-            is >> ch;
-            x = true;
-            return true;
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'f' || ch == 'F') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'a' || ch == 'A') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'l' || ch == 'L') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 's' || ch == 'S') {
-              is >> ch;
-              ch = is.peek();
-              if (ch == 'e' || ch == 'E') {
-                is >> ch;
-                x = false;
-                return true;
-              }
-              is.unget();
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = false;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'n' || ch == 'N') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'o' || ch == 'O') {
-          is >> ch;
-          x = false;
-          return true;
-        }
+      if (s == "0" || s == "f" || s == "false" || s == "n" || s == "no" || s == "off") {
         x = false;
         return true;
-
-      } else if (ch == 'o' || ch == 'O') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'n' || ch == 'N') {
-          is >> ch;
-          x = true;
-          return true;
-        }
-        if (ch == 'f' || ch == 'F') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'f' || ch == 'F') {
-            is >> ch;
-            x = false;
-            return true;
-          }
-          is.unget();
-        }
-        is.unget();
       }
+      is.setstate(std::ios::failbit);
       return false;
     }
 
-- 
2.43.0


From 248d3867430052f376b2b42bd70580be45baa188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 09/77] fix: complex numbers without a real part are read as
 real numbers, and zero is written as nothing

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 29 +++++++++++-------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 521817c..4f58f11 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -258,7 +258,7 @@ namespace cmdr::vars {
     static void format_complex(std::ostream &os, std::complex<T> const &o) {
       // os << o;
       auto r = o.real();
-      if (r != 0) {
+      if (r != 0 || o.imag() == 0) {
         os << r;
       }
       auto i = o.imag();
@@ -271,22 +271,19 @@ namespace cmdr::vars {
 
     template<class T>
     static bool parse_complex(std::istream &is, std::complex<T> &a) {
-      bool ok;
-      std::string s;
-      ok = string::read_until(is, s, "+");
-      {
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.real(t);
-      }
-      if (ok) {
-        ok = string::read_until(is, s, "i");
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.imag(t);
+      T r{}, i{};
+      is >> r;
+      auto next = [&is]() { return is.good() ? is.peek() : std::istream::traits_type::eof(); };
+      if (next() == 'i') { // imaginary part only
+        is.get();
+        std::swap(r, i);
+      } else if (next() == '+' || next() == '-') {
+        if (next() == '+') is.get();
+        is >> i;
+        if (next() == 'i') is.get();
       }
+      if (is.fail()) return false;
+      a = std::complex<T>(r, i);
       return true;
     }
 
-- 
2.43.0


From 0706c165c7bd44d8cd4ee01ade6de4a1d56395f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 10/77] fix: an empty text in a list is an empty element

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 4f58f11..ab391d8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -303,7 +303,7 @@ namespace cmdr::vars {
         T t{};
         ss >> std::ws;
         if constexpr (std::is_same_v<T, std::string>) {
-          string::strip_quotes(ss, t);
+          if (!ss.eof()) string::strip_quotes(ss, t);
         } else if constexpr (std::is_same_v<T, bool>) {
           parse_bool(ss, t);
         } else {
-- 
2.43.0


From e1b329a5792257bbea9840451fcd6c7f8657674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 11/77] fix: a duration which cannot be read is not replaced by
 zero

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 76894c0..7bfee60 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -928,9 +928,9 @@ namespace cmdr::chrono {
   template<class Duration,
            std::enable_if_t<is_duration<Duration>::value, bool> = true>
   static bool parse_duration(std::istream &is, Duration const &d) {
-    (void) (is);
     (void) (d);
-    return true;
+    is.setstate(std::ios::failbit); // nothing is read, so let the caller know
+    return false;
   }
 
 } // namespace cmdr::chrono
-- 
2.43.0


From f6a792ec1962e865274f60688494972194bd3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 12/77] fix: choosing a member of a toggle group switches the
 other members off

The siblings and the name of the chosen member were written below the key of the member
instead of the key of the command which owns the group.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 6936680..f7c48ca 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -500,11 +500,11 @@ namespace cmdr {
 
     if (a->is_toggleable() && a->default_value()->type() == typeid(bool)) {
       auto *cc        = a->owner();
-      auto const &cck = a->dotted_key();
-      auto const &k   = a->toggle_group_name();
+      auto const cck = cc->dotted_key();
+      auto const &k  = a->toggle_group_name();
 
       for (auto *o: cc->_toggle_groups[k]) {
-        _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
+        if (o != a) _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
       }
 
       cc->toggle_group_set(k, a);
-- 
2.43.0


From d7a765bb9133fdf23166e493e7525dd344baad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 13/77] fix: jaro_winkler_distance keeps the distance of an
 exact match, so that matched() sees it

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 0984f0b..39a911d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -797,7 +797,8 @@ namespace cmdr::text {
 
       // Exit early if they're an exact match.
       if (s1 == s2) {
-        return 1;
+        _distance = 1;
+        return _distance;
       }
 
       // Maximum distance upto which matching
-- 
2.43.0


From 45b804fb11b27b6259d4588efa62d954b2805821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 14/77] fix: enable_feel_like_mode() sets the option which is
 looked at

It wrote app.feel-like, but the mode is read from app.cli.feel-like.
---
 libs/cmdr11/include/cmdr11/cmdr_app.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 6395388..97f7fe5 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -210,7 +210,7 @@ namespace cmdr {
      * @return
      */
     app &enable_feel_like_mode(bool b = true) {
-      set("feel-like", b);
+      _store.set_raw_p(_long.c_str(), "feel-like", b); // where the flag --feel-like is kept
       return (*this);
     }
 
-- 
2.43.0


From 7636fc1235389402fe4c372b09d7d869c5605fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 15/77] fix: a refused duplicate leaves nothing behind

The duplicate was pushed into the lists, and some of its titles were indexed, before the clash
was found; a duplicated long title was reported as dup_short_flag_found.
---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 50 +++++++++++++++--------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f64a7bd..3efe57e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -84,6 +84,22 @@ namespace cmdr::opt {
 
   inline void cmd::add(arg const &a) {
     if (a.valid()) {
+      // refuse a duplicate before anything is registered
+      if (!a.title_short().empty()) {
+        if (auto const &it = _short_args.find(a.title_short()); it != _short_args.end())
+          // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_short_flag_found, &a, this);
+      }
+      if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
+        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_long_flag_found, &a, this);
+      std::set<std::string> titles{a.title_long()};
+      for (auto const &itz: a.title_aliases()) {
+        if (_long_args.find(itz) != _long_args.end() || !titles.insert(itz).second)
+          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         if (a.toggle_group_name().empty())
@@ -120,21 +136,12 @@ namespace cmdr::opt {
       _indexed_args.insert({a.title_long(), ptr});
 
       if (!a.title_short().empty()) {
-        if (auto const &it = _short_args.find(a.title_short()); it != _short_args.end())
-          // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_flag_found, &a, this);
         _short_args.insert({a.title_short(), ptr});
       }
 
-      if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
-        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_short_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
 
       for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_args.find(itz); it != _long_args.end())
-          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
         _long_args.insert({itz, ptr});
       }
 
@@ -163,6 +170,22 @@ namespace cmdr::opt {
 
   inline void cmd::add(cmd const &a) {
     if (a.valid()) {
+      // refuse a duplicate before anything is registered
+      if (!a.title_short().empty()) {
+        if (auto const &it = _short_commands.find(a.title_short()); it != _short_commands.end())
+          // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_short_cmd_found, &a, this);
+      }
+      if (auto const &it = _long_commands.find(a.title_long()); it != _long_commands.end())
+        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_long_cmd_found, &a, this);
+      std::set<std::string> titles{a.title_long()};
+      for (auto const &itz: a.title_aliases()) {
+        if (_long_commands.find(itz) != _long_commands.end() || !titles.insert(itz).second)
+          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         gn = UNSORTED_GROUP;
@@ -190,19 +213,10 @@ namespace cmdr::opt {
 
       _indexed_commands.insert({a.title_long(), ptr});
       if (!a.title_short().empty()) {
-        if (auto const &it = _short_commands.find(a.title_short()); it != _short_commands.end())
-          // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_cmd_found, &a, this);
         _short_commands.insert({a.title_short(), ptr});
       }
-      if (auto const &it = _long_commands.find(a.title_long()); it != _long_commands.end())
-        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_long_cmd_found, &a, this);
       _long_commands.insert({a.title_long(), ptr});
       for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_commands.find(itz); it != _long_commands.end())
-          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
         _long_commands.insert({itz, ptr});
       }
 
-- 
2.43.0


From f843c63966c890cbcf45ac594c1a82144565aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 16/77] fix: rethrow the original error, e.g.
 required_flag_missed, instead of a sliced copy

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index f7c48ca..26c74eb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -953,7 +953,7 @@ namespace cmdr {
 
     } catch (cmdr::exception::cmdr_biz_error const &e) {
       if (_no_catch_cmdr_biz_error) {
-        throw e;
+        throw; // not `throw e`, which slices the error
       }
       CMDR_DUMP_WITHOUT_STACK_TRACE(e);
 
-- 
2.43.0


From 3ec8e60fdb2e109fdee1b81230103dcf571dec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 17/77] fix: app::reset() drops the toggle groups together with
 their flags

They kept pointers to the flags which had been destroyed.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 26c74eb..468162d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -732,6 +732,7 @@ namespace cmdr {
 
   inline void app::reset() {
     _store.reset();
+    _args_cache.clear();
 
     _global_on_pre_invoke      = nullptr;
     _global_on_post_invoke     = nullptr;
@@ -765,6 +766,8 @@ namespace cmdr {
     _long_commands.clear();
     _last_added_command = nullptr;
     _last_added_arg     = nullptr;
+    _toggle_groups.clear();
+    _hit_toggle_groups.clear();
     _on_command_hit     = nullptr;
     _on_pre_invoke      = nullptr;
     _on_invoke          = nullptr;
-- 
2.43.0


From 0922e203e2d4ae1a7b99ac889167e5ef3ba66f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 18/77] fix: an application and its commands work on
 themselves, not on the application created last

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 13 ++++++-------
 libs/cmdr11/include/cmdr11/cmdr_cmd.hh    |  3 +++
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 11 +++++++++--
 libs/cmdr11/include/cmdr11/cmdr_impl.hh   |  8 ++++----
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index f855015..f279010 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -176,7 +176,7 @@ namespace cmdr {
       std::cout << vs << '\n';
       return 0;
     });
-    _internal_actions.emplace(opt::Action::RequestBuildInfoScreen, [](opt::types::parsing_context &, int, char *[]) -> int {
+    _internal_actions.emplace(opt::Action::RequestBuildInfoScreen, [this](opt::types::parsing_context &, int, char *[]) -> int {
       std::tm t{};
       std::istringstream tsi(__TIMESTAMP__);
       // tsi.imbue(std::locale("de_DE.utf-8"));
@@ -187,7 +187,6 @@ namespace cmdr {
       ts << std::put_time(&t, "%FT%T%z");
 
       auto cn   = compiler_name();
-      auto &cli = cmdr::get_app();
       std::cout
           << "Built by " << cn
           << " at " << ts.str() << '\n'
@@ -197,8 +196,8 @@ namespace cmdr {
           << CMDR_ARCHIVE_NAME << '\n'
           << CMDR_GIT_BRANCH << '\n'
           << CMDR_GIT_COMMIT_HASH << '\n'
-          << cli.name() << '\n'
-          << cli.version() << '\n';
+          << _name << '\n'
+          << _version << '\n';
       return 0;
     });
     _internal_actions.emplace(opt::Action::RequestTreeScreen,
@@ -352,15 +351,15 @@ namespace cmdr {
                .description("display this help screen")
                .group(SYS_MGMT_GROUP)
                .hidden(hide_sys_tools | true)
-               .on_invoke([](cmdr::opt::cmd const &hit, string_array const &remain_args) -> int {
+               .on_invoke([&cli](cmdr::opt::cmd const &hit, string_array const &remain_args) -> int {
                  UNUSED(hit, remain_args);
                  auto key                  = cmdr::string::join(remain_args, '.');
-                 cmdr::opt::cmd const *ptr = &cmdr::get_app();
+                 cmdr::opt::cmd const *ptr = &cli;
                  for (auto const &k: remain_args) {
                    ptr = ptr->find_command(k, true);
                    if (!ptr) break;
                  }
-                 cmdr::get_app().print_usages(ptr);
+                 cli.print_usages(ptr);
                  std::cout << "help, !!!\n";
                  std::cout << "args: " << cmdr::string::join(remain_args, ',', '[', ']') << '\n';
                  // todo expand 'help ...' to a embedded help sub-system.
diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd.hh b/libs/cmdr11/include/cmdr11/cmdr_cmd.hh
index 2533d72..da4a39b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd.hh
@@ -132,6 +132,9 @@ namespace cmdr::opt {
 
     std::string title_sequences() const;
 
+    // the application this command belongs to
+    app &owning_app();
+
     void toggle_group_set(std::string const &key, arg *a);
     std::string const &toggle_group(std::string const &key) const;
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 3efe57e..43cbb5d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -162,12 +162,19 @@ namespace cmdr::opt {
       ptr->owner(this);
 
       // auto dk = dotted_key();
-      cmdr::get_app().on_arg_added(ptr);
+      owning_app().on_arg_added(ptr);
 
       // std::cout << gn << ',' << _grouped_args[gn].size() << '\n';
     }
   }
 
+  inline app &cmd::owning_app() {
+    cmd *top = this;
+    while (top->owner() != nullptr) top = top->owner();
+    if (auto *ptr = dynamic_cast<app *>(top); ptr != nullptr) return *ptr;
+    return cmdr::get_app();
+  }
+
   inline void cmd::add(cmd const &a) {
     if (a.valid()) {
       // refuse a duplicate before anything is registered
@@ -223,7 +230,7 @@ namespace cmdr::opt {
       _last_added_command = ptr;
       ptr->owner(this);
 
-      cmdr::get_app().on_cmd_added(ptr);
+      owning_app().on_cmd_added(ptr);
     }
   }
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 468162d..3594ae8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -57,7 +57,7 @@ namespace cmdr {
     if (cmr.matched) {
       cmr.obj->hit_title(pc.title.c_str());
       pc.add_matched_cmd(cmr.obj);
-      get_app().on_cmd_matched(cmr.obj);
+      on_cmd_matched(cmr.obj);
       if (cmr.obj->on_command_hit()) {
         auto rc = cmr.obj->on_command_hit()(
             pc.last_matched_cmd(),
@@ -142,7 +142,7 @@ namespace cmdr {
         pc.add_matched_arg(amr.obj, val);
         cmdr_verbose_debug("   -> value: %s", val->as_string().c_str());
 
-        get_app().on_arg_matched(amr.obj, val);
+        on_arg_matched(amr.obj, val);
 
       } else if (typ == typeid(bool)) {
         pc.add_matched_arg(amr.obj);
@@ -162,14 +162,14 @@ namespace cmdr {
             break;
         }
         auto value = std::make_shared<vars::variable>(v);
-        get_app().on_arg_matched(amr.obj, value);
+        on_arg_matched(amr.obj, value);
 
       } else {
         pc.add_matched_arg(amr.obj);
         value_parsed = true;
 
         auto value   = std::make_shared<vars::variable>(true);
-        get_app().on_arg_matched(amr.obj, value);
+        on_arg_matched(amr.obj, value);
       }
 
       pc.title_fragment = amr.matched_str;
-- 
2.43.0


From b71460b70349f6afb34ae1397e6212ffe7c55deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 19/77] fix: a flag preset by its environment variable keeps
 its type

---
 libs/cmdr11/include/cmdr11/cmdr_imp1.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
index 9eb28fb..05e6d8d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_imp1.hh
@@ -108,14 +108,8 @@ namespace cmdr::opt {
   inline arg::var_type &arg::default_value() { return _default; }
 
   inline arg &arg::default_value(const vars::variable &v) {
-    if (_default.get() == nullptr)
-      _default = std::make_shared<vars::variable>(v);
-    else
-#if __GNUC__ > 9
-      _default->emplace(v);
-#else
-      _default->emplace(v.underlying_value());
-#endif
+    // the value itself, not a variable wrapped in a variable
+    _default = std::make_shared<vars::variable>(v);
     return (*this);
   }
   inline arg &arg::default_value(const_chars v) {
-- 
2.43.0


From 4a845717d53b0617a7d1dea979aad1244a523062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 20/77] fix: a fresh colorizer writes black on black on
 256-color terminals until its first auto-reset

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 90ad0e3..bbe47e0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -125,13 +125,12 @@ namespace cmdr::terminal::colors {
     // protected:
   public:
     explicit colorize(bool true_color_enabled = true)
-        : _fg{}
-        , _bg{}
+        : _fg{-1}
+        , _bg{-1}
         , _st{}
         , _true_color_enabled(true_color_enabled) {
       _init();
       if (_colors <= 256) _true_color_enabled = false;
-      if (_true_color_enabled) _fg = _bg = -1;
       _colorful = _default_colorful;
     }
 
@@ -790,9 +789,8 @@ namespace cmdr::terminal::colors {
 
     void clear() {
       // NOTE: _colorful, _default_colorful, _colors, _true_color_enabled will be kept.
-      _fg = _bg = {};
-      _st._i    = 0;
-      if (_true_color_enabled) _fg = _bg = -1;
+      _fg = _bg   = -1;
+      _st._i      = 0;
       _auto_reset = true;
       _cc         = {};
       _ss.clear();
-- 
2.43.0


From e1facfdd1ac368ee17bd7b9a7bf22c92a00e0de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 21/77] fix: an application declared without author and
 copyright, as by default, cannot be created

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index f279010..604ad90 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -37,8 +37,8 @@ namespace cmdr {
                   const_chars examples_)
       : _name(name)
       , _version(version)
-      , _author(author)
-      , _copyright(copyright)
+      , _author(author ? author : "")
+      , _copyright(copyright ? copyright : "")
   // , _description(description)
   // , _examples(examples)
   {
-- 
2.43.0


From c32600d267d8690ed8e48bcd447ad44d27efc709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 22/77] fix: help screen loses the groups which share their
 sorting prefix with another group

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 43cbb5d..3434a56 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -407,9 +407,9 @@ namespace cmdr::opt {
 
   namespace detail {
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_commands) {
         auto &title = it.first;
@@ -425,9 +425,9 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_args) {
         keys.insert(it.first);
@@ -491,7 +491,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -499,7 +499,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_commands.find(it.second);
         if (val_it == grouped_commands.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -556,7 +556,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_arg_list const &grouped_args,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -564,7 +564,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_args.find(it.second);
         if (val_it == grouped_args.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -773,14 +773,14 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999; // don't wrap the long line
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
       auto const &val_it = _grouped_commands.find(it.second);
       if (val_it == _grouped_commands.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
@@ -877,14 +877,14 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999;
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_args, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
       auto const &val_it = _grouped_args.find(it.second);
       if (val_it == _grouped_args.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
-- 
2.43.0


From 8b09f705df92496450fb0da25df29891ba7f9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 23/77] fix: help screen never ends when the titles leave no
 room for the descriptions

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 3434a56..057f36f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -603,7 +603,7 @@ namespace cmdr::opt {
                                  int wt_real) {
       std::ostringstream ss;
       auto d  = desc;
-      auto rw = (std::size_t)((std::size_t)(tw <= 0 ? 1000 : tw) - wt_real - 2);
+      auto rw = (std::size_t)(tw > wt_real + 2 ? tw - wt_real - 2 : 1000); // no room at all: don't wrap
       int w   = 0;
       do {
         if (w++ != 0) {
-- 
2.43.0


From 0f2b17b614b1288431a0889be71e4b06e16a7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 24/77] fix: help screen cuts multi-byte characters into pieces
 when wrapping descriptions

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 057f36f..ed76db0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -611,6 +611,7 @@ namespace cmdr::opt {
              << std::string((std::size_t) wt_real + 2, ' ');
         }
         auto t  = cmdr::cross::min(rw, d.length());
+        while (t < d.length() && ((unsigned char) d[t] & 0xc0) == 0x80) t++; // don't cut a utf-8 character into pieces
         auto s1 = d.substr(0, t);
         ss << c.fg(fg).dim(dim).s(d.substr(0, t));
         d = string::trim_left_space(d.substr(t));
-- 
2.43.0


From 2f8184bc95e20ebf5ae01cdbe4eaf9caf1ad5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 25/77] fix: has(prefix, key) ignores the prefix

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 10a07a4..6e7bc99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -129,7 +129,7 @@ namespace cmdr::vars {
     sk << key;
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(key);
+    auto it = _indexes.find(sk.str());
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From d7f3558bb637160a84f5633c503313f222410f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 26/77] fix: subtree() of an unknown prefix is the null node
 rather than a null pointer, and an empty prefix is unknown

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh    | 2 +-
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index ab391d8..96877ed 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -791,7 +791,7 @@ namespace cmdr::vars {
 
     bool is_null() const noexcept { return this == null_node().get(); }
     static auto null_node() -> node_pointer { 
-      static node_pointer t{};
+      static node_pointer t{std::make_shared<self_type>()}; // is_null() is called on it
       return t;
     }
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 6e7bc99..c227456 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -50,6 +50,7 @@ namespace cmdr::vars {
     std::shared_lock<std::shared_mutex> lock(mutex_);
 
     auto vec = string::split(prefix, '.');
+    if (vec.empty()) return null_node();
     std::size_t upr = vec.size() - 1, idx = 0;
     auto key = vec[idx];
     auto ptr = this;
-- 
2.43.0


From 0f797dea33c67fcc3964df7db0063c5fe0d6c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 27/77] fix: overwriting a key with an rvalue variable wraps
 the value into a second std::any

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 96877ed..b50af22 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -152,6 +152,7 @@ namespace cmdr::vars {
     }
     void emplace(std::any &&o) { _value.swap(o); }
     void emplace(std::any const &o) { _value = o; }
+    void emplace(std::any &o) { _value = o; } // rather than an any in an any
 
     [[nodiscard]] target_type const &underlying_value() const { return _value; }
     target_type &underlying_value() { return _value; }
-- 
2.43.0


From 20265ce05d14d320059392f6b9b0bc8242ce24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 28/77] fix: expand_env() never returns when a variable
 mentions itself

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 48 ++++++++++++++---------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 39a911d..416a3d1 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -489,28 +489,40 @@ namespace cmdr::string {
   }
 
 
-  inline std::string expand_env(std::string text) {
-    // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
-    static const std::regex env_re{R"(\$\{?([a-z0-9_]+)\}?)", std::regex::icase};
-    std::smatch match;
-    while (std::regex_search(text, match, env_re)) {
-      auto const &from     = match[0];
-      auto const &th       = match[1];
-      auto const &var_name = th.str();
+  namespace detail {
+    inline std::string expand_env(std::string const &text, string_array &expanding) {
+      // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
+      static const std::regex env_re{R"(\$\{?([a-z0-9_]+)\}?)", std::regex::icase};
+      std::string out;
+      auto pos = text.cbegin();
+      for (std::smatch match; std::regex_search(pos, text.cend(), match, env_re); pos = match[0].second) {
+        out.append(pos, match[0].first);
+        auto const var_name = match[1].str();
+        if (std::find(expanding.begin(), expanding.end(), var_name) != expanding.end())
+          continue; // the variable mentions itself
+        std::string value;
 #if defined(_WIN32) || defined(_WIN64)
-      char* buf = nullptr;
-      size_t sz = 0;
-      if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr)
-      {
-        text.replace(from.first, from.second, buf);
-        free(buf);
-      }
+        char *buf = nullptr;
+        size_t sz = 0;
+        if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr) {
+          value = buf;
+          free(buf);
+        }
 #else
-      auto *ptr            = std::getenv(var_name.c_str());
-      text.replace(from.first, from.second, ptr ? ptr : "");
+        if (auto *ptr = std::getenv(var_name.c_str()); ptr) value = ptr;
 #endif
+        expanding.push_back(var_name);
+        out += expand_env(value, expanding);
+        expanding.pop_back();
+      }
+      out.append(pos, text.cend());
+      return out;
     }
-    return text;
+  } // namespace detail
+
+  inline std::string expand_env(std::string text) {
+    string_array expanding;
+    return detail::expand_env(text, expanding);
   }
 
 
-- 
2.43.0


From d94f97f37fe789cd9fc7488f4d1fd665c5e27729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 29/77] fix: the yaml loader looks for the config file in
 CONFIG_FILE, not in APP_VERSION

---
 addons/loaders/yaml_loader.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 10a4b77..5479dbf 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -124,17 +124,17 @@ namespace cmdr::addons::loaders {
         {
           char* buf1 = nullptr;
           size_t sz = 0;
-          if (_dupenv_s(&buf1, &sz, "APP_VERSION") == 0 && buf1 != nullptr) {
+          if (_dupenv_s(&buf1, &sz, env_var) == 0 && buf1 != nullptr) {
             szbuf1 = buf1;
             free(buf1);
           }
         }
-        auto* appver = szbuf1.c_str();
+        auto* config_file = szbuf1.c_str();
 #else
-        char *appver = std::getenv("APP_VERSION");
+        char *config_file = std::getenv(env_var);
 #endif
-        if (appver && *appver) {
-          auto file = std::string(appver);
+        if (config_file && *config_file) {
+          auto file = std::string(config_file);
           load_config_file_or_dir(file, c);
         }
 
-- 
2.43.0


From e949b76e7cdad9a62023552b050d368beac7fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 30/77] fix: the first help screen with ~~tree in the line
 lists the commands as if it was not there

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 3594ae8..1f88436 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -671,7 +671,7 @@ namespace cmdr {
 
     if (saved_minimal_tab_width < _minimal_tab_width) {
       std::ostringstream os3;
-      cc->print_commands(os3, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, -1);
+      cc->print_commands(os3, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
       ss << os3.str();
     } else {
       ss << os1.str();
-- 
2.43.0


From 7f1d5d173fc1b611216e754ba2a49d2341d92224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 31/77] fix: conditional_wait::wait_for() without a limit
 overflows the clock and returns at once

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 15e620f..fee2f55 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -100,7 +100,10 @@ namespace cmdr::pool {
       return _cv.wait_for(lk, rel_time, _p);
     }
 
-    bool wait_for() { return wait_for(std::chrono::hours::max()); }
+    bool wait_for() {
+      wait(); // a limit of hours::max() would overflow and be over at once
+      return ConditionMatched;
+    }
 
     /**
      * @brief wait_until causes the current thread to block until the
@@ -295,7 +298,7 @@ namespace cmdr::pool {
     }
 
     bool wait_for() {
-      return wait_for(std::chrono::hours::max());
+      return conditional_wait_for_bool::wait_for();
     }
 
     /**
-- 
2.43.0


From 5fec081cffe8deda6db373523b73b7ca14d4b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 32/77] fix: threaded_message_queue::empty() reads the queue
 without its lock

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index fee2f55..3b7c2a8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -413,11 +413,14 @@ namespace cmdr::pool {
 
     ~threaded_message_queue() { clear(); }
 
-    bool empty() const { return _data.empty(); }
+    bool empty() const {
+      locker l_(_m);
+      return _data.empty();
+    }
 
   private:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     mutable Coll _data{};
     bool _abort = false;
   }; // class threaded_message_queue
-- 
2.43.0


From 087378138cec4faf4772055e650751ca7a6ab185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 33/77] fix: timer_killer::terminated() reads its flag without
 the lock

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 3b7c2a8..5fa8918 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -58,7 +58,7 @@ namespace cmdr::pool {
 
   protected:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     T _var{};
 
   public:
@@ -271,7 +271,10 @@ namespace cmdr::pool {
     //     std::unique_lock<std::mutex> lock(_m);
     //     return !_cv.wait_for(lock, time, [&] { return _terminate; });
     // }
-    bool terminated() const { return val(); }
+    bool terminated() const {
+      std::unique_lock<std::mutex> const lk(_m);
+      return val();
+    }
 
     /**
      * @brief wait for Pred condition matched
-- 
2.43.0


From 3e377b850f56b4465783fe4b58d91f6ae319fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 34/77] fix: observable walks its observers while another
 thread adds or removes one

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e4925a9..a4f85c4 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1013,9 +1013,9 @@ namespace cmdr::util {
     observable &add_observer(observer_t const &o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(o);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1029,9 +1029,9 @@ namespace cmdr::util {
       observer_t wp = o;
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(wp);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1045,6 +1045,7 @@ namespace cmdr::util {
     observable &remove_observer(observer_t_naked *o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.erase(std::remove_if(copy.begin(), copy.end(), [o](observer_t const &rhs) {
                        if (auto spt = rhs.lock())
@@ -1052,7 +1053,6 @@ namespace cmdr::util {
                        return false;
                      }),
                      copy.end());
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
-- 
2.43.0


From bbf5e1432a7292a31c6e934c4c7aef405ccaace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 35/77] fix: signal::emit() moves its arguments into the first
 slot

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index a4f85c4..b01d34f 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1201,7 +1201,7 @@ namespace cmdr::util {
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
       for (auto &fn: _callbacks)
-        fn(std::move(event_or_subjects)...);
+        fn(for_slot<SignalSubjects>(event_or_subjects)...);
       return (*this);
     }
     signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(event_or_subjects...); }
@@ -1209,6 +1209,15 @@ namespace cmdr::util {
   private:
     void clear() {}
 
+    // a slot may consume its arguments, so each one gets its own copy if there can be one
+    template<typename T>
+    static decltype(auto) for_slot(std::remove_reference_t<T> &v) {
+      if constexpr (!std::is_reference_v<T> && std::is_copy_constructible_v<T>)
+        return T(v);
+      else
+        return static_cast<T &&>(v);
+    }
+
   private:
     std::vector<FN> _callbacks{};
   };
-- 
2.43.0


From 9b73708f53252cdbc8ef9cfde17773b472e3df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 36/77] fix: the NLR, RNL and friends traversals of a binary
 tree are mixed up

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 7844388..f660c96 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -93,9 +93,9 @@ namespace cmdr::queue {
       void NLR(std::function<void(element *)> const &fn) {
         fn(this);
         if (_left)
-          _left->LNR(fn);
+          _left->NLR(fn);
         if (_right)
-          _right->LNR(fn);
+          _right->NLR(fn);
       }
       // in-order traversal
       void LNR(std::function<void(element *)> const &fn) {
@@ -116,10 +116,10 @@ namespace cmdr::queue {
       // reverse in-order
       void RNL(std::function<void(element *)> const &fn) {
         if (_right)
-          _right->LRN(fn);
+          _right->RNL(fn);
         fn(this);
         if (_left)
-          _left->LRN(fn);
+          _left->RNL(fn);
       }
 
       T pop(std::size_t &count) {
-- 
2.43.0


From 738f9242c3c340787f8d6f4d2de9fb334d4c3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 37/77] fix: priority_queue::pop() leaves emptied nodes behind,
 and later elements come out of order

---
 .../include/cmdr11/cmdr_priority_queue.hh     | 65 ++++++-------------
 1 file changed, 21 insertions(+), 44 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index f660c96..553cf26 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -122,51 +122,23 @@ namespace cmdr::queue {
           _left->RNL(fn);
       }
 
-      T pop(std::size_t &count) {
-        if (ReverseComp) {
-          if (_left) {
-            std::size_t before = count;
-            T t                = _left->pop(count);
-            if (before > count)
-              return t;
-          }
-          if (!_list.empty()) {
-            count--;
-            T t;
-            std::swap(t, _list.front());
-            _list.pop_front();
-            return t;
-          }
-          if (_right) {
-            std::size_t before = count;
-            T t                = _right->pop(count);
-            if (before > count)
-              return t;
-          }
+      // take the first one out of the tree at `at`; an emptied node leaves the tree
+      static T pop(std::shared_ptr<element> &at, std::size_t &count) {
+        auto &before = ReverseComp ? at->_left : at->_right;
+        if (before)
+          return pop(before, count);
+        if (at->_list.empty())
           return _null;
-        }
 
-        // normal
-        if (_right) {
-          std::size_t before = count;
-          T t                = _right->pop(count);
-          if (before > count)
-            return t;
+        count--;
+        T t;
+        std::swap(t, at->_list.front());
+        at->_list.pop_front();
+        if (at->_list.empty()) {
+          auto after = ReverseComp ? at->_right : at->_left;
+          at         = after;
         }
-        if (!_list.empty()) {
-          count--;
-          T t;
-          std::swap(t, _list.front());
-          _list.pop_front();
-          return t;
-        }
-        if (_left) {
-          std::size_t before = count;
-          T t                = _left->pop(count);
-          if (before > count)
-            return t;
-        }
-        return _null;
+        return t;
       }
 
       _It next(std::size_t pos) {
@@ -284,7 +256,7 @@ namespace cmdr::queue {
     my_iterator begin() { return my_iterator{_root.get(), 0}; }
     my_iterator end() { return my_iterator(nullptr); }
     void push_back(T const &data) { push(data); }
-    void pop_front() { _root->pop(_count); }
+    void pop_front() { pop(); }
     T &front() { return *begin(); }
     std::size_t size() const { return _count; }
     bool empty() const { return _count == 0; }
@@ -293,7 +265,12 @@ namespace cmdr::queue {
       _push(_root, std::move(data));
       _count++;
     }
-    T pop() { return _root->pop(_count); }
+    T pop() {
+      T t = element::pop(_root, _count);
+      if (!_root)
+        _root = std::make_shared<element>();
+      return t;
+    }
     static bool is_null(T const &t) { return t == element::_null; }
 
   public:
-- 
2.43.0


From 0859e43519e990bdcce0a89e392ee208b0259097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 38/77] fix: iterating a priority_queue starts at its root and
 misses elements

---
 .../include/cmdr11/cmdr_priority_queue.hh     | 89 ++++++-------------
 1 file changed, 29 insertions(+), 60 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 553cf26..ef32404 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -141,61 +141,18 @@ namespace cmdr::queue {
         return t;
       }
 
-      _It next(std::size_t pos) {
-        if (ReverseComp) {
-          if (pos == (std::size_t) -1) {
-            if (_left) {
-              auto p = _left->next(pos);
-              if (p._el != nullptr)
-                return p;
-            }
-            if (!_list.empty()) {
-              return {this, 0};
-            }
-            if (_right) {
-              auto p = _right->next(pos);
-              if (p._el != nullptr)
-                return p;
-            }
-          } else {
-            assert(!_list.empty() && _list.size() >= pos);
-            if (pos < _list.size() - 1)
-              return {this, pos + 1};
-            if (_right) {
-              auto p = _right->next(0);
-              if (p._el != nullptr)
-                return p;
-            }
-          }
-          return _It{};
-        }
-
-        // normal
-        if (pos == (std::size_t) -1) {
-          if (_right) {
-            auto p = _right->next(pos);
-            if (p._el != nullptr)
-              return p;
-          }
-          if (!_list.empty()) {
-            return {this, 0};
-          }
-          if (_left) {
-            auto p = _left->next(pos);
-            if (p._el != nullptr)
-              return p;
-          }
-        } else {
-          assert(!_list.empty() && _list.size() >= pos);
-          if (pos < _list.size() - 1)
-            return {this, pos + 1};
-          if (_left) {
-            auto p = _left->next(0);
-            if (p._el != nullptr)
-              return p;
-          }
-        }
-        return _It{};
+      // the node which follows `prev` in order, or the very first one if it is null
+      element *next(element const *&prev) {
+        auto &before = ReverseComp ? _left : _right;
+        auto &after  = ReverseComp ? _right : _left;
+        if (before)
+          if (auto *el = before->next(prev))
+            return el;
+        if (prev == nullptr && !_list.empty())
+          return this;
+        if (prev == this)
+          prev = nullptr;
+        return after ? after->next(prev) : nullptr;
       }
 
       static priority_queue::value_type _null;
@@ -208,8 +165,8 @@ namespace cmdr::queue {
       using reference         = priority_queue::value_type &;
 
       my_iterator()           = default;
-      my_iterator(element *ptr, std::size_t pos = (std::size_t) -1)
-          : _it{ptr, pos} {}
+      my_iterator(element *root)
+          : _root{root} { to_next_node(); }
 
       reference operator*() const {
         _It &it = const_cast<_It &>(_it);
@@ -231,8 +188,12 @@ namespace cmdr::queue {
         return ptr;
       }
       my_iterator &operator++() {
-        if (_it._el != nullptr)
-          _it = _it->next(_it._pos);
+        if (_it._el != nullptr) {
+          if (_it._pos + 1 < _it._el->_list.size())
+            _it._pos++;
+          else
+            to_next_node();
+        }
         return *this;
       }
       my_iterator operator++(int) {
@@ -244,6 +205,14 @@ namespace cmdr::queue {
       friend bool operator!=(const my_iterator &a, const my_iterator &b) { return a._it != b._it; };
 
     private:
+      void to_next_node() {
+        element const *prev = _it._el;
+        element *el         = _root ? _root->next(prev) : nullptr;
+        _it                 = el ? _It{el, 0} : _It{};
+      }
+
+    private:
+      element *_root{};
       _It _it;
     };
 
@@ -253,7 +222,7 @@ namespace cmdr::queue {
         , _comparer{} {}
     virtual ~priority_queue() {}
 
-    my_iterator begin() { return my_iterator{_root.get(), 0}; }
+    my_iterator begin() { return my_iterator(_root.get()); }
     my_iterator end() { return my_iterator(nullptr); }
     void push_back(T const &data) { push(data); }
     void pop_front() { pop(); }
-- 
2.43.0


From 8a2a8679d9d3ad103d128c31478dc2ed8ecf3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 39/77] fix: set_flags(ms/us/ns) forgets whether gmt or local
 time was asked for

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 7bfee60..e6d567f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -291,7 +291,7 @@ namespace cmdr::chrono {
         return;
       }
       if (v < fmtflags::mask_extra_fields) {
-        _flags = (fmtflags) ((unsigned int) _flags & ((unsigned int) fmtflags::mask_extra_fields + 1));
+        _flags = (fmtflags) ((unsigned int) _flags & ~(unsigned int) fmtflags::mask_extra_fields);
         _flags = (fmtflags) ((unsigned int) _flags | (unsigned int) (v));
         return;
       }
-- 
2.43.0


From c609ebd943f00cc6cf9b8f42184e136d7d307686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 40/77] fix: formatting durations and time points leaks the
 fill character and garbles negative values and fractions

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index e6d567f..eb631a7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -391,7 +391,12 @@ namespace cmdr::chrono {
     nanoseconds ns    = duration_cast<nanoseconds>(timeunit);
     // std::ostringstream os;
     bool foundNonZero = false;
+    char const fill   = os.fill();
     os.fill('0');
+    if (ns.count() < 0) {
+      os << '-';
+      ns = -ns;
+    }
     typedef duration<int, std::ratio<86400 * 365>> years_;
     const auto y = duration_cast<years_>(ns);
     if (y.count()) {
@@ -439,12 +444,12 @@ namespace cmdr::chrono {
     }
     bool z2{}, zdot1{}, zdot2{};
     const auto us = duration_cast<microseconds>(ns);
-    if (us.count() || z2) {
+    if (us.count() || (z1 && ns.count()) || z2) {
       if (z1) {
         os << '.';
         zdot1 = true;
       }
-      if (foundNonZero)
+      if (foundNonZero || z1)
         os << std::setw(3) << us.count();
       else
         os << us.count();
@@ -469,6 +474,7 @@ namespace cmdr::chrono {
       else
         os << "ms";
     }
+    os.fill(fill);
     return os; // .str();
   }
 
@@ -610,6 +616,7 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
+    char const fill = os.fill();
     std::size_t ms = time_point_get_ms(time);
     if (iom_::has(iom_::fmtflags::ns)) {
       // auto t0 = std::chrono::high_resolution_clock::now();
@@ -638,6 +645,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.fill(fill);
     return os;
   }
   template<class _Clock, class _Duration = typename _Clock::duration>
-- 
2.43.0


From 0a4ad93d930f6df5661da8a507f10be509740288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 41/77] fix: times before 1970 print a wrong fraction, or
 nothing

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index eb631a7..7139544 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -506,30 +506,30 @@ namespace cmdr::chrono {
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ms(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    milliseconds ms                = duration_cast<milliseconds>(time.time_since_epoch());
+    milliseconds ms                = floor<milliseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = ms.count() % 1000;
+    std::size_t fractional_seconds = (ms.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_us(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    microseconds us                = duration_cast<microseconds>(time.time_since_epoch());
+    microseconds us                = floor<microseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = us.count() % 1000;
+    std::size_t fractional_seconds = (us.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ns(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    nanoseconds ns                 = duration_cast<nanoseconds>(time.time_since_epoch());
+    nanoseconds ns                 = floor<nanoseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = ns.count() % 1000;
+    std::size_t fractional_seconds = (ns.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
@@ -585,9 +585,7 @@ namespace cmdr::chrono {
   inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
     using iom_     = cmdr::chrono::iom;
     // using tp = std::chrono::time_point<_Clock, _Duration>;
-    std::time_t tt = _Clock::to_time_t(time);
-    if (tt == -1)
-      return os;
+    std::time_t tt = _Clock::to_time_t(std::chrono::time_point_cast<typename _Clock::duration>(std::chrono::floor<std::chrono::seconds>(time)));
     std::tm *tm{nullptr};
     if (iom_::has(iom_::fmtflags::gmt_or_local)) {
 #if defined(_WIN32) || defined(_WIN64)
-- 
2.43.0


From aedac743c1909905b262987c89991583378cb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 42/77] fix: last_day_at_this_month() answers for the month
 before

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 7139544..9a9de3f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -692,7 +692,7 @@ namespace cmdr::chrono {
    * @return new time point
    */
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
-  inline typename Clock::time_point last_day_at_this_month_in_time_point(std::tm const &tm, int day_offset = 1, int month_delta = 0, int mday = 1) {
+  inline typename Clock::time_point last_day_at_this_month_in_time_point(std::tm const &tm, int day_offset = 1, int month_delta = 1, int mday = 1) {
     std::tm tmp = tm;
     if (day_offset < 1 || day_offset > 31)
       return tm_2_time_point(tmp);
@@ -723,7 +723,7 @@ namespace cmdr::chrono {
    * @return new time point in std::tm structure
    */
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
-  inline std::tm last_day_at_this_month(std::tm const &tm, int day_offset = 1, int month_delta = 0, int mday = 1) {
+  inline std::tm last_day_at_this_month(std::tm const &tm, int day_offset = 1, int month_delta = 1, int mday = 1) {
     auto t = last_day_at_this_month_in_time_point(tm, day_offset, month_delta, mday);
     return time_point_2_tm(t);
   }
-- 
2.43.0


From 3bd0f664a13a9d47863261547b7fc7f449a533bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 43/77] fix: last_day_at_*() is off by one when the month
 crosses a DST change

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 9a9de3f..f59ab59 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -705,12 +705,10 @@ namespace cmdr::chrono {
       tmp.tm_year++;
     }
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got next month 1st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
-    // printf("  . . . . got next month 1st - %d day: %s\n", day_offset, format_time_point(t).c_str());
-    return t;
+    // subtract day_offset: with 1 day we get the last day in this month
+    tmp.tm_mday -= day_offset;
+    tmp.tm_isdst = -1; // might be another one on that day
+    return Clock::from_time_t(std::mktime(&tmp));
   }
   /**
    * @brief get last 'day_offset' day of this month.
@@ -747,12 +745,10 @@ namespace cmdr::chrono {
     tmp.tm_mon  = 0; // Dec 31th
     tmp.tm_year++;
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got December 31st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
-    // printf("  . . . . got December 31st + 1 - %d day: %s\n", day_offset, format_time_point(t).c_str());
-    return t;
+    // subtract day_offset: with 1 day we get the last day in this year
+    tmp.tm_mday -= day_offset;
+    tmp.tm_isdst = -1; // might be another one on that day
+    return Clock::from_time_t(std::mktime(&tmp));
   }
   /**
    * @brief get last 'day_offset' day of this year.
-- 
2.43.0


From 83c76dfa04a45071bdf2e0b1543835f6a16efdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 44/77] fix: compare_date_part() does not order dates

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index f59ab59..a6a4c87 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -766,14 +766,11 @@ namespace cmdr::chrono {
 
 
   template<typename Clock = std::chrono::system_clock>
-  inline bool compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
+  inline int compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
     std::tm tml = time_point_2_tm(lhs);
     std::tm tmr = time_point_2_tm(rhs);
-    tml.tm_sec  = tmr.tm_sec;
-    tml.tm_min  = tmr.tm_min;
-    tml.tm_hour = tmr.tm_hour;
-    auto l      = tm_2_time_point(tml);
-    auto r      = tm_2_time_point(tmr);
+    auto l      = std::make_tuple(tml.tm_year, tml.tm_yday);
+    auto r      = std::make_tuple(tmr.tm_year, tmr.tm_yday);
     return l == r ? 0 : l < r ? -1
                               : 1;
   }
-- 
2.43.0


From 656c54638ac482a853208afd08b448aae55054bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 45/77] fix: parse_datetime() drops the time of day and keeps
 the DST flag of today

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index a6a4c87..fb86f69 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -913,9 +913,10 @@ namespace cmdr::chrono {
     }
 
     if (try_parse_by(tm, str,
-                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S",
-                     "%Y-%m-%d %H:%M:%S", "%Y/%m/%d %H:%M:%S")) {
-      n = Clock::from_time_t(std::mktime(&tm));
+                     "%Y/%m/%d %H:%M:%S",
+                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S")) {
+      tm.tm_isdst = -1; // it belongs to the time which was parsed, not to the current one
+      n           = Clock::from_time_t(std::mktime(&tm));
       // printf("  . . . . parsed: %s\n", format_time_point(n).c_str());
     }
 
-- 
2.43.0


From c65616535f563b721316b6d2c8a4a06c80ef5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 46/77] fix: process::exec cuts long commands and redirects
 stderr of the last part only, to a shared file

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index d24ba8e..671b112 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -17,8 +17,12 @@
 #include <thread>
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
 #include <windows.h>
+#else
+#include <sys/wait.h>
+#include <unistd.h>
 #endif
 #include <array>
+#include <atomic>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -205,11 +209,18 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
 #else // try POSIX
-        tmpfile_stderr = path::tmpname_for_stderr();
-        std::array<char, 512> cmd;
-        std::snprintf(cmd.data(), 512, "%s 2>%s", command, tmpfile_stderr.c_str());
+        static std::atomic<int> id{0};
+        tmpfile_stderr = path::tmpname_for_stderr().string() + "." + std::to_string(getpid()) + "." + std::to_string(id++);
+        // redirect first, so that the errors of each part of the command are captured
+        std::string cmd{"exec 2>'"};
+        for (char c: tmpfile_stderr) {
+          if (c == '\'') cmd += "'\\'";
+          cmd += c;
+        }
+        cmd += "'\n";
+        cmd += command;
         // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
-        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.data(), "r"), [this](FILE *f) {
+        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
           _rc = pclose(f);
           if (_rc == EXIT_SUCCESS) {        // == 0
           } else if (_rc == EXIT_FAILURE) { // EXIT_FAILURE is not used by all programs, maybe needs some adaptation.
@@ -231,6 +242,7 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
         _ef = std::ifstream(tmpfile_stderr);
+        io::delete_file(tmpfile_stderr.c_str());
 
         // auto rc = pclose(pipe);
 #endif
-- 
2.43.0


From f22a98dc7b5cc5b9d99068fc9349f147eb830cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 47/77] fix: process::exec reports a command ended by a signal
 as a success

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index 671b112..fe374ee 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -222,6 +222,7 @@ namespace cmdr::process {
         // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
         std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
           _rc = pclose(f);
+          if (WIFSIGNALED(_rc)) _rc = (128 + WTERMSIG(_rc)) * 256; // as a shell tells it
           if (_rc == EXIT_SUCCESS) {        // == 0
           } else if (_rc == EXIT_FAILURE) { // EXIT_FAILURE is not used by all programs, maybe needs some adaptation.
           }
-- 
2.43.0


From 7ee3cb32ab473062609961ab56b40747ac7a2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 48/77] fix: printing a process::exec whose output was read
 already fails the stream

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index fe374ee..8d49d78 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -269,7 +269,7 @@ namespace cmdr::process {
    */
   class exec : public std::istream {
   protected:
-    detail::execbuf buffer;
+    mutable detail::execbuf buffer;
 
   public:
     exec(char const *command)
@@ -282,7 +282,7 @@ namespace cmdr::process {
     std::ifstream &stderr_stream() { return buffer._ef; }
 
     friend std::ostream &operator<<(std::ostream &os, exec const &o) {
-      if (o.buffer.size())
+      if (o.buffer.in_avail() > 0)
         os << o.rdbuf();
       return os;
     }
-- 
2.43.0


From 4188c2f2a3b4a0fa693b95a61d8cf710daa5bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 49/77] fix: printing an empty stringstream fails the target
 stream

---
 libs/cmdr11/include/cmdr11/cmdr_ios.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_ios.hh b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
index 55d9eb1..6d70221 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_ios.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
@@ -19,7 +19,10 @@ inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT
 }
 template<class _CharT, class _Traits = std::char_traits<_CharT>>
 inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT, _Traits> &os, std::basic_ifstream<_CharT, _Traits> const &ifs) {
-  return os << ifs.rdbuf();
+  // `os` would fail if there is nothing to be written
+  if (!_Traits::eq_int_type(ifs.rdbuf()->sgetc(), _Traits::eof()))
+    os << ifs.rdbuf();
+  return os;
 }
 // template<class _CharT, class _Traits = std::char_traits<_CharT>>
 // inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT, _Traits> &os, std::ifstream const &ifs) {
@@ -31,7 +34,7 @@ inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT
   // ifs >> std::noskipws;
   // std::copy(std::istream_iterator<char>(ifs), std::istream_iterator<char>(), std::ostream_iterator<char>(std::cout));
 
-  if (ifs.rdbuf() != nullptr)
+  if (ifs.rdbuf() != nullptr && !_Traits::eq_int_type(ifs.rdbuf()->sgetc(), _Traits::eof()))
     os << ifs.rdbuf();
   return os;
 }
-- 
2.43.0


From d4557df5b727108af9501546e8b84b0fd5a77e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 50/77] fix: create_sparse_file() reports success when it
 failed

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 9fdc148..1b3f0e0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -391,13 +391,17 @@ namespace cmdr::io {
     CloseHandle(hSparseFile);
 
     std::filesystem::resize_file(name, size);
+    return true;
 #else
     std::ofstream ofs(name, std::ios_base::out | std::ios_base::binary);
-    ofs.seekp(size - 1);
-    char const ch = '\0';
-    ofs.write(&ch, 1);
+    if (size > 0) {
+      ofs.seekp(size - 1);
+      char const ch = '\0';
+      ofs.write(&ch, 1);
+    }
+    ofs.close();
+    return ofs.good();
 #endif
-    return true;
   }
 } // namespace cmdr::io
 
-- 
2.43.0


From 1589c21338aba0c100d9a8104e4b4ab8579abecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 51/77] fix: tmpname_autoincr() hands the same name to two
 processes or threads

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 1b3f0e0..1c0dc6a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <chrono>
 #include <filesystem>
 #include <string>
@@ -493,10 +494,14 @@ namespace cmdr::path {
    */
   inline std::filesystem::path tmpname_autoincr(char const *name_template = nullptr) {
     std::filesystem::path p = fs::temp_directory_path();
-    static int id           = 0;
+    static std::atomic<int> id{0};
     char buf[MAX_PATH];
     snprintf(buf, MAX_PATH, name_template ? name_template : "_%05d", id++);
+#if defined(_WIN32)
     p /= buf;
+#else
+    p /= name_template ? buf : std::to_string(getpid()) + buf; // another process counts too
+#endif
     ensure_directory(path::dirname(p));
     return p;
   }
-- 
2.43.0


From 2d6cacb555db85c96804cf8c518dfcc6c41afe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 52/77] fix: copying or moving a mmaplib closes and unmaps its
 file twice

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 46 ++++++++++++++++---------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index ca5be49..e22fb7b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -44,19 +44,31 @@ namespace cmdr::mmap {
 
   namespace detail {
 
+#if defined(_WIN32)
+#define MAP_FAILED NULL
+#endif
+
     class mmaplib {
     public:
       mmaplib();
       ~mmaplib();
       mmaplib(const char *path, bool writeable, bool shareable);
-      mmaplib(mmaplib const &mm) { __copy(mm); }
-      mmaplib(mmaplib &&mm) { __copy(mm); }
+      mmaplib(mmaplib const &mm)
+          : mmaplib() { __copy(mm); }
+      mmaplib(mmaplib &&mm)
+          : mmaplib() { __copy(std::move(mm)); }
       mmaplib &operator=(mmaplib const &o) {
-        __copy(o);
+        if (this != &o) {
+          cleanup();
+          __copy(o);
+        }
         return (*this);
       }
       mmaplib &operator=(mmaplib &&o) {
-        __copy(o);
+        if (this != &o) {
+          cleanup();
+          __copy(std::move(o));
+        }
         return (*this);
       }
 
@@ -65,11 +77,12 @@ namespace cmdr::mmap {
 #if defined(_WIN32)
         ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &hFile_, 0, FALSE, DUPLICATE_SAME_ACCESS);
         ::DuplicateHandle(GetCurrentProcess(), mm.hMapping_, GetCurrentProcess(), &hMapping_, 0, FALSE, DUPLICATE_SAME_ACCESS);
-#else
-        fd_    = dup2(0, mm.fd_);
-#endif
         size_ = mm.size_;
         addr_ = mm.addr_;
+#else
+        if (mm.is_open()) // a mapping of its own
+          connect(mm.writeable_, mm.shareable_, dup(mm.fd_));
+#endif
       }
       void __copy(mmaplib &&mm) {
 #if defined(_WIN32)
@@ -78,12 +91,15 @@ namespace cmdr::mmap {
         mm.hFile_    = INVALID_HANDLE_VALUE;
         mm.hMapping_ = NULL;
 #else
-        fd_    = mm.fd_;
-        mm.fd_ = INVALID_HANDLE_VALUE;
+        fd_        = mm.fd_;
+        writeable_ = mm.writeable_;
+        shareable_ = mm.shareable_;
+        mm.fd_     = INVALID_HANDLE_VALUE;
 #endif
         size_    = mm.size_;
         addr_    = mm.addr_;
-        mm.addr_ = nullptr;
+        mm.size_ = 0;
+        mm.addr_ = MAP_FAILED;
       }
 
     public:
@@ -104,16 +120,12 @@ namespace cmdr::mmap {
       HANDLE hMapping_;
 #else
       FILE_HANDLE fd_;
+      bool writeable_{}, shareable_{};
 #endif
       std::size_t size_;
       void *addr_;
     };
 
-#if defined(_WIN32)
-#define MAP_FAILED NULL
-#endif
-
-
     inline mmaplib::mmaplib()
 #if defined(_WIN32)
         : hFile_(INVALID_HANDLE_VALUE)
@@ -176,7 +188,9 @@ namespace cmdr::mmap {
         std::runtime_error("");
       }
 
-      fd_ = fd;
+      fd_        = fd;
+      writeable_ = writeable;
+      shareable_ = shareable;
       struct stat sb;
       if (fstat(fd, &sb) == -1) {
         cleanup();
-- 
2.43.0


From 9c880d1ecba5946917ed46975f35fe62e66e85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 53/77] fix: writing a clock leaves 0 as the fill character of
 the stream

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index fb86f69..6f6d58f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -823,6 +823,7 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
+    char const fill = os.fill();
     if (iom_::has(iom_::fmtflags::ns)) {
       auto const _nsec = in_nsec();
       os << std::put_time(tm, format) << '.' << std::setfill('0')
@@ -839,6 +840,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.fill(fill);
     return os;
   }
 } // namespace cmdr::chrono
-- 
2.43.0


From d1ba196e6b52a8b2d67c63c498d71dd30a98efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 54/77] fix: format_time_point_to_local() of now shows GMT

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 6f6d58f..64f3a83 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -662,7 +662,7 @@ namespace cmdr::chrono {
     serialize_time_point(ss, time, format);
     return ss.str();
   }
-  inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point(std::chrono::system_clock::now(), format); }
+  inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point_to_local(std::chrono::system_clock::now(), format); }
 
   inline std::ostream &serialize_tm(std::ostream &os, std::tm const *tm, const char *format = "%Y-%m-%d %H:%M:%S") {
     os << std::put_time(tm, format);
-- 
2.43.0


From f121c2eacb41ecc94cbee01b0798895d9fd67a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 55/77] fix: modifiers without a colour were undone by an empty
 last SGR parameter

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index bbe47e0..b726db3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -738,25 +738,26 @@ namespace cmdr::terminal::colors {
     }
     friend std::ostream &operator<<(std::ostream &os, const colorize &o) {
       if (o._colorful) {
-        os << "\033[" << o.modifiers();
+        std::ostringstream sgr;
+        sgr << o.modifiers();
         if (o._true_color_enabled) {
           if (o._fg != -1) {
-            os << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
-            if (o._bg != -1) os << ';';
+            sgr << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg) << ';';
           }
           if (o._bg != -1) {
-            os << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
+            sgr << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg) << ';';
           }
         } else {
           if (o._fg >= 0 && o._fg < 256) {
-            os << "38;5;" << o._fg;
-            if (o._bg >= 0 && o._bg < 256) os << ';';
+            sgr << "38;5;" << o._fg << ';';
           }
           if (o._bg >= 0 && o._bg < 256) {
-            os << "48;5;" << o._bg;
+            sgr << "48;5;" << o._bg << ';';
           }
         }
-        os << 'm';
+        auto params = sgr.str();
+        if (!params.empty()) params.pop_back(); // an empty last parameter would mean `reset all`
+        if (!params.empty()) os << "\033[" << params << 'm';
       }
 
       // text
-- 
2.43.0


From f061f42ff8ad1e07d8783a1d5126ccca380f5074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 56/77] fix: ending bold, a fast blink or one style alone ends
 just that

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index b726db3..c22dd44 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -185,6 +185,9 @@ namespace cmdr::terminal::colors {
 #endif
     }
 
+    // the parameter which ends a modifier: bold and dim share one, as both blinks do
+    static int _off(int i) { return i == 1 ? 22 : (i == 6 ? 25 : 20 + i); }
+
     std::string modifiers() const {
 #if 0
             std::stringstream ss;
@@ -222,13 +225,13 @@ namespace cmdr::terminal::colors {
 #define DEF_MODIFIER(what, i)               \
   colorize &what(bool b = true) {           \
     /*_st._individual._##what = b; */       \
-    _stocked_ss << (b ? i : 20 + i) << ';'; \
+    _stocked_ss << (b ? i : _off(i)) << ';'; \
     return (*this);                         \
   }                                         \
   colorize &reset_##what() {                \
     /*_st._individual._reset_##what = b;*/  \
     /*_st._individual._##what = false;*/    \
-    _stocked_ss << (20 + i) << ';';         \
+    _stocked_ss << _off(i) << ';';          \
     return (*this);                         \
   }
     DEF_MODIFIER(bold, 1)
@@ -681,7 +684,7 @@ namespace cmdr::terminal::colors {
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum reset o) {
-      if (_default_colorful) os << "\033[" << (int) o << ";m";
+      if (_default_colorful) os << "\033[" << (o == reset::all ? 0 : _off((int) o)) << 'm';
       return os;
     }
 
-- 
2.43.0


From 1808be095ed066c530b4865f749e86d4a202d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 57/77] fix: a background colour is written in its own mode,
 not in that of the foreground

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index c22dd44..8dade14 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -167,6 +167,7 @@ namespace cmdr::terminal::colors {
 
     bool _auto_reset{true};
     bool _true_color_enabled{true}; // false to fallback to 256-color, or true to enable true-color mode.
+    bool _bg_true_color{false};
     const_chars _cc{};
     std::string _ss{};
     std::stringstream _stocked_ss{};
@@ -577,12 +578,14 @@ namespace cmdr::terminal::colors {
     }
     colorize &bg(int r, int g, int b) {
       // CMDR_ASSERT(c >= 0 && c <= 256);
-      _bg = (r << 16) | (g << 8) | b;
+      _bg            = (r << 16) | (g << 8) | b;
+      _bg_true_color = true;
       return (*this);
     }
     colorize &bg(Colors256 color256) {
       // CMDR_ASSERT(color256 >= 0 && color256 <= 256);
-      _bg = (int) color256;
+      _bg            = (int) color256;
+      _bg_true_color = false;
       return (*this);
     }
 
@@ -747,13 +750,16 @@ namespace cmdr::terminal::colors {
           if (o._fg != -1) {
             sgr << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg) << ';';
           }
-          if (o._bg != -1) {
-            sgr << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg) << ';';
-          }
         } else {
           if (o._fg >= 0 && o._fg < 256) {
             sgr << "38;5;" << o._fg << ';';
           }
+        }
+        if (o._bg_true_color) {
+          if (o._bg != -1) {
+            sgr << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg) << ';';
+          }
+        } else {
           if (o._bg >= 0 && o._bg < 256) {
             sgr << "48;5;" << o._bg << ';';
           }
-- 
2.43.0


From cf2eb22b939c5f68353bb07f51c8f0bc843dcbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 58/77] fix: colorize::s() replaces the text, whichever of its
 forms is used

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 8dade14..bb6f96d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -262,10 +262,12 @@ namespace cmdr::terminal::colors {
 
     colorize &s(const_chars str) {
       _cc = str;
+      _ss.clear();
       return (*this);
     }
     colorize &s(const std::string &str) {
       _ss = str;
+      _cc = nullptr;
       return (*this);
     }
 
-- 
2.43.0


From e47a957f2165f3313d1baad39d8385817a78ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 59/77] fix: set_default_colorful() stays in force when a
 colorizer is created

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index bb6f96d..c2e4838 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -174,12 +174,13 @@ namespace cmdr::terminal::colors {
 
     bool _colorful;
     static bool _default_colorful;
+    static bool _default_specified; // by set_default_colorful()
     static int _colors;
     static void _init() {
-      _default_colorful = terminfo::is_colorful();
-      _colors           = terminfo::support_colors();
+      if (!_default_specified) _default_colorful = terminfo::is_colorful();
+      _colors = terminfo::support_colors();
 #if defined(_DEBUG)
-      if (!_default_colorful) {
+      if (!_default_colorful && !_default_specified) {
         _default_colorful = true;
         _colors           = 256;
       }
@@ -723,7 +724,8 @@ namespace cmdr::terminal::colors {
      * @param enable_colors
      */
     [[maybe_unused]] static void set_default_colorful(bool enable_colors = true) {
-      _default_colorful = enable_colors;
+      _default_colorful  = enable_colors;
+      _default_specified = true;
       if (enable_colors && _colors == 0) _colors = 256;
     }
     /**
@@ -817,6 +819,7 @@ namespace cmdr::terminal::colors {
   // }
 
   inline bool colorize::_default_colorful{};
+  inline bool colorize::_default_specified{};
   inline int colorize::_colors{};
 
 
-- 
2.43.0


From 28b67626b3c82aa677a8d2fa05b42b0ab2f3b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 60/77] fix: a COLORTERM without a number means 8 colors

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index c2e4838..9b5966b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -85,7 +85,7 @@ namespace cmdr::terminal {
 
       std::istringstream is(s);
       int count = 8;
-      is >> count;
+      if (!(is >> count)) count = 8;
       return count;
 #endif
     }
-- 
2.43.0


From 2c145b910dfecc9b42e6b81ef5857b0e79baa461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 61/77] fix: --no-color is read from the app that prints its
 help

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 1f88436..ac352bc 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -690,7 +690,7 @@ namespace cmdr {
     bool shell_completion_mode = get_for_cli("shell-completion").as<bool>();
     auto c                     = cmdr::terminal::colors::colorize::create();
 
-    if (is_no_color()) {
+    if (get_for_cli("no-color").as<bool>()) { // of this app, and not of the last created one
       c.enable(false);
     }
 
-- 
2.43.0


From dfc2764a23bc72a926db16a54af5d591aa7e3324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 62/77] fix: cool::partial() keeps the function and arguments,
 not references to them

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index b01d34f..7932677 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -619,9 +619,9 @@ namespace cmdr::util::cool {
   template<typename F, typename... Args>
   class partial_t {
   public:
-    constexpr partial_t(F &&f, Args &&...args)
-        : f_(std::forward<F>(f))
-        , args_(std::forward_as_tuple(args...)) {
+    constexpr partial_t(F f, Args... args)
+        : f_(std::move(f))
+        , args_(std::move(args)...) {
     }
 
     template<typename... RestArgs>
@@ -654,7 +654,7 @@ namespace cmdr::util::cool {
    */
   template<typename Fn, typename... Args>
   constexpr decltype(auto) partial(Fn &&fn, Args &&...args) {
-    return partial_t<Fn, Args...>(std::forward<Fn>(fn), std::forward<Args>(args)...);
+    return partial_t<std::decay_t<Fn>, std::decay_t<Args>...>(std::forward<Fn>(fn), std::forward<Args>(args)...);
   }
 } // namespace cmdr::util::cool
 
-- 
2.43.0


From 1a568337f16a3f4c73f69358b6303a7faac397a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 63/77] fix: cool::curry() keeps its arguments, not references
 to temporaries

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 7932677..bf54406 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -676,10 +676,10 @@ namespace cmdr::util::cool {
   struct curry_t {
     template<typename... Args>
     constexpr decltype(auto) operator()(Args &&...a) const {
-      curry_t<F, Arguments..., Args...> cur = {f_,
+      curry_t<F, Arguments..., std::decay_t<Args>...> cur = {f_,
                                                std::tuple_cat(args_, std::make_tuple(std::forward<Args>(a)...))};
 
-      if constexpr (!can_invoke<F, Arguments..., Args...>::value) {
+      if constexpr (!can_invoke<F, Arguments..., std::decay_t<Args>...>::value) {
         return cur;
       } else {
         return cur();
@@ -695,7 +695,7 @@ namespace cmdr::util::cool {
   };
 
   template<typename F>
-  constexpr curry_t<F> curry(F &&f) {
+  constexpr curry_t<std::decay_t<F>> curry(F &&f) {
     return {std::forward<F>(f)};
   }
 } // namespace cmdr::util::cool
-- 
2.43.0


From fecefd2bcc8fa64c0f562143467c82db956f5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 64/77] fix: traits::lambda() gives the result of the lambda

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index bf54406..5ea4e43 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -206,9 +206,9 @@ namespace cmdr::traits {
     overload_lambda(L l)
         : L(l) {}
     template<typename... T>
-    void operator()(T &&...values) {
+    decltype(auto) operator()(T &&...values) {
       // here you can access the target std::function with
-      to_function (*(L *) this)(std::forward<T>(values)...);
+      return to_function (*(L *) this)(std::forward<T>(values)...);
     }
   };
 
-- 
2.43.0


From 316844be0310cb007065afac85f7ad956efdbdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 65/77] fix: to_shared(unique_ptr) did not compile

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 5ea4e43..f69dc03 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -68,7 +68,7 @@ namespace std {
   template<typename T>
   inline shared_ptr<T> to_shared(shared_ptr<T> const &ptr) { return ptr; }
   template<typename T>
-  inline shared_ptr<T> to_shared(unique_ptr<T> &&ptr) { return ptr; }
+  inline shared_ptr<T> to_shared(unique_ptr<T> &&ptr) { return std::move(ptr); }
 
 } // namespace std
 
-- 
2.43.0


From 72d985bc494f987abba9ee16cda2c288be349013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 66/77] fix: defer<T> without a function, or with a capturing
 lambda, did not compile

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index f69dc03..ec90f00 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -923,7 +923,12 @@ namespace cmdr::util {
         , _fn(fn) {}
     ~defer() {
       _c.close();
-      if (_fn) { _fn(); }
+      if constexpr (std::is_invocable_v<_D &>) {
+        if constexpr (std::is_constructible_v<bool, _D &>) {
+          if (!_fn) return;
+        }
+        _fn();
+      }
     }
 
   private:
-- 
2.43.0


From 99536df2761cee1bfb297ee2d1183e90ad9b458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 67/77] fix: the elements of a tuple were printed to std::cout,
 not to its stream

---
 libs/cmdr11/include/cmdr11/cmdr_defs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_defs.hh b/libs/cmdr11/include/cmdr11/cmdr_defs.hh
index 35ef293..a885b12 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_defs.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_defs.hh
@@ -1164,7 +1164,7 @@ namespace detail {
     if constexpr (I == sizeof...(Ts)) {
       return os << ')';
     } else {
-      std::cout << std::get<I>(tuples);
+      os << std::get<I>(tuples);
       if constexpr (I + 1 != sizeof...(Ts)) {
         os << ", ";
       }
-- 
2.43.0


From 4e60abc29ddac815c1dd35138f4403e17a264b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 68/77] fix: register_action() of an action that exists already
 had no effect

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 604ad90..edf5352 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -100,7 +100,7 @@ namespace cmdr {
 
 
   inline void app::register_action(opt::Action action, opt::types::on_internal_action const &fn) {
-    _internal_actions.emplace(action, fn);
+    _internal_actions[action] = fn;
   }
 
   inline std::string compiler_name() {
-- 
2.43.0


From 82776bff6056ff1e33cf88b4e84d2d5ec14fe88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 69/77] fix: only the first dash of a name became an underscore
 in the completion script

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index edf5352..5f77c56 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -733,7 +733,7 @@ fi
     const auto *name    = get_for_cli("generate.shell.name").as<const_chars>();
     const const_chars n = name && *name ? name : exe_name;
     std::string sn      = n;
-    string::replace(sn, "-", "_");
+    string::replace_all(sn, "-", "_");
     cross::setenv("SAFE_APP_NAME", sn.c_str());
     std::filesystem::path safe_name(sn);
 
-- 
2.43.0


From 522594fd5cba0bf387b1e22a19d687299af637e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 70/77] fix: settings whose key begins like app.cli were left
 out of the ~~debug lists

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 5f77c56..071115e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -265,7 +265,7 @@ namespace cmdr {
       std::function<bool(std::pair<vars::store::key_type, vars::store::node_pointer> const &)>
           filter{};
       if (!allow_cli_sub_key) filter = [&](std::pair<vars::store::key_type, vars::store::node_pointer> const &p) -> bool {
-        return !string::has_prefix(p.first, cli_prefix);
+        return p.first != cli_prefix && !string::has_prefix(p.first, cli_prefix + '.');
       };
 
       if (tilde_debug_hit_count > 1) {
-- 
2.43.0


From 51c1460254bec91715f00973d47961d4744d7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 71/77] fix: dumping an exception again lost the functions in
 its stack trace

---
 libs/cmdr11/include/cmdr11/cmdr_dbg.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
index fa6a80d..29bbd2d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
@@ -584,9 +584,9 @@ namespace cmdr::debug {
 
     size_t funcnamesize = 256;
     auto funcname      = static_cast<char *>(malloc(funcnamesize));
-    for (auto const &str: st) {
+    for (auto str: st) { // a copy: it is cut into pieces
       char *begin_name = nullptr, *begin_offset = nullptr, *end_offset = nullptr;
-      const auto data = const_cast<char *>(str.c_str());
+      const auto data = &str[0];
 
       // find parentheses and +address offset surrounding the mangled name:
       // ./module(function+0x15c) [0x8048a6d]
-- 
2.43.0


From 407fa8b3ef107f40a328fd8566f5ca41a0b4f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 72/77] fix: threads that converted times or logged at once got
 each other's times

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 51 ++++++++++++++++-------
 libs/cmdr11/include/cmdr11/cmdr_log.hh    |  5 ++-
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 64f3a83..9f9cae1 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -72,6 +72,27 @@ inline int clock_gettime(int, timespec *spec) {
 
 #include "cmdr_defs.hh"
 
+namespace cmdr::chrono::detail {
+  // std::gmtime() and std::localtime() return one and the same object in all threads
+  inline std::tm *gmtime(std::time_t const *t) {
+#if defined(_WIN32) || defined(_WIN64)
+    return std::gmtime(t);
+#else
+    static thread_local std::tm tm{};
+    return ::gmtime_r(t, &tm);
+#endif
+  }
+  inline std::tm *localtime(std::time_t const *t) {
+#if defined(_WIN32) || defined(_WIN64)
+    return std::localtime(t);
+#else
+    static thread_local std::tm tm{};
+    ::tzset(); // as std::localtime() does
+    return ::localtime_r(t, &tm);
+#endif
+  }
+} // namespace cmdr::chrono::detail
+
 // type checks
 namespace cmdr::chrono {
 
@@ -556,7 +577,7 @@ namespace cmdr::chrono {
       }
       return tm1;
 #else
-      return *std::gmtime(&time_now);
+      return *detail::gmtime(&time_now);
 #endif
     }
 #if defined(_WIN32) || defined(_WIN64)
@@ -564,16 +585,16 @@ namespace cmdr::chrono {
     localtime_s(&tm1, &time_now);
     return tm1;
 #else
-    return *std::localtime(&time_now);
+    return *detail::localtime(&time_now);
 #endif
   }
 
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
   inline std::tm time_t_2_tm(time_t t) {
     if (GMT) {
-      return *std::gmtime(&t);
+      return *detail::gmtime(&t);
     }
-    return *std::localtime(&t);
+    return *detail::localtime(&t);
   }
 
 } // namespace cmdr::chrono
@@ -582,12 +603,13 @@ namespace cmdr::chrono {
 namespace cmdr::chrono {
   // NOTE: just for std::chrono::system_clock
   template<class _Clock, class _Duration = typename _Clock::duration>
-  inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
+  inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S",
+                                            bool gmt = iom::has(iom::fmtflags::gmt_or_local)) {
     using iom_     = cmdr::chrono::iom;
     // using tp = std::chrono::time_point<_Clock, _Duration>;
     std::time_t tt = _Clock::to_time_t(std::chrono::time_point_cast<typename _Clock::duration>(std::chrono::floor<std::chrono::seconds>(time)));
     std::tm *tm{nullptr};
-    if (iom_::has(iom_::fmtflags::gmt_or_local)) {
+    if (gmt) {
 #if defined(_WIN32) || defined(_WIN64)
       struct tm tm1;
       __int64 ltime;
@@ -599,7 +621,7 @@ namespace cmdr::chrono {
         tm = &tm1;
       }
 #else
-      tm = std::gmtime(&tt); // GMT (UTC)
+      tm = detail::gmtime(&tt); // GMT (UTC)
 #endif
     } else { // if (iom_::has(iom_::fmtflags::local))
 #if defined(_WIN32) || defined(_WIN64)
@@ -608,7 +630,7 @@ namespace cmdr::chrono {
       localtime_s(&tm1, &now);
       tm = &tm1;
 #else
-      tm = std::localtime(&tt); // Locale time-zone, usually UTC by default.
+      tm = detail::localtime(&tt); // Locale time-zone, usually UTC by default.
 #endif
     }
     // else
@@ -655,11 +677,8 @@ namespace cmdr::chrono {
   inline std::string format_time_point(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point(std::chrono::system_clock::now(), format); }
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline std::string format_time_point_to_local(std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
-    using iom_ = cmdr::chrono::iom;
-    iom_::saver _iom_saver{};
-    iom_::set_flags(iom_::fmtflags::gmt_or_local, false);
     std::stringstream ss;
-    serialize_time_point(ss, time, format);
+    serialize_time_point(ss, time, format, false); // the flags belong to all threads
     return ss.str();
   }
   inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point_to_local(std::chrono::system_clock::now(), format); }
@@ -807,7 +826,7 @@ namespace cmdr::chrono {
       }
 #else
       const auto tt = std::chrono::system_clock::to_time_t(_now);
-      tm            = std::gmtime(&tt); // GMT (UTC)
+      tm            = detail::gmtime(&tt); // GMT (UTC)
 #endif
     } else { // if (iom_::has(iom_::fmtflags::local))
 #if defined(_WIN32) || defined(_WIN64)
@@ -817,7 +836,7 @@ namespace cmdr::chrono {
       tm = &tm1;
 #else
       const auto tt = std::chrono::system_clock::to_time_t(_now);
-      tm            = std::localtime(&tt); // Locale time-zone, usually UTC by default.
+      tm            = detail::localtime(&tt); // Locale time-zone, usually UTC by default.
 #endif
     }
     // else
@@ -901,7 +920,7 @@ namespace cmdr::chrono {
 #else
       auto now      = Clock::now();
       auto time_now = Clock::to_time_t(now);
-      tm            = *std::gmtime(&time_now);
+      tm            = *detail::gmtime(&time_now);
 #endif
     } else {
 #if defined(_WIN32) || defined(_WIN64)
@@ -910,7 +929,7 @@ namespace cmdr::chrono {
 #else
       auto now      = Clock::now();
       auto time_now = Clock::to_time_t(now);
-      tm            = *std::localtime(&time_now);
+      tm            = *detail::localtime(&time_now);
 #endif
     }
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_log.hh b/libs/cmdr11/include/cmdr11/cmdr_log.hh
index 570a42d..b47d16a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_log.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_log.hh
@@ -40,7 +40,10 @@ namespace cmdr::log {
         time_t vt = time(nullptr);
         gmtime_s(_tm, &vt);
 #else
-        auto *_tm = cross::gmtime();
+        struct tm tm_ {};
+        auto _tm        = &tm_;
+        time_t const vt = cross::time(nullptr);
+        ::gmtime_r(&vt, _tm);
 #endif
         std::strftime(time_buf, sizeof time_buf, "%D %T", _tm);
 
-- 
2.43.0


From 3dd4b4e8887db1cd9d7671008cef57c52d3c6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 73/77] fix: short_type_name() could not be used for any type

---
 libs/cmdr11/include/cmdr11/cmdr_dbg.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
index 29bbd2d..2b90acf 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
@@ -215,9 +215,9 @@ namespace cmdr::debug {
    */
   template<typename T>
   constexpr auto short_type_name() -> std::string_view {
-    constexpr auto &value = type_name<T>();
-    constexpr auto end    = value.rfind("::");
-    return std::string_view{value.data() + (end != std::string_view::npos ? end + 2 : 0)};
+    constexpr auto value = type_name<T>();
+    constexpr auto end   = value.rfind("::");
+    return value.substr(end != std::string_view::npos ? end + 2 : 0);
   }
 
   // https://stackoverflow.com/questions/81870/is-it-possible-to-print-a-variables-type-in-standard-c
-- 
2.43.0


From 5b153eabba0f562cf1dab7facc976d61fe4202ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:20 +0000
Subject: [PATCH 74/77] fix: the descriptions of grouped commands did not line
 up with the others on the help screen

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index ed76db0..4c192cd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -845,7 +845,7 @@ namespace cmdr::opt {
 
         w            = wf + 2 + ws + 2 + wa;
         auto wt_real = (wt < 43 ? 43 : wt);
-        ss << std::setw(((std::size_t) wt_real - w - ((level >= 0 ? level : 0) + level_pad) * 2)) << ' ';
+        ss << std::setw(((std::size_t) wt_real - w - (level >= 0 ? level + level_pad : 0) * 2)) << ' ';
 
         if (shell_completion_mode) ss << '|'; // print a delimiter char for shell completion parser
 
-- 
2.43.0


From 00bac4f6bc9b8c610c030074f40f40c4809195f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 75/77] fix: the function set by set_on_handle_exception_ptr()
 was never called

The exception of a run was looked up in post_run(), which runs after the catch clauses
of run(): there it is no longer the current one. If run() was called from a catch clause,
the exception caught there was reported instead, although it had been handled.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index ac352bc..a6bfe64 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -958,9 +958,17 @@ namespace cmdr {
       if (_no_catch_cmdr_biz_error) {
         throw; // not `throw e`, which slices the error
       }
+      if (_on_handle_exception_ptr) {
+        handle_eptr(std::current_exception());
+        return -1;
+      }
       CMDR_DUMP_WITHOUT_STACK_TRACE(e);
 
     } catch (std::exception const &e) {
+      if (_on_handle_exception_ptr) {
+        handle_eptr(std::current_exception());
+        return -1;
+      }
       std::cerr << "Exception caught : " << e.what() << '\n';
       std::cerr << "         cmdline : " << string::join(_args_cache, ' ', '[', ']') << '\n';
       CMDR_DUMP_STACK_TRACE(e);
@@ -1029,15 +1037,11 @@ namespace cmdr {
       }
     }
 
-    if (std::current_exception() != nullptr) {
-      handle_eptr(std::current_exception());
-    } else {
-      // if (help_hit()) {
-      //     //
-      // } else {
-      //     //
-      // }
-    }
+    // if (help_hit()) {
+    //     //
+    // } else {
+    //     //
+    // }
   }
 
   inline void app::handle_eptr(const std::exception_ptr &eptr) const {
-- 
2.43.0


From 95d33a96669aee375fa72e03a015718fabb10672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 76/77] fix: an exception which is no std::exception went
 through run() to the caller

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index a6bfe64..d21f412 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -16,6 +16,10 @@
 #include <stdlib.h>
 #include <utility>
 
+#if defined(__GLIBCXX__)
+#include <cxxabi.h>
+#endif
+
 #include "cmdr_log.hh"
 #include "cmdr_terminal.hh"
 
@@ -973,7 +977,17 @@ namespace cmdr {
       std::cerr << "         cmdline : " << string::join(_args_cache, ' ', '[', ']') << '\n';
       CMDR_DUMP_STACK_TRACE(e);
 
-      // } catch (...) {
+#if defined(__GLIBCXX__)
+    } catch (abi::__forced_unwind const &) {
+      throw; // the thread ends (pthread_exit, pthread_cancel)
+#endif
+    } catch (...) {
+      if (_on_handle_exception_ptr) {
+        handle_eptr(std::current_exception());
+        return -1;
+      }
+      std::cerr << "Exception caught : of an unknown type" << '\n';
+      std::cerr << "         cmdline : " << string::join(_args_cache, ' ', '[', ']') << '\n';
     }
     return -1;
   }
-- 
2.43.0


From 62388d5c7d40512962c85025ba8a3f12cebe8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 77/77] fix: the descriptions on the tree screen did not line
 up, and a screen changed the tab stop of the next one

The width of the titles was found level by level while the screen was
written, without their indentation, and was kept for all later screens.
---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 5 ++++-
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 5 ++++-
 libs/cmdr11/include/cmdr11/cmdr_impl.hh   | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 071115e..e3d8156 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -335,7 +335,10 @@ namespace cmdr {
 
     // _pr_tree(std::cout, &pc.last_matched_cmd());
     auto c                       = cmdr::terminal::colors::colorize::create();
-    pc.last_matched_cmd().print_commands(std::cout, c, _minimal_tab_width, true, show_hidden_items, sc_mode, 0);
+    auto wt                      = _minimal_tab_width;
+    std::ostringstream os; // the first pass finds the width of all titles
+    pc.last_matched_cmd().print_commands(os, c, wt, true, show_hidden_items, sc_mode, 0);
+    pc.last_matched_cmd().print_commands(std::cout, c, wt, true, show_hidden_items, sc_mode, 0);
     return 0;
   }
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 4c192cd..fd8a777 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -494,6 +494,7 @@ namespace cmdr::opt {
     inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
+                                        int level,
                                         int &wt) {
       for (auto &it: dotted_key_on_keys) {
         auto const &val_it = grouped_commands.find(it.second);
@@ -505,6 +506,8 @@ namespace cmdr::opt {
 
         if (wf > 0) {
           auto wt_tmp = wf + 2 + ws + 2 + wa + 2;
+          if (level >= 0) // a tree: the titles are indented, and those of a group once more
+            wt_tmp += (level + (it.second != UNSORTED_GROUP ? 1 : 0)) * 2;
           if (wt < wt_tmp)
             wt = wt_tmp;
         }
@@ -775,7 +778,7 @@ namespace cmdr::opt {
 
     int count_all{};
     std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
-    detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
+    detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, level, wt);
 
     for (auto &it: dotted_key_on_keys) {
       auto const &val_it = _grouped_commands.find(it.second);
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index d21f412..41b3d8c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -636,11 +636,12 @@ namespace cmdr {
     auto const &tree_arg   = find_flag("tree");
     bool tree_mode         = tree_arg.hit_count() > 0;
 
+    auto const tab_width_set     = _minimal_tab_width;
+    auto saved_minimal_tab_width = _minimal_tab_width;
     std::ostringstream os1;
     cc->print_commands(os1, c, _minimal_tab_width, true, show_hidden_items, shell_completion_mode, tree_mode ? 0 : -1);
 
     std::vector<std::ostringstream *> os2;
-    auto saved_minimal_tab_width = _minimal_tab_width;
   restart:
     const auto *trivial = cc;
     do {
@@ -686,6 +687,7 @@ namespace cmdr {
       delete os;
     }
 
+    _minimal_tab_width = tab_width_set; // it is for this screen only
     UNUSED(app_name, exe_name);
   }
 
-- 
2.43.0

