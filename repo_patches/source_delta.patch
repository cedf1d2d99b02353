From 06110ada7c86488ae1aa316ec027db074cd6bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:29 +0000
Subject: [PATCH 001/174] fix: Stay within the frame when looking for a string
 terminator

find_trailing_null() read one byte past the end of the range for
single-byte encodings, and stepped past the end when a two-byte string
had an odd length.
---
 scribbu/framesv2.hh | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a510282..15e41d1 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -88,21 +88,17 @@ namespace scribbu {
                        forward_input_iterator p0,
                        forward_input_iterator p1)
     {
-      // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes.
-      std::size_t saw_nil = 0;
-      for ( ; p0 < p1; p0 += code_unit) {
-        if (1 == code_unit && 0 == *p0) {
-          break;
-        }
-        else {
-          unsigned char b0 = *p0, b1 = *(p0 + 1);
-          if (0 == b0 && 0 == b1) {
-            break;
-          }
+      // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes;
+      // return p1 if there is none.
+      for ( ; std::distance(p0, p1) >= (std::ptrdiff_t)code_unit;
+            p0 += code_unit) {
+        if (std::all_of(p0, p0 + code_unit,
+                        [](unsigned char b) { return 0 == b; })) {
+          return p0;
         }
       }
 
-      return p0;
+      return p1;
     }
 
     /// Return true iff [x, y] contain an MP3 sync word (i.e. the bit
-- 
2.43.0


From c94403ee3f64cd416fe72065ad0c133297c14e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:29 +0000
Subject: [PATCH 002/174] fix: Initialise the method symbol of a truncated ENCR
 frame

---
 scribbu/framesv2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 15e41d1..1ea4a67 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -526,7 +526,7 @@ namespace scribbu {
     /// and/or decryption
     template <typename forward_input_iterator>
     encryption_method(forward_input_iterator p0,
-                      forward_input_iterator p1) {
+                      forward_input_iterator p1): method_symbol_(0) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
       if (p != p1) {
-- 
2.43.0


From 7d3b8933a53bb8e18804292d7e7d79d0916c3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:29 +0000
Subject: [PATCH 003/174] fix: Don't read the encoding byte of an empty
 user-defined text frame

---
 scribbu/framesv2.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 1ea4a67..312663d 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -592,9 +592,12 @@ namespace scribbu {
     user_defined_text(id3v2_version ver,
                       forward_input_iterator p0,
                       forward_input_iterator p1):
-      cbnil_(1)
+      cbnil_(1),
+      unicode_(0)
     {
-      unicode_ = *p0++;
+      if (p0 != p1) {
+        unicode_ = *p0++;
+      }
 
       if (id3v2_version::v2 == ver || id3v2_version::v3 == ver) {
         cbnil_ = unicode_ ? 2: 1;
-- 
2.43.0


From 8a81c71ec6c6a0d6594cc712e53b17f5c66d911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:29 +0000
Subject: [PATCH 004/174] fix: Initialise the members of a truncated comment
 frame

---
 scribbu/framesv2.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 312663d..05fbd94 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -688,7 +688,10 @@ namespace scribbu {
              forward_input_iterator p0,
              forward_input_iterator p1):
       ver_(ver),
-      cbnil_(1)
+      dst_enc_(encoding::ISO_8859_1),
+      cbnil_(1),
+      unicode_(0),
+      lang_{0, 0, 0}
     {
       if (p0 != p1) {
 
-- 
2.43.0


From b713c9df73fdd9fbabe82b2dbf05d03cc4edb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:29 +0000
Subject: [PATCH 005/174] fix: Return the output iterator from
 play_count::counterb

---
 scribbu/framesv2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 05fbd94..24aaf17 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -845,7 +845,7 @@ namespace scribbu {
 
     template <typename forward_output_iterator>
     forward_output_iterator counterb(forward_output_iterator p) const {
-      std::copy(counter_.begin(), counter_.end(), p);
+      return std::copy(counter_.begin(), counter_.end(), p);
     }
 
     std::size_t count() const;
-- 
2.43.0


From 9089d16ba55dd53e1eea2484824086ee962b8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:29 +0000
Subject: [PATCH 006/174] fix: Don't read past the end of a truncated
 popularimeter frame

---
 scribbu/framesv2.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 24aaf17..5962bfd 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -900,13 +900,14 @@ namespace scribbu {
     /// an unsigned char
     template <typename forward_input_iterator>
     popularimeter(forward_input_iterator p0,
-                  forward_input_iterator p1)
+                  forward_input_iterator p1): rating_(0)
     {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      rating_ = *p++;
-      std::copy(p, p1, std::back_inserter(counter_));
+      if (p != p1 && ++p != p1) {
+        rating_ = *p++;
+        std::copy(p, p1, std::back_inserter(counter_));
+      }
     }
     /// Construct "from scratch"
     popularimeter(const std::string &own,
-- 
2.43.0


From 5cb82a42c4468409f81ae482306a47cf9b1c996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:29 +0000
Subject: [PATCH 007/174] fix: Reject truncated tag clouds instead of reading
 past their end

---
 scribbu/framesv2.hh | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 5962bfd..a562ca5 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -63,12 +63,14 @@
 #include <arpa/inet.h>
 
 #include <algorithm>
+#include <cstring>
 #include <errno.h>
 #include <iconv.h>
 #include <initializer_list>
 #include <iostream>
 #include <set>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include <map>
@@ -1001,32 +1003,49 @@ namespace scribbu {
     {
       using namespace std;
 
+      if (p0 == p1) {
+        throw invalid_argument("truncated tag cloud");
+      }
+
       ++p0; // version
 
       forward_input_iterator p = find(p0, p1, 0);
+      if (p == p1) {
+        throw invalid_argument("truncated tag cloud");
+      }
       copy(p0, p, back_inserter(own_));
 
       p0 = ++p;
       while (p0 != p1) {
 
         p = find(p0, p1, 0);
+        if (distance(p, p1) < 5) {
+          throw invalid_argument("truncated tag cloud");
+        }
         string key;
         copy(p0, p, back_inserter(key));
 
         unsigned char buf[4];
         copy(p + 1, p + 5, buf);
-        const uint32_t *pb = (const uint32_t*)(buf);
-        uint32_t cb = ntohl(*pb);
+        uint32_t cb;
+        memcpy(&cb, buf, sizeof(cb));
+        cb = ntohl(cb);
 
         set<string> vals;
         p0 = p + 5;
-        while (cb) {
-          p = find(p0, p1, 0);
+        if (distance(p0, p1) < (ptrdiff_t)cb) {
+          throw invalid_argument("truncated tag cloud");
+        }
+        forward_input_iterator pend = p0 + cb;
+        while (p0 != pend) {
+          p = find(p0, pend, 0);
+          if (p == pend) {
+            throw invalid_argument("truncated tag cloud");
+          }
           string val;
           copy(p0, p, back_inserter(val));
           p0 = ++p;
           vals.insert(val);
-          cb -= val.length() + 1;
         }
 
         tags_[key] = vals;
-- 
2.43.0


From 04d68317c351332c9b68f4188372036ad61ebc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:42 +0000
Subject: [PATCH 008/174] fix: Don't read the encoding byte of an empty text
 frame

---
 scribbu/framesv22.hh | 3 ++-
 scribbu/framesv23.hh | 3 ++-
 scribbu/framesv24.hh | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index b7f3ada..4aa94e9 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -338,7 +338,8 @@ namespace scribbu {
                        forward_input_iterator p1):
       id3v2_2_frame(id)
     {
-      unicode_ = *p0++;
+      // An empty frame carries neither encoding byte nor text
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 488aadb..cce28a2 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -688,7 +688,8 @@ namespace scribbu {
                        const opt_sz_type       &decsz):
       id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz)
     {
-      unicode_ = *p0++;
+      // An empty frame carries neither encoding byte nor text
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 990f766..ca4b464 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -436,7 +436,8 @@ namespace scribbu {
                        const boost::optional<std::size_t>   &dli):
       id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli)
     {
-      unicode_ = *p0++;
+      // An empty frame carries neither encoding byte nor text
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
     // char[4]
-- 
2.43.0


From e92a09ded1a3d7189dbcfcd2ea870c3d17cf32ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:42 +0000
Subject: [PATCH 009/174] fix: Don't read past the end of a private frame with
 no terminator

---
 scribbu/framesv23.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index cce28a2..036d7b3 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -333,7 +333,9 @@ namespace scribbu {
     private_frame(forward_input_iterator p0, forward_input_iterator p1) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
+      if (p != p1) {
+        ++p;
+      }
       std::copy(p, p1, std::back_inserter(contents_));
     }
     /// Construct "from scratch"
@@ -357,7 +359,8 @@ namespace scribbu {
       boost::optional<size_t> count = boost::none) const
     {
       if (count) {
-        return std::copy_n(contents_.begin(), *count, pout);
+        return std::copy_n(contents_.begin(),
+                           std::min(*count, contents_.size()), pout);
       } else {
         return std::copy(contents_.begin(), contents_.end(), pout);
       }
-- 
2.43.0


From cebe45b7688804e16bf8c4b32d61c16de7fffc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:42 +0000
Subject: [PATCH 010/174] fix: Don't take the address of the first element of
 empty fields

---
 scribbu/framesv22.hh | 14 +++++++-------
 scribbu/framesv23.hh | 18 +++++++++---------
 scribbu/framesv24.hh | 18 +++++++++---------
 scribbu/id3v1.cc     | 16 ++++++++--------
 4 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index 4aa94e9..9645175 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -274,7 +274,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       unique_file_id::ownerb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src.get(), dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src.get(), dst, rsp);
     }
 
     /// Return the size, in bytes, of the frame, prior to desynchronisation,
@@ -440,7 +440,7 @@ namespace scribbu {
            const boost::optional<encoding> &src = boost::none) const
     {
       return text_.empty() ? string_type() :
-        id3v2_2_frame::as_str<string_type>(&(text_[0]), text_.size(),
+        id3v2_2_frame::as_str<string_type>(text_.data(), text_.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -535,7 +535,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       user_defined_text::descriptionb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_2_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_2_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -549,7 +549,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       user_defined_text::textb(back_inserter(buf));
       return buf.empty() ? string_type () :
-        id3v2_2_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_2_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -602,7 +602,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       comments::descriptionb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_2_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_2_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -616,7 +616,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       comments::textb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_2_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_2_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -701,7 +701,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       popularimeter::emailb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
     /// Return the size, in bytes, of the frame, prior to desynchronisation,
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 036d7b3..7b26aa4 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -567,7 +567,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       unique_file_id::ownerb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
@@ -623,7 +623,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       encryption_method::emailb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
@@ -820,7 +820,7 @@ namespace scribbu {
            const boost::optional<encoding> &src = boost::none) const
     {
       return text_.empty() ? string_type():
-        id3v2_3_frame::as_str<string_type>(&(text_[0]), text_.size(),
+        id3v2_3_frame::as_str<string_type>(text_.data(), text_.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -937,7 +937,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       user_defined_text::descriptionb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_3_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_3_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -951,7 +951,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       user_defined_text::textb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_3_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_3_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -1019,7 +1019,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       comments::descriptionb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_3_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_3_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -1033,7 +1033,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       comments::textb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_3_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_3_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -1165,7 +1165,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       popularimeter::emailb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
@@ -1326,7 +1326,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       private_frame::emailb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index ca4b464..a64e8ca 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -287,7 +287,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       unique_file_id::ownerb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
@@ -350,7 +350,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       encryption_method::emailb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
@@ -580,7 +580,7 @@ namespace scribbu {
            const boost::optional<encoding> &src = boost::none) const
     {
       return text_.empty() ? string_type() :
-        id3v2_4_frame::as_str<string_type>(&(text_[0]), text_.size(),
+        id3v2_4_frame::as_str<string_type>(text_.data(), text_.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -662,7 +662,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       user_defined_text::descriptionb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_4_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_4_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -676,7 +676,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       user_defined_text::textb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_4_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_4_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -756,7 +756,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       comments::descriptionb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_4_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_4_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -770,7 +770,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       comments::textb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        id3v2_4_frame::as_str<string_type>(&(buf[0]), buf.size(),
+        id3v2_4_frame::as_str<string_type>(buf.data(), buf.size(),
                                            unicode(), dst, rsp, src);
     }
 
@@ -912,7 +912,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       popularimeter::emailb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
@@ -1077,7 +1077,7 @@ namespace scribbu {
       vector<unsigned char> buf;
       private_frame::emailb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
+        convert_encoding<string>(buf.data(), buf.size(), src, dst, rsp);
     }
 
   protected:
diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 8fdc127..7bc8875 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -171,7 +171,7 @@ namespace scribbu {
       throw bad_code_unit(dst, sizeof(char));
     }
 
-    return convert_encoding<string>(&(album_[0]),
+    return convert_encoding<string>(album_.data(),
                                     album_.size(),
                                     src ? src.get() :
                                         encoding_from_system_locale(),
@@ -190,7 +190,7 @@ namespace scribbu {
     if (!scribbu::char_traits<char>::is_code_unit(dst)) {
       throw bad_code_unit(dst, sizeof(char));
     }
-    return convert_encoding<string>(&(artist_[0]), artist_.size(),
+    return convert_encoding<string>(artist_.data(), artist_.size(),
                                     src ? src.get() :
                                     encoding_from_system_locale(),
                                     dst, rsp);
@@ -207,7 +207,7 @@ namespace scribbu {
     if (!scribbu::char_traits<char>::is_code_unit(dst)) {
       throw bad_code_unit(dst, sizeof(char));
     }
-    return convert_encoding<string>(&(comment_[0]), comment_.size(),
+    return convert_encoding<string>(comment_.data(), comment_.size(),
                                     src ? src.get() :
                                     encoding_from_system_locale(),
                                     dst, rsp);
@@ -225,7 +225,7 @@ namespace scribbu {
       throw bad_code_unit(dst, sizeof(char));
     }
     return ext_genre_.empty() ? string() :
-      convert_encoding<string>(&(ext_genre_[0]), ext_genre_.size(),
+      convert_encoding<string>(ext_genre_.data(), ext_genre_.size(),
                                src ? src.get() :
                                encoding_from_system_locale(),
                                dst, rsp);
@@ -242,7 +242,7 @@ namespace scribbu {
     if (!scribbu::char_traits<char>::is_code_unit(dst)) {
       throw bad_code_unit(dst, sizeof(char));
     }
-    return convert_encoding<string>(&(start_time_[0]), start_time_.size(),
+    return convert_encoding<string>(start_time_.data(), start_time_.size(),
                                     src ? src.get() :
                                     encoding_from_system_locale(),
                                     dst, rsp);
@@ -259,7 +259,7 @@ namespace scribbu {
     if (!scribbu::char_traits<char>::is_code_unit(dst)) {
       throw bad_code_unit(dst, sizeof(char));
     }
-    return convert_encoding<string>(&(end_time_[0]), end_time_.size(),
+    return convert_encoding<string>(end_time_.data(), end_time_.size(),
                                     src ? src.get() :
                                     encoding_from_system_locale(),
                                     dst, rsp);
@@ -276,7 +276,7 @@ namespace scribbu {
     if (!scribbu::char_traits<char>::is_code_unit(dst)) {
       throw bad_code_unit(dst, sizeof(char));
     }
-    return convert_encoding<string>(&(title_[0]), title_.size(),
+    return convert_encoding<string>(title_.data(), title_.size(),
                                     src ? src.get() :
                                     encoding_from_system_locale(),
                                     dst, rsp);
@@ -293,7 +293,7 @@ namespace scribbu {
     if (!scribbu::char_traits<char>::is_code_unit(dst)) {
       throw bad_code_unit(dst, sizeof(char));
     }
-    return convert_encoding<string>(&(year_[0]), year_.size(),
+    return convert_encoding<string>(year_.data(), year_.size(),
                                     src ? src.get() :
                                     encoding_from_system_locale(),
                                     dst, rsp);
-- 
2.43.0


From a7a68ce3dc16a03afa2f5f149df267944ff833c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:42 +0000
Subject: [PATCH 011/174] fix: Don't look for a sync across the terminator of a
 comment's description

---
 scribbu/framesv2.cc | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 76af9e8..a180127 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1043,15 +1043,6 @@ scribbu::comments::count_syncs(bool false_only) const
 
   cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
 
-  if (false_only && description_.size() &&
-      is_false_sync(description_.back(), text_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(description_.back(), text_.front())) {
-    ++cb;
-  }
-
   cb += detail::count_syncs(text_.begin(), text_.end(), false_only);
 
   return cb;
-- 
2.43.0


From 1caa4b46b0be93227bd782711f315fcd3ed6da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:58 +0000
Subject: [PATCH 012/174] fix: Reject ID3v2 frames that extend past the end of
 their tag

---
 scribbu/id3v22.cc | 13 ++++++++-----
 scribbu/id3v23.cc | 22 ++++++++++++++++------
 scribbu/id3v24.cc | 32 +++++++++++++++++++++-----------
 3 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 074e9b1..d8fbf5f 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -899,7 +899,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         break;
       }
 
-      // left > 2
+      if (left < 3) {
+        throw invalid_tag();
+      }
+
       frame_id3 id(p0[0], p0[1], p0[2]);
       if (PADDING == id) {
         padding_ = left;
@@ -921,10 +924,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
 
       //     cb_tag = cb_frame + 6
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // More generally, the frame has to fit in what's left of the tag. If it
+      // doesn't, it's a good bet that this tag is either corrupt or was
+      // written incorrectly.
+      if (cb_frame > left - 6) {
         throw invalid_tag();
       }
 
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cd279e4..9304a3f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1269,7 +1269,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
-        // left > 3
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
         if (PADDING == id) {
           padding_ = left;
@@ -1282,6 +1285,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
 
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
+
         if (ENCR != id) {
           continue;
         }
@@ -1379,7 +1386,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
-      // left > 3
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
         break;
@@ -1399,10 +1409,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // More generally, the frame has to fit in what's left of the tag. If it
+      // doesn't, it's a good bet that this tag is either corrupt or was
+      // written incorrectly.
+      if (cb_frame > left - 10) {
         throw invalid_tag();
       }
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9825ad4..fff420a 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1312,7 +1312,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
-        // left > 3
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
 
         if (PADDING == id) {
@@ -1320,18 +1323,22 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (pcurr + 11 > p1) {
+          throw invalid_tag();
+        }
+
         cb_frame = unsigned_from_sync_safe(pcurr[4], pcurr[5], pcurr[6],
                                            pcurr[7]);
 
-        if (ENCR != id) {
-          continue;
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
         }
 
-        if (pcurr + 11 > p1) {
-          throw invalid_tag();
+        if (ENCR != id) {
+          continue;
         }
 
-        unsigned char f0 = p0[8];
+        unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
           id3v2_4_frame::tag_alter_preservation::discard :
@@ -1410,7 +1417,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
-      // left > 3
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
         break;
@@ -1430,10 +1440,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // More generally, the frame has to fit in what's left of the tag. If it
+      // doesn't, it's a good bet that this tag is either corrupt or was
+      // written incorrectly.
+      if (cb_frame > left - 10) {
         throw invalid_tag();
       }
 
-- 
2.43.0


From 8886b37c4437994baf6155bbbdb32e2bd8b33937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:58 +0000
Subject: [PATCH 013/174] fix: Don't read past the end of a frame for its
 optional header fields

---
 scribbu/id3v23.cc | 18 ++++++++++++++++++
 scribbu/id3v24.cc | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 9304a3f..1fe7c2f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1315,17 +1315,26 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         std::size_t cb_read = cb_frame;
         boost::optional<std::size_t> decompressed_size = boost::none;
         if (0 != (f1 & 0x80)) {
+          if (cb_read < 4) {
+            throw invalid_tag();
+          }
           decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
           pread += 4;
           cb_read -= 4;
         }
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x40)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           encryption_method = *pread++;
           cb_read -= 1;
         }
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x20)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           group_id = *pread++;
           cb_read -= 1;
         }
@@ -1438,17 +1447,26 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       std::size_t cb_read = cb_frame;
       boost::optional<std::size_t> decompressed_size = boost::none;
       if (0 != (f1 & 0x80)) {
+        if (cb_read < 4) {
+          throw invalid_tag();
+        }
         decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
         pread += 4;
         cb_read -= 4;
       }
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x40)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         encryption_method = *pread++;
         cb_read -= 1;
       }
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x20)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         group_id = *pread++;
         cb_read -= 1;
       }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index fff420a..461a83e 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1360,18 +1360,27 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         std::size_t cb_read = cb_frame;
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x40)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           group_id = *pread++;
           cb_read -= 1;
         }
         bool compressed = f1 & 0x80;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           encryption_method = *pread++;
           cb_read -= 1;
         }
         bool unsynchronisation = f1 & 0x02;
         boost::optional<std::size_t> data_len_ind;
         if (f1 & 0x01) {
+          if (cb_read < 4) {
+            throw invalid_tag();
+          }
           data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
           pread += 4;
           cb_read -= 4;
@@ -1469,18 +1478,27 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       std::size_t cb_read = cb_frame;
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x40)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         group_id = *pread++;
         cb_read -= 1;
       }
       bool compressed = f1 & 0x80;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         encryption_method = *pread++;
         cb_read -= 1;
       }
       bool unsynchronisation = f1 & 0x02;
       boost::optional<std::size_t> data_len_ind;
       if (f1 & 0x01) {
+        if (cb_read < 4) {
+          throw invalid_tag();
+        }
         data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
         pread += 4;
         cb_read -= 4;
-- 
2.43.0


From ba63916f7773c3539a9e85fc863f9d8c49a2dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:20 +0000
Subject: [PATCH 014/174] fix: Don't loop forever, or throw, on encrypted ENCR
 frames

---
 scribbu/id3v23.cc | 14 ++++++++++----
 scribbu/id3v24.cc | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 1fe7c2f..d856ca3 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <set>
 
 #include <arpa/inet.h>
 #include <zlib.h>
@@ -1236,9 +1237,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    bool found_encrypted, progress;
+    std::set<const unsigned char*> done;
     do {
 
+      found_encrypted = progress = false;
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1289,7 +1293,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        if (ENCR != id) {
+        if (ENCR != id || done.count(pcurr)) {
           continue;
         }
 
@@ -1301,7 +1305,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         id3v2_3_frame::file_alter_preservation fap = (0 != (f0 & 0x40)) ?
           id3v2_3_frame::file_alter_preservation::discard :
           id3v2_3_frame::file_alter_preservation::preserve;
-        id3v2_3_frame::read_only ro = (0 != (f0 & 0x40)) ?
+        id3v2_3_frame::read_only ro = (0 != (f0 & 0x20)) ?
           id3v2_3_frame::read_only::set :
           id3v2_3_frame::read_only::clear;
 
@@ -1362,10 +1366,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
                            decompressed_size);
 
         register_encryption_method(encr);
+        done.insert(pcurr);
+        progress = true;
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (found_encrypted && progress); // End while on encrypted ENCR frames.
 
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 461a83e..b7a0f69 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <set>
 
 #include <zlib.h>
 
@@ -1297,9 +1298,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    bool found_encrypted, progress;
+    std::set<const unsigned char*> done;
     do {
 
+      found_encrypted = progress = false;
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1334,7 +1338,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        if (ENCR != id) {
+        if (ENCR != id || done.count(pcurr)) {
           continue;
         }
 
@@ -1409,10 +1413,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
                                unsynchronisation, data_len_ind);
 
         register_encryption_method(encr);
+        done.insert(pcurr);
+        progress = true;
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (found_encrypted && progress); // End while on encrypted ENCR frames.
 
     // Now that we've got all our encryption methods registered, walk the
     // frames one final time.
-- 
2.43.0


From 530f77250105338c44cd4d470bcdcd11e75f019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:20 +0000
Subject: [PATCH 015/174] fix: Don't trust the declared decompressed size of a
 frame

---
 scribbu/id3v23.cc | 6 ++++++
 scribbu/id3v24.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index d856ca3..b75521c 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1169,6 +1169,12 @@ scribbu::id3v2_3_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // Deflate can't do better than 1032:1, so don't take the frame's word for it
+  // when asked to allocate more than that.
+  if (uncompressed_size / 1032 > cb) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
+
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index b7a0f69..cfd631c 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1234,6 +1234,12 @@ scribbu::id3v2_4_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // Deflate can't do better than 1032:1, so don't take the frame's word for it
+  // when asked to allocate more than that.
+  if (uncompressed_size / 1032 > cb) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
+
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
-- 
2.43.0


From 9997900d52e4626343e3c6b4954d3aecd3fe26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:20 +0000
Subject: [PATCH 016/174] fix: Check extended headers against the bounds of
 their tag

---
 scribbu/id3v23.cc |  6 +++++-
 scribbu/id3v24.cc |  7 +++++++
 scribbu/id3v24.hh | 12 ++++++------
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index b75521c..cda729f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -190,11 +190,15 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   using scribbu::detail::uint32_from_non_sync_safe;
   using scribbu::detail::unsigned_from_non_sync_safe;
 
+  if (p1 - p0 < 10) {
+    throw invalid_ext_header();
+  }
+
   std::size_t cb = unsigned_from_non_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   bool fcrc = p0[4] & 0x80;
 
-  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) ) {
+  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) || p1 - p0 < cb + 4 ) {
     throw invalid_ext_header();
   }
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index cfd631c..4f61b09 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -196,6 +196,13 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
 
   size_ = unsigned_from_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
+  if (size_ < 6 || size_ > p1 - p0) {
+    throw invalid_ext_header();
+  }
+
+  // Take no more than that for the extended header
+  p1 = p0 + size_;
+
   std::size_t num_flag_bytes = p0[4];
 
   if (!num_flag_bytes) {
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index eab8b6b..77d5dce 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -212,13 +212,13 @@ namespace scribbu {
       bool is_update_;
       bool fcrc_;
       mutable bool crc_dirty_;
-      mutable std::uint32_t crc_;
+      mutable std::uint32_t crc_ = 0;
       bool restricted_;
-      tag_size tag_size_restriction_;
-      bool text_enc_restriction_;
-      text_size text_size_restriction_;
-      bool image_enc_restriction_;
-      image_size image_sz_restriction_;
+      tag_size tag_size_restriction_ = tag_size::restricted;
+      bool text_enc_restriction_ = false;
+      text_size text_size_restriction_ = text_size::unrestricted;
+      bool image_enc_restriction_ = false;
+      image_size image_sz_restriction_ = image_size::unrestricted;
 
     };
 
-- 
2.43.0


From ddb99f8da533b26b4005813dd79b04f84689ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:20 +0000
Subject: [PATCH 017/174] fix: Restore the stream's position and exception mask
 when a tag can't be read

---
 scribbu/id3v22.cc | 2 ++
 scribbu/id3v23.cc | 2 ++
 scribbu/id3v24.cc | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index d8fbf5f..df84f7d 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -938,10 +938,12 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cda729f..5d5d12b 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1509,10 +1509,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 4f61b09..4c68ca4 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1549,10 +1549,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     } // End iteration over all frames.
 
   } catch (const scribbu::error &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
-- 
2.43.0


From 05f227597a7e73e6509931e7332f2605aa7e32ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:27 +0000
Subject: [PATCH 018/174] fix: Keep a tag's frame lookups in step with its
 frames

---
 scribbu/id3v22.cc | 207 ++++++++++++----------------------------------
 scribbu/id3v22.hh |   9 +-
 scribbu/id3v23.cc | 204 ++++++++++++---------------------------------
 scribbu/id3v23.hh |   9 +-
 scribbu/id3v24.cc | 204 ++++++++++++---------------------------------
 scribbu/id3v24.hh |   9 +-
 6 files changed, 183 insertions(+), 459 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index df84f7d..892d1d5 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -379,8 +379,8 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -392,35 +392,10 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id3 COMID("COM"), CNTID("CNT"), POPID("POP");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_2_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id3 id = (**pnew).id();
-  if (id == CNTID) {
-    CNT &frame = dynamic_cast<CNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COM &frame = dynamic_cast<COM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POP &frame = dynamic_cast<POP&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_2_text_frame &frame = dynamic_cast<id3v2_2_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_2_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -431,9 +406,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 {
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -441,20 +415,12 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<id3v2_2_text_frame> pnew(new id3v2_2_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_2_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -462,20 +428,12 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &f
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<CNT> pnew(new CNT(frame));
-  // and saving a reference to that copy.
-  CNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -483,20 +441,12 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<COM> pnew(new COM(frame));
-  // and saving a reference to that copy.
-  COM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -504,20 +454,12 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<POP> pnew(new POP(frame));
-  // and saving a reference to that copy.
-  POP &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -528,24 +470,17 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_2_text_frame> pnew = std::make_unique<id3v2_2_text_frame>(frame);
-  id3v2_2_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -553,16 +488,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<CNT> pnew = std::make_unique<CNT>(frame);
-  CNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -570,16 +499,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COM> pnew = std::make_unique<COM>(frame);
-  COM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -587,16 +510,10 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POP> pnew = std::make_unique<POP>(frame);
-  POP &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -608,7 +525,7 @@ scribbu::id3v2_2_tag::push_back(const id3v2_2_frame &frame)
 
   frames_.emplace_back(std::move(pnew));
   std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frame(*frames_[d], d);
 }
 
 void
@@ -655,20 +572,18 @@ scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -684,48 +599,36 @@ scribbu::id3v2_2_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t idx)
+scribbu::id3v2_2_tag::rebuild_lookups()
+{
+  coms_.clear();
+  cnts_.clear();
+  pops_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0, n = frames_.size(); i < n; ++i) {
+    index_frame(*frames_[i], i);
+  }
+}
+
+void
+scribbu::id3v2_2_tag::index_frame(id3v2_2_frame &frame, std::size_t idx)
 {
-  static const frame_id3 COM("COM"), CNT("CNT"), POP("POP");
-
-  if (COM == id) {
-    com_frame_lookup_type::iterator p =
-      std::find_if(coms_.begin(), coms_.end(),
-                   [idx](const com_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    coms_.erase(p);
+  if (CNT *pcnt = dynamic_cast<CNT*>(&frame)) {
+    add_frame_to_lookups(*pcnt, idx);
   }
-  else if (CNT == id) {
-    cnt_frame_lookup_type::iterator p =
-      std::find_if(cnts_.begin(), cnts_.end(),
-                   [idx](const cnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    cnts_.erase(p);
+  else if (COM *pcom = dynamic_cast<COM*>(&frame)) {
+    add_frame_to_lookups(*pcom, idx);
   }
-  else if (POP == id) {
-    pop_frame_lookup_type::iterator p =
-      std::find_if(pops_.begin(), pops_.end(),
-                   [idx](const pop_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pops_.erase(p);
+  else if (POP *ppop = dynamic_cast<POP*>(&frame)) {
+    add_frame_to_lookups(*ppop, idx);
   }
-  else if (id.text_frame()) {
-    const id3v2_2_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    if (text_map_.end() == p) {
-      throw std::logic_error("Oops");
-    }
-    text_map_.erase(p);
+  else if (id3v2_2_text_frame *ptext = dynamic_cast<id3v2_2_text_frame*>(&frame)) {
+    add_frame_to_lookups(*ptext, idx);
+  }
+  else {
+    add_frame_to_lookups((const id3v2_2_frame&)frame, idx);
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 1f6708b..8d08687 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -528,9 +528,12 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
+    /// Re-build our ancillary datastructures from the frame vector; to be
+    /// called whenever frames move
+    void rebuild_lookups();
+    /// Add an arbitrary frame to our ancillary datastructures, according to its
+    /// actual type
+    void index_frame(id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(CNT &frame, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 5d5d12b..6bbfe3f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -763,8 +763,8 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -776,35 +776,10 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_3_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT &frame = dynamic_cast<PCNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM &frame = dynamic_cast<COMM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM &frame = dynamic_cast<POPM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_3_text_frame &frame = dynamic_cast<id3v2_3_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_3_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -815,9 +790,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 {
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -825,20 +799,12 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<id3v2_3_text_frame> pnew(new id3v2_3_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_3_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -846,20 +812,12 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &f
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<PCNT> pnew(new PCNT(frame));
-  // and saving a reference to that copy.
-  PCNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -867,20 +825,12 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<COMM> pnew(new COMM(frame));
-  // and saving a reference to that copy.
-  COMM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -888,20 +838,12 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<POPM> pnew(new POPM(frame));
-  // and saving a reference to that copy.
-  POPM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -912,8 +854,7 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -921,16 +862,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_3_text_frame> pnew = std::make_unique<id3v2_3_text_frame>(frame);
-  id3v2_3_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -938,16 +873,10 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT> pnew = std::make_unique<PCNT>(frame);
-  PCNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -955,32 +884,20 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM> pnew = std::make_unique<COMM>(frame);
-  COMM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM> pnew = std::make_unique<POPM>(frame);
-  POPM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
@@ -991,7 +908,7 @@ scribbu::id3v2_3_tag::push_back(const id3v2_3_frame &frame)
 
   frames_.emplace_back(std::move(pnew));
   std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frame(*frames_[d], d);
 }
 
 void
@@ -1038,20 +955,18 @@ scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1067,45 +982,36 @@ scribbu::id3v2_3_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_3_tag::rebuild_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0, n = frames_.size(); i < n; ++i) {
+    index_frame(*frames_[i], i);
   }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
+}
+
+void
+scribbu::id3v2_3_tag::index_frame(id3v2_3_frame &frame, std::size_t idx)
+{
+  if (PCNT *pcnt = dynamic_cast<PCNT*>(&frame)) {
+    add_frame_to_lookups(*pcnt, idx);
   }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
+  else if (COMM *pcom = dynamic_cast<COMM*>(&frame)) {
+    add_frame_to_lookups(*pcom, idx);
   }
-  else if (id.text_frame()) {
-    const id3v2_3_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  else if (POPM *ppop = dynamic_cast<POPM*>(&frame)) {
+    add_frame_to_lookups(*ppop, idx);
+  }
+  else if (id3v2_3_text_frame *ptext = dynamic_cast<id3v2_3_text_frame*>(&frame)) {
+    add_frame_to_lookups(*ptext, idx);
+  }
+  else {
+    add_frame_to_lookups((const id3v2_3_frame&)frame, idx);
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 0179b41..44d70c4 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -590,9 +590,12 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Re-build our ancillary datastructures from the frame vector; to be
+    /// called whenever frames move
+    void rebuild_lookups();
+    /// Add an arbitrary frame to our ancillary datastructures, according to its
+    /// actual type
+    void index_frame(id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT &frame, std::size_t idx);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 4c68ca4..c67af26 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -840,8 +840,8 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -852,35 +852,10 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_4_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT_2_4 &frame = dynamic_cast<PCNT_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM_2_4 &frame = dynamic_cast<COMM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM_2_4 &frame = dynamic_cast<POPM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_4_text_frame &frame = dynamic_cast<id3v2_4_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_4_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -891,9 +866,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 {
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -901,20 +875,12 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<id3v2_4_text_frame> pnew(new id3v2_4_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_4_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -922,20 +888,12 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &f
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<PCNT_2_4> pnew(new PCNT_2_4(frame));
-  // and saving a reference to that copy.
-  PCNT_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -943,20 +901,12 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<COMM_2_4> pnew(new COMM_2_4(frame));
-  // and saving a reference to that copy.
-  COMM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -964,20 +914,12 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
+  // Take a deep copy of `frame'...
   std::unique_ptr<POPM_2_4> pnew(new POPM_2_4(frame));
-  // and saving a reference to that copy.
-  POPM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and bring our tag's lookup tables up-to-date.
+  p_->rebuild_lookups();
 
   return *this;
 }
@@ -988,24 +930,17 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<id3v2_4_text_frame> pnew = std::make_unique<id3v2_4_text_frame>(frame);
-  id3v2_4_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1013,16 +948,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<PCNT_2_4> pnew = std::make_unique<PCNT_2_4>(frame);
-  PCNT_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1030,16 +959,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<COMM_2_4> pnew = std::make_unique<COMM_2_4>(frame);
-  COMM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1047,16 +970,10 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
   std::unique_ptr<POPM_2_4> pnew = std::make_unique<POPM_2_4>(frame);
-  POPM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1068,7 +985,7 @@ scribbu::id3v2_4_tag::push_back(const id3v2_4_frame &frame)
 
   frames_.emplace_back(std::move(pnew));
   std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frame(*frames_[d], d);
 }
 
 void
@@ -1115,20 +1032,18 @@ scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1156,45 +1071,36 @@ scribbu::id3v2_4_tag::write_footer(std::ostream &os,
 }
 
 void
-scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_4_tag::rebuild_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0, n = frames_.size(); i < n; ++i) {
+    index_frame(*frames_[i], i);
   }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
+}
+
+void
+scribbu::id3v2_4_tag::index_frame(id3v2_4_frame &frame, std::size_t idx)
+{
+  if (PCNT_2_4 *pcnt = dynamic_cast<PCNT_2_4*>(&frame)) {
+    add_frame_to_lookups(*pcnt, idx);
   }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
+  else if (COMM_2_4 *pcom = dynamic_cast<COMM_2_4*>(&frame)) {
+    add_frame_to_lookups(*pcom, idx);
   }
-  else if (id.text_frame()) {
-    const id3v2_4_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  else if (POPM_2_4 *ppop = dynamic_cast<POPM_2_4*>(&frame)) {
+    add_frame_to_lookups(*ppop, idx);
+  }
+  else if (id3v2_4_text_frame *ptext = dynamic_cast<id3v2_4_text_frame*>(&frame)) {
+    add_frame_to_lookups(*ptext, idx);
+  }
+  else {
+    add_frame_to_lookups((const id3v2_4_frame&)frame, idx);
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 77d5dce..6a94c7b 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -625,9 +625,12 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Re-build our ancillary datastructures from the frame vector; to be
+    /// called whenever frames move
+    void rebuild_lookups();
+    /// Add an arbitrary frame to our ancillary datastructures, according to its
+    /// actual type
+    void index_frame(id3v2_4_frame &frame, std::size_t idx);
     void add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx);
-- 
2.43.0


From 88f49a4f94acb1206c3c8a155a37e1ea1cb098fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:06 +0000
Subject: [PATCH 019/174] fix: Copy all of a tag when copying or assigning it

---
 scribbu/id3v22.cc |  6 +++---
 scribbu/id3v23.cc | 21 ++++++++-------------
 scribbu/id3v24.cc | 23 +++++++++--------------
 3 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 892d1d5..8bfd377 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -207,14 +207,14 @@ scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
+    index_frame(*frames_.back(), frames_.size() - 1);
   }
 }
 
 scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     text_parsers_ = that.text_parsers_;
     generic_parsers_ = that.generic_parsers_;
     compression_ = that.compression_;
@@ -228,7 +228,7 @@ scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
     text_map_.clear();
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
+      index_frame(*frames_.back(), frames_.size() - 1);
     }
   }
   return *this;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 6bbfe3f..f51451b 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -351,48 +351,43 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  padding_(that.padding_)
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   if (that.pext_header_) {
     pext_header_.reset(new ext_header(*that.pext_header_));
   }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-    }
+    index_frame(*frames_.back(), frames_.size() - 1);
   }
 }
 
 scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
     comms_.clear();
     pcnts_.clear();
     popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
     frame_map_.clear();
     text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-      }
+      index_frame(*frames_.back(), frames_.size() - 1);
     }
   }
   return *this;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index c67af26..8812bec 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -504,48 +504,43 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   footer_(that.footer_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  pext_header_(new ext_header(*that.pext_header_)),
-  padding_(that.padding_)
+  pext_header_(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr),
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-    }
+    index_frame(*frames_.back(), frames_.size() - 1);
   }
 }
 
 scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     footer_ = that.footer_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
     comms_.clear();
     pcnts_.clear();
     popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
     frame_map_.clear();
     text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-      }
+      index_frame(*frames_.back(), frames_.size() - 1);
     }
   }
 
-- 
2.43.0


From 624cb1186e2a60ec42a660a5f9dba9b1c7518b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:05 +0000
Subject: [PATCH 020/174] fix: Decompress just those ID3v2.4 frames that are
 marked as compressed

---
 scribbu/id3v24.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 8812bec..0f27b07 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1284,7 +1284,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           group_id = *pread++;
           cb_read -= 1;
         }
-        bool compressed = f1 & 0x80;
+        bool compressed = f1 & 0x08;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
           if (cb_read < 1) {
@@ -1318,6 +1318,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         if (compressed) {
+          if (boost::none == data_len_ind) {
+            throw invalid_tag();
+          }
           std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
           pread = pf.get();
         }
@@ -1404,7 +1407,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         group_id = *pread++;
         cb_read -= 1;
       }
-      bool compressed = f1 & 0x80;
+      bool compressed = f1 & 0x08;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
         if (cb_read < 1) {
@@ -1436,7 +1439,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         pread = pf.get();
       }
 
-      if (boost::none != data_len_ind) {
+      if (compressed) {
+        if (boost::none == data_len_ind) {
+          throw invalid_tag();
+        }
         std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
         pread = pf.get();
       }
-- 
2.43.0


From b06eaceeafe3a38a481729c3bcad5fe446b63a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:05 +0000
Subject: [PATCH 021/174] fix: Resynchronise unsynchronised ID3v2.4 frames when
 reading them

---
 scribbu/id3v24.cc | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 0f27b07..1834102 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1196,6 +1196,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
     // In ID3v2.4, the header, extended header, and footer are all
     // sync-safe. Therefore, unsynchronisation is applied on a per-frame basis.
+    boost::optional<bool> unsync = unsynchronised();
 
     const unsigned char *p0 = pb.get();
     const unsigned char *p1 = p0 + cb_tag;
@@ -1304,10 +1305,19 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           cb_read -= 4;
         }
 
-        // If we decrypt and/or decompress, we need to make a copy-- keep the
-        // copy here...
+        // If we resynchronise, decrypt and/or decompress, we need to make a
+        // copy-- keep the copy here...
         boost::shared_array<unsigned char> pf;
 
+        // In ID3v2.4, unsynchronisation may be applied frame-by-frame, or to all
+        // frames at once.
+        if (unsynchronisation || (unsync && *unsync)) {
+          pf.reset(new unsigned char[cb_read]);
+          std::copy(pread, pread + cb_read, pf.get());
+          cb_read = resynchronise(pf.get(), cb_read);
+          pread = pf.get();
+        }
+
         if (boost::none != encryption_method) {
           if (! encryption_method_regd(encryption_method.get())) {
             found_encrypted = true;
@@ -1427,10 +1437,19 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         cb_read -= 4;
       }
 
-      // If we decrypt and/or decompress, we need to make a copy-- keep the
-      // copy here...
+      // If we resynchronise, decrypt and/or decompress, we need to make a
+      // copy-- keep the copy here...
       boost::shared_array<unsigned char> pf;
 
+      // In ID3v2.4, unsynchronisation may be applied frame-by-frame, or to all
+      // frames at once.
+      if (unsynchronisation || (unsync && *unsync)) {
+        pf.reset(new unsigned char[cb_read]);
+        std::copy(pread, pread + cb_read, pf.get());
+        cb_read = resynchronise(pf.get(), cb_read);
+        pread = pf.get();
+      }
+
       if (boost::none != encryption_method) {
         if (! encryption_method_regd(encryption_method.get())) {
           throw std::invalid_argument("unregistered encryption method");
-- 
2.43.0


From 075544d62a246f9c039420b6153ff45b60b17612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:05 +0000
Subject: [PATCH 022/174] fix: Consume the footer of an ID3v2.4 tag along with
 the tag

---
 scribbu/id3v24.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 1834102..9ac6fdb 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1194,6 +1194,13 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     std::unique_ptr<unsigned char[]> pb(new unsigned char[cb_tag]);
     is.read((char*)pb.get(), cb_tag);
 
+    // The footer, when present, isn't included in the tag size; it just
+    // repeats the header, so step over it.
+    if (footer_) {
+      char footer[10];
+      is.read(footer, sizeof(footer));
+    }
+
     // In ID3v2.4, the header, extended header, and footer are all
     // sync-safe. Therefore, unsynchronisation is applied on a per-frame basis.
     boost::optional<bool> unsync = unsynchronised();
-- 
2.43.0


From 2e5abdaf02287f2ec9094e14cd62d6aec9a5f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:05 +0000
Subject: [PATCH 023/174] fix: Reject anything that isn't an ID3v2 tag when
 constructing one from a stream

---
 scribbu/id3v2.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index d9a07b3..d4ac732 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -427,9 +427,9 @@ scribbu::id3v2_tag::id3v2_tag(std::istream &is)
   try {
     is.read((char*)buf, HALF_ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
-    is.exceptions(exc_mask);
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     throw;
   }
 
@@ -444,6 +444,8 @@ scribbu::id3v2_tag::id3v2_tag(std::istream &is)
 
   if (!present) {
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw no_tag();
   } // End if on "ID3" magic number.
 
   // Restore the exception mask
@@ -483,25 +485,22 @@ scribbu::id3v2_tag::parse_flags_and_size(std::istream &is)
   try {
     is.read((char*)buf, HALF_ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
-    is.exceptions(exc_mask);
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     throw;
   }
 
   unsigned char flags = buf[0];
 
-  std::size_t cb = 0;
-  if (0x80 > buf[1] && 0x80 > buf[2] &&
-      0x80 > buf[3] && 0x80 > buf[4]) {
-
-    cb = unsigned_from_sync_safe(buf[1], buf[2], buf[3], buf[4]);
-
-  } // End if on bytes 6-9 being a sync-safe int.
-
-  if (0 == cb) {
+  if (0x7f < buf[1] || 0x7f < buf[2] ||
+      0x7f < buf[3] || 0x7f < buf[4]) {
     is.seekg(here, std::ios_base::beg);
-  }
+    is.exceptions(exc_mask);
+    throw invalid_tag();
+  } // End if on bytes 6-9 not being a sync-safe int.
+
+  std::size_t cb = unsigned_from_sync_safe(buf[1], buf[2], buf[3], buf[4]);
 
   // Restore the exception mask
   is.exceptions(exc_mask);
-- 
2.43.0


From 714589654079247f0ecfd5b52d88a8dc90188536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:20 +0000
Subject: [PATCH 024/174] fix: Don't lose text that outgrows the conversion
 buffer

---
 scribbu/charsets.cc | 147 ++++++++++++++++++++++----------------------
 1 file changed, 72 insertions(+), 75 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 8ec7298..2fa89c8 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -638,6 +638,72 @@ scribbu::detail::iconv_specific::str_for_encoding(encoding enc,
   return strdup(s.c_str());
 }
 
+namespace {
+
+  /// Run all of [pbuf, pbuf + cbbuf) through \c iconv, growing the output buffer
+  /// (of which the first \a cbskip octets are left alone) as needed
+  std::vector<char>
+  iconv_all(const char *pbuf,
+            std::size_t cbbuf,
+            scribbu::encoding srcenc,
+            scribbu::encoding dstenc,
+            scribbu::on_no_encoding rsp,
+            std::size_t cbskip = 0)
+  {
+    using scribbu::on_no_encoding;
+
+    scribbu::detail::iconv_specific::descriptor dsc(srcenc, dstenc, rsp);
+
+    char *inbuf = const_cast<char*>(pbuf);
+    std::size_t inbytesleft = cbbuf;
+
+    // We can't know a priori how many octets the output buffer will require;
+    // cf.
+    // http://stackoverflow.com/questions/13297458/simple-utf8-utf16-string-conversion-with-iconv
+    std::size_t cbout = cbskip;
+    std::vector<char> out(cbskip + (cbbuf << 2) + 16);
+
+    // "The iconv function converts one multibyte character at a time, and for
+    // each character conversion it increments *inbuf and decrements
+    // *inbytesleft by the number of converted input bytes, it increments
+    // *outbuf and decrements *outbytesleft by the number of converted output
+    // bytes, and it updates the conversion state contained in cd."
+    bool flushing = false;
+    while (true) {
+      char *outbuf = out.data() + cbout;
+      std::size_t outbytesleft = out.size() - cbout;
+      std::size_t status = flushing ?
+        iconv(dsc, nullptr, nullptr, &outbuf, &outbytesleft) :
+        iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      cbout = out.size() - outbytesleft;
+
+      if (~0 == status && E2BIG == errno) {
+        // If the "output buffer has no more room for the next converted
+        // character. In this case it sets errno to E2BIG and returns
+        // (size_t)(−1)." Carry on with a bigger buffer :P
+        out.resize((out.size() << 1) + 16);
+      }
+      else if (~0 == status && !(EILSEQ == errno && 0 == inbytesleft &&
+                                 on_no_encoding::ignore == rsp)) {
+        // (when asked to ignore characters, GNU iconv will skip them, consume
+        // all the input & report EILSEQ nonetheless)
+        throw scribbu::iconv_error(errno);
+      }
+      else if (flushing) {
+        break;
+      }
+      else {
+        // All the input is gone; return to the initial shift state.
+        flushing = true;
+      }
+    }
+
+    out.resize(cbout);
+    return out;
+  }
+
+}
+
 namespace scribbu {
 
   encoding encoding_from_system_locale() {
@@ -680,49 +746,14 @@ namespace scribbu {
       return std::string();
     }
 
-    detail::iconv_specific::descriptor dsc(srcenc, dstenc, rsp);
-
-    char *inbuf = const_cast<char*>(reinterpret_cast<const char*>(pbuf));
-    std::size_t inbytesleft = cbbuf;
-
-    // We can't know a priori how many octets the output buffer will require;
-    // cf.
-    // http://stackoverflow.com/questions/13297458/simple-utf8-utf16-string-conversion-with-iconv
-    std::size_t cbout = cbbuf << 2;
-    std::unique_ptr<char []> poutbuf(new char[cbout]);
-
-    // "The iconv function converts one multibyte character at a time, and for
-    // each character conversion it increments *inbuf and decrements
-    // *inbytesleft by the number of converted input bytes, it increments
-    // *outbuf and decrements *outbytesleft by the number of converted output
-    // bytes, and it updates the conversion state contained in cd."
-    std::size_t outbytesleft = cbout;
-    char *outbuf = poutbuf.get();
-    std::size_t status = iconv(dsc, &inbuf, &inbytesleft,
-                               &outbuf, &outbytesleft);
-    while (~0 == status && E2BIG == errno) {
-      // If the "output buffer has no more room for the next converted
-      // character. In this case it sets errno to E2BIG and returns
-      // (size_t)(−1)." Try again with a bigger buffer :P
-      cbout <<= 2;
-      poutbuf.reset(new char[cbout]);
-
-      inbuf = const_cast<char*>(reinterpret_cast<const char*>(pbuf));
-      inbytesleft = cbbuf;
-      outbytesleft = cbout;
-      char *outbuf = poutbuf.get();
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    }
-
-    if (~0 == status) {
-      throw iconv_error(errno);
-    }
+    std::vector<char> out = iconv_all(reinterpret_cast<const char*>(pbuf), cbbuf,
+                                      srcenc, dstenc, rsp);
 
     // The GNU iconv docs don't say anything about Unicode BOMs. Empirically,
     // if there's a BOM present in the input text, `iconv' will produce a BOM
     // in the output text. That's not what we want, in this case.
-    outbuf = poutbuf.get();
-    cbout -= outbytesleft;
+    const char *outbuf = out.data();
+    std::size_t cbout = out.size();
 
     if ((3 < cbout) &&
         ((0x00 == (unsigned char)outbuf[0] &&
@@ -847,37 +878,7 @@ namespace scribbu {
       }
     }
 
-    detail::iconv_specific::descriptor dsc(srcenc, dstenc, rsp);
-
-    char *inbuf = const_cast<char*>(text);
-    size_t ntext = strlen(text);
-    size_t inbytesleft = ntext;
-    // We can't know a priori how many octets the output buffer will require;
-    // cf.
-    // http://stackoverflow.com/questions/13297458/simple-utf8-utf16-string-conversion-with-iconv
-    std::size_t cbout = cbbom + (ntext << 2);
-    vector<unsigned char> out(cbout);
-    std::size_t outbytesleft = cbout - cbbom;
-    char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-    size_t status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    while (~0 == status && E2BIG == errno) {
-      // If the "output buffer has no more room for the next converted
-      // character. In this case it sets errno to E2BIG and returns
-      // (size_t)(−1)." Try again with a bigger buffer :P
-      cbout <<= 2;
-      out.resize(cbout);
-
-      inbuf = const_cast<char*>(text);
-      inbytesleft = ntext;
-      outbytesleft = cbout;
-      char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-      std::size_t outbytesleft = cbout;
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    }
-
-    if (~0 == status) {
-      throw iconv_error(errno);
-    }
+    vector<char> out = iconv_all(text, strlen(text), srcenc, dstenc, rsp, cbbom);
 
     // The GNU iconv docs don't say anything about Unicode BOMs. Empirically,
     // if there's a BOM present in the input text, `iconv' will produce a BOM
@@ -887,11 +888,7 @@ namespace scribbu {
       copy(pbom, pbom + cbbom, out.begin());
     }
 
-    // Finally, trim the buffer to size before returning.
-    cbout -= outbytesleft;
-    out.resize(cbout);
-
-    return out;
+    return vector<unsigned char>(out.begin(), out.end());
   }
 
   /// Convert encodings from C strings to buffers of unsigned char
-- 
2.43.0


From a31930ea10f5175fd332cebf8cdb474367955bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:20 +0000
Subject: [PATCH 025/174] fix: Strip byte order marks, but no other text, when
 converting encodings

---
 scribbu/charsets.cc | 80 +++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 2fa89c8..3fbc436 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -640,6 +640,45 @@ scribbu::detail::iconv_specific::str_for_encoding(encoding enc,
 
 namespace {
 
+  /// Return the size, in octets, of the byte order mark at the start of \a pbuf
+  /// (zero if there is none); encodings which \c iconv itself will examine for a
+  /// BOM are left to it
+  std::size_t
+  bom_size(const unsigned char *pbuf,
+           std::size_t cbbuf,
+           scribbu::encoding enc)
+  {
+    using scribbu::encoding;
+
+    switch (enc) {
+    case encoding::UTF_8:
+      return 2 < cbbuf && 0xef == pbuf[0] && 0xbb == pbuf[1] && 0xbf == pbuf[2] ? 3 : 0;
+    case encoding::UCS_2BE:
+    case encoding::UTF_16BE:
+      return 1 < cbbuf && 0xfe == pbuf[0] && 0xff == pbuf[1] ? 2 : 0;
+    case encoding::UCS_2LE:
+    case encoding::UTF_16LE:
+      return 1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1] ? 2 : 0;
+    case encoding::UCS_2:
+      if constexpr (std::endian::native == std::endian::big) {
+        return bom_size(pbuf, cbbuf, encoding::UCS_2BE);
+      } else {
+        return bom_size(pbuf, cbbuf, encoding::UCS_2LE);
+      }
+    case encoding::UCS_4:
+    case encoding::UCS_4BE:
+    case encoding::UTF_32BE:
+      return 3 < cbbuf && 0x00 == pbuf[0] && 0x00 == pbuf[1] &&
+        0xfe == pbuf[2] && 0xff == pbuf[3] ? 4 : 0;
+    case encoding::UCS_4LE:
+    case encoding::UTF_32LE:
+      return 3 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1] &&
+        0x00 == pbuf[2] && 0x00 == pbuf[3] ? 4 : 0;
+    default:
+      return 0;
+    }
+  }
+
   /// Run all of [pbuf, pbuf + cbbuf) through \c iconv, growing the output buffer
   /// (of which the first \a cbskip octets are left alone) as needed
   std::vector<char>
@@ -746,43 +785,20 @@ namespace scribbu {
       return std::string();
     }
 
-    std::vector<char> out = iconv_all(reinterpret_cast<const char*>(pbuf), cbbuf,
-                                      srcenc, dstenc, rsp);
-
     // The GNU iconv docs don't say anything about Unicode BOMs. Empirically,
     // if there's a BOM present in the input text, `iconv' will produce a BOM
-    // in the output text. That's not what we want, in this case.
+    // in the output text. That's not what we want, in this case (unless it's
+    // UTF-8, in which a BOM says nothing about byte order, & the target has no
+    // means to represent it).
+    std::size_t cbbom = 0;
+    if (encoding::UTF_8 != srcenc || encoding::UTF_8 == dstenc) {
+      cbbom = bom_size(pbuf, cbbuf, srcenc);
+    }
+    std::vector<char> out = iconv_all(reinterpret_cast<const char*>(pbuf) + cbbom,
+                                      cbbuf - cbbom, srcenc, dstenc, rsp);
     const char *outbuf = out.data();
     std::size_t cbout = out.size();
 
-    if ((3 < cbout) &&
-        ((0x00 == (unsigned char)outbuf[0] &&
-          0x00 == (unsigned char)outbuf[1] &&
-          0xfe == (unsigned char)outbuf[2] &&
-          0xff == (unsigned char)outbuf[3]) ||
-         (0xfe == (unsigned char)outbuf[0] &&
-          0xff == (unsigned char)outbuf[1] &&
-          0x00 == (unsigned char)outbuf[2] &&
-          0x00 == (unsigned char)outbuf[3]))) {
-      outbuf += 4;
-      cbout -= 4;
-    }
-    else if (2 < cbout  &&
-             0xef == (unsigned char)outbuf[0] &&
-             0xbb == (unsigned char)outbuf[1] &&
-             0xbf == (unsigned char)outbuf[2]) {
-      outbuf += 3;
-      cbout -= 3;
-    }
-    else if ((1 < cbout) &&
-             ((0xfe == (unsigned char)outbuf[0] &&
-               0xff == (unsigned char)outbuf[1]) ||
-              (0xff == (unsigned char)outbuf[0] &&
-               0xfe == (unsigned char)outbuf[1]))) {
-      outbuf += 2;
-      cbout -= 2;
-    }
-
     // If there are trailing nulls and/or spaces, don't copy them, either.
     while (cbout && (0 == outbuf[cbout - 1] || 32 == outbuf[cbout - 1])) {
       --cbout;
-- 
2.43.0


From aac86a76d9bcdf1c62400cd8a961168064cdc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:20 +0000
Subject: [PATCH 026/174] fix: Write the right byte order mark for four-octet
 encodings

---
 scribbu/charsets.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 3fbc436..b8fc4f3 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -832,7 +832,7 @@ namespace scribbu {
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
     const unsigned char UTF8[]    = { 0xef, 0xbb, 0xbf };
     const unsigned char UTF32LE[] = { 0xff, 0xfe, 0x00, 0x00 };
-    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xff, 0xfe };
+    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xfe, 0xff };
 
     using namespace std;
 
@@ -856,14 +856,6 @@ namespace scribbu {
           pbom = UTF16LE;
         }
         break;
-      case encoding::UCS_4:
-        cbbom = 4;
-        if constexpr (std::endian::native == std::endian::big) {
-          pbom = UTF32BE;
-        } else {
-          pbom = UTF32LE;
-        }
-        break;
       case encoding::UCS_2BE:
       case encoding::UTF_16BE:
         cbbom = 2;
@@ -878,6 +870,7 @@ namespace scribbu {
         cbbom = 3;
         pbom = UTF8;
         break;
+      case encoding::UCS_4: // `iconv' takes this as big-endian
       case encoding::UCS_4BE:
       case encoding::UTF_32BE:
         cbbom = 4;
-- 
2.43.0


From 47297c6f344c3c9140909cdb09124a420ef60d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:20 +0000
Subject: [PATCH 027/174] fix: Convert strings with embedded nulls in full

---
 scribbu/charsets.cc | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index b8fc4f3..9b15204 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -819,14 +819,15 @@ namespace scribbu {
                                          srcenc, dstenc, rsp);
   }
 
-  /// Convert encodings from C strings to buffers of unsigned char
-  template <>
+  /// Convert encodings from buffers of char to buffers of unsigned char
+  static
   std::vector<unsigned char>
-  convert_encoding(char const* const& text,
-                   encoding srcenc,
-                   encoding dstenc,
-                   bool add_bom /*= false*/,
-                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  convert_buffer(const char *ptext,
+                 std::size_t cbtext,
+                 encoding srcenc,
+                 encoding dstenc,
+                 bool add_bom,
+                 on_no_encoding rsp)
   {
     const unsigned char UTF16LE[] = { 0xff, 0xfe };
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
@@ -837,10 +838,10 @@ namespace scribbu {
     using namespace std;
 
     if (!scribbu::char_traits<char>::is_code_unit(srcenc)) {
-      throw bad_code_unit(dstenc, sizeof(char));
+      throw bad_code_unit(srcenc, sizeof(char));
     }
 
-    if (0 == strlen(text)) {
+    if (0 == cbtext) {
       return std::vector<unsigned char>();
     }
 
@@ -887,7 +888,7 @@ namespace scribbu {
       }
     }
 
-    vector<char> out = iconv_all(text, strlen(text), srcenc, dstenc, rsp, cbbom);
+    vector<char> out = iconv_all(ptext, cbtext, srcenc, dstenc, rsp, cbbom);
 
     // The GNU iconv docs don't say anything about Unicode BOMs. Empirically,
     // if there's a BOM present in the input text, `iconv' will produce a BOM
@@ -900,6 +901,18 @@ namespace scribbu {
     return vector<unsigned char>(out.begin(), out.end());
   }
 
+  /// Convert encodings from C strings to buffers of unsigned char
+  template <>
+  std::vector<unsigned char>
+  convert_encoding(char const* const& text,
+                   encoding srcenc,
+                   encoding dstenc,
+                   bool add_bom /*= false*/,
+                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  {
+    return convert_buffer(text, strlen(text), srcenc, dstenc, add_bom, rsp);
+  }
+
   /// Convert encodings from C strings to buffers of unsigned char
   template <>
   std::vector<unsigned char>
@@ -930,8 +943,8 @@ namespace scribbu {
                    bool add_bom /*= false*/,
                    on_no_encoding rsp /*= on_no_encoding::fail*/)
   {
-    return convert_encoding<const char*>(text.c_str(), srcenc, dstenc, add_bom,
-                                         rsp);
+    return convert_buffer(text.data(), text.size(), srcenc, dstenc, add_bom,
+                          rsp);
   }
 
 } // End namespace scribbu.
-- 
2.43.0


From 955130a131d579c61999fcb90bbfad1451d6c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:20 +0000
Subject: [PATCH 028/174] fix: Use the encodings ID3v2.4 text frames declare

---
 scribbu/framesv24.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e49995a..c784038 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -62,6 +62,8 @@ namespace scribbu {
           src =  encoding::UTF_16BE;
         } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
           src =  encoding::UTF_16LE;
+        } else if (2 == unicode) {
+          src =  encoding::UTF_16BE;
         } else {
           src =  encoding::UTF_16;
         }
@@ -289,7 +291,7 @@ scribbu::encoding
 scribbu::id3v2_4_text_frame::encshim(frame_encoding x)
 {
   if (frame_encoding::ISO_8859_1 == x) {
-    return scribbu::encoding::ISO_8859_8;
+    return scribbu::encoding::ISO_8859_1;
   }
   else if (frame_encoding::UTF_16_BOM == x) {
     return scribbu::encoding::UTF_16;
-- 
2.43.0


From 821a470516bb90b4ae1b7afd55dfb175adae3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:39 +0000
Subject: [PATCH 029/174] fix: Make the language lookup safe for use from
 multiple threads

---
 scribbu/charsets.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 9b15204..6d70827 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -952,9 +952,10 @@ namespace scribbu {
 scribbu::language
 scribbu::language_from_iso_639_1(char code[2])
 {
-  static bool init = false;
-  static std::unordered_map<uint16_t, language> lookup;
-  if (!init) {
+  // Initialized just once, & thereafter never modified, since we may be called
+  // from multiple threads
+  static const std::unordered_map<uint16_t, language> LOOKUP = []() {
+    std::unordered_map<uint16_t, language> lookup;
 #   define H(a, b) lookup.insert(std::make_pair((#a[0]<<8)|#a[1], language:: b))
     H(aa, aar);
     H(ab, abk);
@@ -1161,10 +1162,11 @@ scribbu::language_from_iso_639_1(char code[2])
     H(zh, zho);
     H(zu, zul);
 #   undef H
-    init = true;
-  }
+    return lookup;
+  }();
 
-  return lookup[(code[0]<<8)|code[1]];
+  auto p = LOOKUP.find((code[0]<<8)|code[1]);
+  return LOOKUP.end() == p ? language::from_locale : p->second;
 }
 
 scribbu::language
-- 
2.43.0


From ad669cbfb2e8a797234d1c98fdf4af17ef82079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:06 +0000
Subject: [PATCH 030/174] fix: Don't use a moved-from pointer when adding
 comments & user-defined text

---
 scribbu/id3v22.cc | 4 ++--
 scribbu/id3v23.cc | 6 ++----
 scribbu/id3v24.cc | 4 ++--
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 8bfd377..b616fe3 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -324,7 +324,7 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
 
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(*frames_.back(), d);
 
 }
 
@@ -343,7 +343,7 @@ scribbu::id3v2_2_tag::add_user_defined_text(
 
   ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(*frames_.back(), d);
 }
 
 /*virtual*/
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index f51451b..f46885a 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -698,10 +698,9 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const COMM &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  index_frame(*frames_.back(), d);
 }
 
 /*virtual*/
@@ -719,10 +718,9 @@ scribbu::id3v2_3_tag::add_user_defined_text(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const TXXX &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(F, d);
+  index_frame(*frames_.back(), d);
 }
 
 /*virtual*/
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9ac6fdb..710a004 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -778,7 +778,7 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               description);
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(*frames_.back(), d);
 }
 
 /*virtual*/
@@ -799,7 +799,7 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               description);
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  index_frame(*frames_.back(), d);
 }
 
 /*virtual*/
-- 
2.43.0


From e5a2694e0b5b8e56db42713b7820c4d3010705b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:06 +0000
Subject: [PATCH 031/174] fix: Select the encoding of new text frames as for
 existing ones

---
 scribbu/id3v22.cc | 4 +++-
 scribbu/id3v23.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index b616fe3..87d3e8e 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -948,7 +948,9 @@ scribbu::id3v2_2_tag::set_text_frame(const frame_id3 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_2_text_frame>(id, text, src, add_bom, rsp, false);
+    // Begin with an empty frame & leave it to `set' to select an encoding
+    auto p = make_unique<id3v2_2_text_frame>(id, string(), encoding::UTF_8);
+    p->set(text, src, add_bom, rsp);
     id3v2_2_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_2_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index f46885a..1efcf7f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1561,7 +1561,9 @@ void scribbu::id3v2_3_tag::set_text_frame(const frame_id4 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_3_text_frame>(id, text, src, add_bom, rsp, false);
+    // Begin with an empty frame & leave it to `set' to select an encoding
+    auto p = make_unique<id3v2_3_text_frame>(id, string(), encoding::UTF_8);
+    p->set(text, src, add_bom, rsp);
     id3v2_3_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_3_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
-- 
2.43.0


From 9b691d5073e57a1fe53152a64ce2810b1ecd67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:19 +0000
Subject: [PATCH 032/174] fix: Throw when asked for a frame the tag doesn't
 have

---
 scribbu/id3v22.hh | 3 +++
 scribbu/id3v23.hh | 3 +++
 scribbu/id3v24.hh | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 8d08687..52bd543 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -305,6 +305,9 @@ namespace scribbu {
 
     const id3v2_2_frame& get_frame(const frame_id3 &id) const {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (frame_map_.end() == p) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 44d70c4..46291d8 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -411,6 +411,9 @@ namespace scribbu {
     const id3v2_3_frame& get_frame(const frame_id4 &id) const
     {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (frame_map_.end() == p) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 6a94c7b..bc313a4 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -447,6 +447,9 @@ namespace scribbu {
     const id3v2_4_frame& get_frame(const frame_id4 &id) const
     {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (frame_map_.end() == p) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
-- 
2.43.0


From 46bab6d2b6b0e14545acfa5059f262b45dd39001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:19 +0000
Subject: [PATCH 033/174] fix: Initialise new ID3v2.2 tags & null frame
 identifiers

---
 scribbu/framesv2.hh | 4 ++--
 scribbu/id3v22.hh   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a562ca5..2d1fac9 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -260,7 +260,7 @@ namespace scribbu {
   class frame_id3
   {
   public:
-    frame_id3()
+    frame_id3(): experimental_(false)
     { id_[0] = id_[1] = id_[2] = 0; }
     frame_id3(unsigned char id0, unsigned char id1, unsigned char id2);
     frame_id3(const unsigned char id[3]);
@@ -306,7 +306,7 @@ namespace scribbu {
   class frame_id4
   {
   public:
-    frame_id4()
+    frame_id4(): experimental_(false)
     { id_[0] = id_[1] = id_[2] = id_[3] = 0; }
     frame_id4(unsigned char id0, unsigned char id1,
               unsigned char id2, unsigned char id3);
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 52bd543..979f8a1 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -95,7 +95,8 @@ namespace scribbu {
     /// Read an ID3v2.2 tag once it's header has already been read into \a H
     id3v2_2_tag(std::istream &is, const id3v2_info &H);
     /// Initialize an ID3v2.2 tag "from scratch"
-    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0)
+    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false):
+      id3v2_tag(2, 0), compression_(false), padding_(cbpad)
     { }
     id3v2_2_tag(const id3v2_2_tag &that);
     virtual id3v2_tag* clone() const
-- 
2.43.0


From 428f80fa5707317947e7e6b0c8308034a29a05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:10 +0000
Subject: [PATCH 034/174] fix: Recognise all false syncs

---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index a180127..1e43696 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -36,13 +36,13 @@
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
-  return 255 == x && 233 < y;
+  return 255 == x && 0xe0 <= y;
 }
 
 bool
 scribbu::detail::needs_unsync(unsigned char x, unsigned char y)
 {
-  return 255 == x && (233 < y || 0 == y);
+  return 255 == x && (0xe0 <= y || 0 == y);
 }
 
 std::size_t
-- 
2.43.0


From a52da419b7675b2b7dfdf41e684489fcd56a8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:10 +0000
Subject: [PATCH 035/174] fix: Apply unsynchronisation when asked to, & not
 otherwise

---
 scribbu/framesv22.cc | 4 ++--
 scribbu/id3v23.cc    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 71b8974..e9019f8 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -81,7 +81,7 @@ scribbu::id3v2_2_frame::serialized_size(bool unsync,
                                         bool /*last_no_pad = false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC].size();
+  return cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
@@ -103,7 +103,7 @@ std::size_t
 scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  unsigned char idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 1efcf7f..442d629 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -255,7 +255,7 @@ scribbu::id3v2_3_tag::ext_header::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
   ensure_cached_data_is_fresh();
-  size_t idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  size_t idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From 2b1a9e71155907070adbbb8d128c700eb941a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:10 +0000
Subject: [PATCH 036/174] fix: Guard a trailing 0xff when unsynchronising,
 whatever the frame follows it

---
 scribbu/framesv22.cc |  4 ++--
 scribbu/framesv23.cc | 23 +++++++++--------------
 scribbu/framesv23.hh |  2 +-
 scribbu/id3v23.cc    | 27 +++++++++------------------
 scribbu/id3v24.cc    | 24 +++++++++---------------
 5 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index e9019f8..055eeed 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -89,10 +89,10 @@ scribbu::id3v2_2_frame::serialized_size(bool unsync,
 /// contain
 /*virtual*/
 std::size_t
-scribbu::id3v2_2_frame::needs_unsynchronisation(bool /*last_no_pad*/ /*= false*/) const
+scribbu::id3v2_2_frame::needs_unsynchronisation(bool last_no_pad /*= false*/) const
 {
   ensure_cached_data_is_fresh();
-  return num_false_syncs_;
+  return num_false_syncs_ + (last_no_pad && 0xff == cache_[SERIALIZED].back() ? 1 : 0);
 }
 
 /// Serialize this tag to an output stream, perhaps applying the
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c6aab2f..c8e33b8 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -78,9 +78,9 @@ scribbu::id3v2_3_plus_frame::crc(std::uint32_t crc) const
 /*virtual*/
 std::size_t
 scribbu::id3v2_3_plus_frame::serialized_size(bool unsync,
-                                             bool last_no_pad /*= false*/) const
+                                             bool /*last_no_pad = false*/) const
 {
-  ensure_cached_data_is_fresh(last_no_pad);
+  ensure_cached_data_is_fresh();
   return cache_[unsync ? SERIALIZED_WITH_CEU : SERIALIZED_WITH_CE].size();
 }
 
@@ -98,8 +98,9 @@ scribbu::id3v2_3_plus_frame::serialized_size(bool unsync,
 std::size_t
 scribbu::id3v2_3_plus_frame::needs_unsynchronisation(bool last_no_pad /*= false*/) const
 {
-  ensure_cached_data_is_fresh(last_no_pad);
-  return num_false_syncs_;
+  ensure_cached_data_is_fresh();
+  return num_false_syncs_ +
+    (last_no_pad && 0xff == cache_[SERIALIZED_WITH_CE].back() ? 1 : 0);
 }
 
 /**
@@ -147,7 +148,7 @@ scribbu::id3v2_3_plus_frame::dirty(bool f) const
  */
 
 void
-scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
+scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh() const
 {
   using namespace std;
   using scribbu::detail::count_syncs;
@@ -231,18 +232,12 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
                                    cache_[SERIALIZED_WITH_CE].end(),
                                    true);
 
-    // Check the very last byte for a trailing 0xff
-    if (last_no_pad &&
-        ! cache_[SERIALIZED_WITH_CE].empty() &&
-        0xff == cache_[SERIALIZED_WITH_CE].back()) {
-      ++num_false_syncs_;
-    }
-
-    // and prepare an unsynchronised copy.
+    // and prepare an unsynchronised copy; we don't know what will follow this
+    // frame, so be sure to guard a trailing 0xff.
     unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
                   cache_[SERIALIZED_WITH_CE].begin(),
                   cache_[SERIALIZED_WITH_CE].end(),
-                  last_no_pad);
+                  true);
 
     dirty(false);
   }
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 7b26aa4..bde545f 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -284,7 +284,7 @@ namespace scribbu {
 
     /// If the dirty flag is set, re-serialize & re-apply compression,
     /// encryption & unsynchronisation
-    void ensure_cached_data_is_fresh(bool last_no_pad = false) const;
+    void ensure_cached_data_is_fresh() const;
     /// Serialize this frame to \a os, exclusive of the frame header, as well
     /// as any compression, encryption or unsynchronisation; return the number
     /// of bytes written
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 442d629..2ed165d 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -307,7 +307,8 @@ scribbu::id3v2_3_tag::ext_header::ensure_cached_data_is_fresh() const
                                  true);
   unsynchronise(back_inserter(cache_[SERIALIZED_WITH_UNSYNC]),
                 cache_[SERIALIZED].begin(),
-                cache_[SERIALIZED].end());
+                cache_[SERIALIZED].end(),
+                true);
 
   dirty_ = false;
 }
@@ -506,23 +507,13 @@ scribbu::id3v2_3_tag::size(bool unsync) const
     cb += pext_header_->serialized_size(unsync);
   }
 
-  // we of course include all our frames. We need to treat the last frame
-  // specially (because in ID3v2.3+, a trailing 0xff is treated as a false
-  // sync), but only if there's no padding.
-  size_t cb_pad = padding();
-
-  auto p = begin(), p1 = end();
-  if (p != p1) {
-    p1 -= 1;
-    while (p != p1) {
-      cb += p->serialized_size(unsync);
-      p += 1;
-    }
-    cb += p->serialized_size(unsync, 0 == cb_pad);
+  // we of course include all our frames...
+  for (auto p = begin(), p1 = end(); p != p1; ++p) {
+    cb += p->serialized_size(unsync);
   }
 
   // as well as any padding.
-  cb += cb_pad;
+  cb += padding();
 
   return cb;
 
@@ -572,8 +563,8 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
     }
   }
 
-  size_t cb_pad = padding();
-
+  // We need to treat the last frame specially (because in ID3v2.3+, a trailing
+  // 0xff is treated as a false sync)
   auto p = begin(), p1 = end();
   if (p != p1) {
     p1 -= 1;
@@ -583,7 +574,7 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
       }
       p += 1;
     }
-    if (p->needs_unsynchronisation(cb_pad == 0)) {
+    if (p->needs_unsynchronisation(true)) {
       return true;
     }
   }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 710a004..51818b9 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -621,23 +621,13 @@ scribbu::id3v2_4_tag::size(bool unsync) const
     cb += pext_header_->size();
   }
 
-  // we of course include all our frames. We need to treat the last frame
-  // specially (because in ID3v2.3+, a trailing 0xff is treated as a false
-  // sync), but only if there's no padding.
-  size_t cb_pad = padding();
-
-  auto p = begin(), p1 = end();
-  if (p != p1) {
-    p1 -= 1;
-    while (p != p1) {
-      cb += p->serialized_size(unsync);
-      p += 1;
-    }
-    cb += p->serialized_size(unsync, 0 == cb_pad);
+  // we of course include all our frames.
+  for (auto p = begin(), p1 = end(); p != p1; ++p) {
+    cb += p->serialized_size(unsync);
   }
 
   // as well as any padding.
-  cb += cb_pad;
+  cb += padding();
 
   return cb;
 }
@@ -661,7 +651,11 @@ scribbu::id3v2_4_tag::needs_unsynchronisation() const
 {
 
   using namespace std;
-  return all_of(begin(), end(), [](const id3v2_4_frame &f) { return f.needs_unsynchronisation(); });
+  // We need to treat the last frame specially (because in ID3v2.3+, a trailing
+  // 0xff is treated as a false sync)
+  return all_of(frames_.begin(), frames_.end(),
+                [this](const unique_ptr<id3v2_4_frame> &p)
+                { return p->needs_unsynchronisation(p == frames_.back()); });
 }
 
 /**
-- 
2.43.0


From 4f563d59e373bb95a380244fdbd3f06caebd291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:10 +0000
Subject: [PATCH 037/174] fix: Set the unsynchronisation flag just when
 unsynchronisation has been applied

---
 scribbu/id3v22.cc | 2 +-
 scribbu/id3v23.cc | 2 +-
 scribbu/id3v24.cc | 9 ++++++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 87d3e8e..1ef30a0 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -276,7 +276,7 @@ scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
 
   // Write the header... taking care to add the "unsync" flag if we're
   // applying unsynchronisation
-  unsigned char f = flags();
+  unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
   write_header(os, f, size(unsync));
   // the frames (note we start the accumulation at 10)...
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 2ed165d..6cd13c4 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -630,7 +630,7 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
-  unsigned char f = flags();
+  unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
   write_header(os, f, size(unsync));
   size_t cb = 10;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 51818b9..ecc9b3d 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -712,8 +712,11 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
-  // Write the header...
-  write_header(os, flags(), size(unsync));
+  // Write the header... taking care that the "unsync" flag says what we're
+  // about to do
+  unsigned char f = flags() & ~0x80;
+  if (unsync) f |= 0x80;
+  write_header(os, f, size(unsync));
   size_t cb = 10;
 
   if (pext_header_) {
@@ -734,7 +737,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), size(unsync));
+    write_footer(os, f, size(unsync));
   }
 
   return cb;
-- 
2.43.0


From 68908754095a3f7bb0ed9d429cc61f179eb17ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:08 +0000
Subject: [PATCH 038/174] fix: Write ID3v2.3 frame header flags & decompressed
 sizes per the specification

---
 scribbu/framesv23.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c8e33b8..5de6e72 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -353,27 +353,27 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 64;
+    flags[0] |= 0x80;
   }
   if (fap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (ro()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
 
   if (compressed()) {
-    flags[1] |= 64;
+    flags[1] |= 0x80;
     sz += 4;
     cb += 4;
   }
   if (encrypted()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
   if (grouped()) {
-    flags[1] |= 16;
+    flags[1] |= 0x20;
     sz += 1;
     cb += 1;
   }
@@ -398,7 +398,11 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   os.write(flags, 2);
 
   if (compressed()) {
-    os.write((char*)&dlind, 4);
+    szbuf[0] = (dlind & 0xff000000) >> 24;
+    szbuf[1] = (dlind & 0x00ff0000) >> 16;
+    szbuf[2] = (dlind & 0x0000ff00) >>  8;
+    szbuf[3] =  dlind & 0x000000ff;
+    os.write(szbuf, 4);
   }
 
   if (encrypted()) {
-- 
2.43.0


From c5f568f70939eadbdc6dd3b981ce6ff52ec647ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:08 +0000
Subject: [PATCH 039/174] fix: Write ID3v2.4 frame headers per the
 specification

---
 scribbu/framesv24.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index c784038..5dd618b 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -94,17 +94,17 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (fap()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
   if (ro()) {
-    flags[0] |= 8;
+    flags[0] |= 0x10;
   }
   //  %0h00kmnp
   if (grouped()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
@@ -119,7 +119,9 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   if (unsynchronised_) {
     flags[1] |= 2;
   }
-  if (data_len_indicator_) {
+  // Compressed frames are required to have a data length indicator
+  bool has_dli = data_len_indicator_ || compressed_;
+  if (has_dli) {
     flags[1] |= 1;
     sz += 4;
     cb += 4;
@@ -128,25 +130,26 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   char idbuf[4]; id().copy(idbuf);
   os.write(idbuf, 4);
 
-  // ID3v2.3 frame sizes *are* sync-safe:
+  // ID3v2.4 frame sizes *are* sync-safe:
   unsigned char szbuf[4];
-  detail::sync_safe_from_unsigned(size(), szbuf);
+  detail::sync_safe_from_unsigned(sz, szbuf);
   os.write((char*)szbuf, 4);
 
   os.write(flags, 2);
 
-  if (encrypted()) {
-    unsigned char x = encmeth();
+  if (grouped()) {
+    unsigned char x = gid();
     os.write((char*)&x, 1);
   }
 
-  if (grouped()) {
-    unsigned char x = gid();
+  if (encrypted()) {
+    unsigned char x = encmeth();
     os.write((char*)&x, 1);
   }
 
-  if (data_len_indicator_) {
-    os.write((char*)&dlind, 4);
+  if (has_dli) {
+    detail::sync_safe_from_unsigned(dlind, szbuf);
+    os.write((char*)szbuf, 4);
   }
 
   return cb;
-- 
2.43.0


From ca0f79ad74eeca654bf6755c0301f5d8899cce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:08 +0000
Subject: [PATCH 040/174] fix: Unsynchronise ID3v2.4 frames so that they can be
 read back

---
 scribbu/framesv23.cc | 44 ++++++++++++++++++++++++++----------------
 scribbu/framesv23.hh |  6 ++++++
 scribbu/framesv24.cc | 46 +++++++++++++++++++++++++++++++++++++++++++-
 scribbu/framesv24.hh | 12 ++++++++++++
 4 files changed, 90 insertions(+), 18 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 5de6e72..865b242 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -152,7 +152,6 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh() const
 {
   using namespace std;
   using scribbu::detail::count_syncs;
-  using scribbu::detail::unsynchronise;
 
   // This logic is still too complex for my tastes, but this is as simple
   // as I've been able to get it so far. If the 'dirty" flag is set...
@@ -207,16 +206,6 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh() const
 
     }
 
-    // In the case of ID3v2.4, unsynchronisation is applied on a frame-by-frame
-    // basis, so we would need to check the releveant flag, and if it's set,
-    // unsynchronise the payload.
-
-    // What I'm doing instead is assembling the entire frame payload in
-    // `cache_', & then applying unsynchronisation to that.  In the case of
-    // ID3v2.4, the frame header is sync-safe to begin with, so the data in the
-    // SERIALIZED_WITH_CEU slot will be exactly what we would have gotten by
-    // writing the header & then unsynchronising the payload.
-
     // Serialize the frame header...
     stringstream hdr;
     write_header(hdr, payload.size(), cb_no_ceu);
@@ -232,18 +221,39 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh() const
                                    cache_[SERIALIZED_WITH_CE].end(),
                                    true);
 
-    // and prepare an unsynchronised copy; we don't know what will follow this
-    // frame, so be sure to guard a trailing 0xff.
-    unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
-                  cache_[SERIALIZED_WITH_CE].begin(),
-                  cache_[SERIALIZED_WITH_CE].end(),
-                  true);
+    // and prepare an unsynchronised copy.
+    cache_[SERIALIZED_WITH_CEU] = unsynchronised_form(cache_[SERIALIZED_WITH_CE],
+                                                      payload, cb_no_ceu);
 
     dirty(false);
   }
 
 }
 
+/**
+ * \brief Unsynchronise this frame
+ *
+ *
+ * Through ID3v2.3, unsynchronisation is applied to the tag as a whole, & so
+ * (from our perspective) to the entire frame, header & all.
+ *
+ *
+ */
+
+/*virtual*/
+std::vector<unsigned char>
+scribbu::id3v2_3_plus_frame::unsynchronised_form(
+  const std::vector<unsigned char> &frame,
+  const std::vector<unsigned char> &,
+  std::size_t) const
+{
+  // We don't know what will follow this frame, so be sure to guard a trailing
+  // 0xff.
+  std::vector<unsigned char> out;
+  detail::unsynchronise(std::back_inserter(out), frame.begin(), frame.end(), true);
+  return out;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 //                            class private_frame                            //
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index bde545f..ff6066b 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -294,6 +294,12 @@ namespace scribbu {
     virtual std::size_t write_header(std::ostream &os,
                                      std::size_t cb_payload,
                                      std::size_t dlind) const = 0;
+    /// Return this frame in unsynchronised form, given its serialization (\a
+    /// frame), the payload alone & the size of the payload prior to compression
+    virtual std::vector<unsigned char>
+    unsynchronised_form(const std::vector<unsigned char> &frame,
+                        const std::vector<unsigned char> &payload,
+                        std::size_t dlind) const;
 
   private:
 
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 5dd618b..479016e 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -89,6 +89,50 @@ std::size_t
 scribbu::id3v2_4_frame::write_header(std::ostream &os,
                                      std::size_t cb_payload,
                                      std::size_t dlind) const
+{
+  return write_header(os, cb_payload, dlind, false);
+}
+
+/**
+ * \brief Unsynchronise this frame
+ *
+ *
+ * With ID3v2.4, unsynchronisation is applied on a frame-by-frame basis: the
+ * frame header is sync-safe to begin with, so just the payload is
+ * unsynchronised. The size in the frame header, however, is that of the frame
+ * after unsynchronisation.
+ *
+ *
+ */
+
+/*virtual*/
+std::vector<unsigned char>
+scribbu::id3v2_4_frame::unsynchronised_form(
+  const std::vector<unsigned char> &,
+  const std::vector<unsigned char> &payload,
+  std::size_t dlind) const
+{
+  using namespace std;
+
+  // We don't know what will follow this frame, so be sure to guard a trailing
+  // 0xff.
+  vector<unsigned char> unsyncd;
+  detail::unsynchronise(back_inserter(unsyncd), payload.begin(), payload.end(), true);
+
+  stringstream stm;
+  write_header(stm, unsyncd.size(), dlind, true);
+  string hdr = stm.str();
+
+  vector<unsigned char> out(hdr.begin(), hdr.end());
+  out.insert(out.end(), unsyncd.begin(), unsyncd.end());
+  return out;
+}
+
+std::size_t
+scribbu::id3v2_4_frame::write_header(std::ostream &os,
+                                     std::size_t cb_payload,
+                                     std::size_t dlind,
+                                     bool unsync) const
 {
   std::size_t cb = 10, sz = cb_payload;
 
@@ -116,7 +160,7 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
     sz += 1;
     cb += 1;
   }
-  if (unsynchronised_) {
+  if (unsync) {
     flags[1] |= 2;
   }
   // Compressed frames are required to have a data length indicator
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index a64e8ca..15eca1f 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -148,6 +148,18 @@ namespace scribbu {
     /// fields such as decompressed size, group id, &c
     virtual std::size_t write_header(std::ostream &os, std::size_t cb_payload,
                                      std::size_t dlind) const;
+    /// Return this frame in unsynchronised form, given its serialization (\a
+    /// frame), the payload alone & the size of the payload prior to compression
+    virtual std::vector<unsigned char>
+    unsynchronised_form(const std::vector<unsigned char> &frame,
+                        const std::vector<unsigned char> &payload,
+                        std::size_t dlind) const;
+
+  private:
+    /// Serialize this tag's header to an output stream, setting the
+    /// unsynchronisation flag according to \a unsync
+    std::size_t write_header(std::ostream &os, std::size_t cb_payload,
+                             std::size_t dlind, bool unsync) const;
 
   private:
     bool compressed_;
-- 
2.43.0


From 7ca64c533d2012e215afe599f08246354a798f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:08 +0000
Subject: [PATCH 041/174] fix: Initialise all the members of an ID3v2.4 frame

---
 scribbu/framesv24.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 15eca1f..8499e3f 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -124,8 +124,8 @@ namespace scribbu {
                   bool cmprsd,
                   bool unsynch,
                   const boost::optional<std::size_t> &dli):
-      id3v2_3_plus_frame(frame_id4(id0, id1, id2, id3),
-                         tap, fap, ro, cmprsd, enc, gid)
+      id3v2_4_frame(frame_id4(id0, id1, id2, id3), tap, fap, ro, cmprsd, enc,
+                    gid, unsynch, dli)
     { }
     virtual id3v2_4_frame* clone() const = 0;
 
-- 
2.43.0


From 039a1c1fe7be8518a09ed2f76f7f6a08332889b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:08 +0000
Subject: [PATCH 042/174] fix: Write ID3v2.4 sizes & extended headers that can
 be read back

---
 scribbu/id3v24.cc | 58 +++++++++++++++++++++++++++++------------------
 scribbu/id3v24.hh |  3 +++
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index ecc9b3d..491355a 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -315,18 +315,18 @@ std::uint32_t
 scribbu::id3v2_4_tag::ext_header::crc(const id3v2_4_tag &tag) const
 {
   using namespace std;
-  if (crc_dirty_) {
-    crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
-                      [](uint32_t checksum, const id3v2_4_frame &F)
-                      { return F.crc(checksum); });
-    size_t cbpad = tag.padding();
-    while (cbpad) {
-      size_t toadd = min(cbpad, CBPAD);
-      crc_ = crc32(crc_, (const unsigned char*)PAD, toadd);
-      cbpad -= toadd;
-    }
-    crc_dirty_ = false;
+  // Always re-compute this, since the tag may have been modified since we last
+  // did so.
+  crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
+                    [](uint32_t checksum, const id3v2_4_frame &F)
+                    { return F.crc(checksum); });
+  size_t cbpad = tag.padding();
+  while (cbpad) {
+    size_t toadd = min(cbpad, CBPAD);
+    crc_ = crc32(crc_, (const unsigned char*)PAD, toadd);
+    cbpad -= toadd;
   }
+  crc_dirty_ = false;
   return crc_;
 }
 
@@ -352,7 +352,7 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   size_t cb = 0;
 
   unsigned char buf[6];
-  sync_safe_from_unsigned(size(), buf);
+  sync_safe_from_unsigned(serialized_size(), buf);
 
   buf[4] = 0x01;
 
@@ -380,9 +380,13 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   }
 
   if (has_crc()) {
-    sync_safe_from_unsigned(crc(tag), buf);
-    os.write((char*)buf, 5);
-    cb += 5;
+    // 32 bits in five sync-safe bytes
+    uint32_t x = crc(tag);
+    buf[0] = 0x05;
+    buf[1] = (x >> 28) & 0x0f;
+    sync_safe_from_unsigned(x & 0xfffffff, buf + 2);
+    os.write((char*)buf, 6);
+    cb += 6;
   }
 
   if (restricted()) {
@@ -449,8 +453,10 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
       break;
     }
 
-    os.write((char*)&tagr, 1);
-    cb += 1;
+    buf[0] = 0x01;
+    buf[1] = tagr;
+    os.write((char*)buf, 2);
+    cb += 2;
   }
 
   return cb;
@@ -574,7 +580,8 @@ scribbu::id3v2_4_tag::flags() const
 
 /**
  * \brief Compute the size of this tag (in bytes) exclusive of the ID3v2 header
- * (i.e. return the total tag size, in bytes, less ten)
+ * (i.e. return the total tag size, in bytes, less ten; the footer, if present,
+ * is included)
  *
  *
  * \param unync [in] The caller shall set this to true to apply
@@ -582,7 +589,7 @@ scribbu::id3v2_4_tag::flags() const
  *
  * \return Size Serialized size of this tag, in bytes, exclusive of the ID3v2
  * header (i.e. the value that could be written in bytes six through nine of
- * the tag)
+ * the tag, plus ten if there's a footer)
  *
  *
  * Computing the tag size is simpler in ID3v2.4 than ID3v2.3. The header,
@@ -618,7 +625,7 @@ scribbu::id3v2_4_tag::size(bool unsync) const
     cb += 10;
   }
   if (pext_header_) {
-    cb += pext_header_->size();
+    cb += pext_header_->serialized_size();
   }
 
   // we of course include all our frames.
@@ -712,11 +719,18 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
+  // The size of the footer is not included in the size we write to the
+  // header (or to the footer, come to that).
+  size_t cbtag = size(unsync);
+  if (has_footer()) {
+    cbtag -= 10;
+  }
+
   // Write the header... taking care that the "unsync" flag says what we're
   // about to do
   unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
-  write_header(os, f, size(unsync));
+  write_header(os, f, cbtag);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -737,7 +751,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, f, size(unsync));
+    write_footer(os, f, cbtag);
   }
 
   return cb;
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index bc313a4..2f39c6e 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -194,6 +194,9 @@ namespace scribbu {
       //// Retrieve the size of this extended header-- will throw if the size
       //// calculation is dirty
       std::size_t size() const;
+      /// Compute the size of this extended header as we would write it
+      std::size_t serialized_size() const
+      { return 6 + (is_update() ? 1 : 0) + (has_crc() ? 6 : 0) + (restricted() ? 2 : 0); }
       bool is_update() const
       { return is_update_; }
       bool has_crc() const
-- 
2.43.0


From de8474ae8cb1297750404da2b1137fa7ec1bc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:53 +0000
Subject: [PATCH 043/174] fix: Don't count padding twice when writing ID3v2.4
 tags

---
 scribbu/id3v2.hh  | 10 ++++++++++
 scribbu/id3v24.cc |  2 +-
 scribbu/id3v24.hh |  5 +++++
 scribbu/tagset.hh |  2 +-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 0e96115..a5104e6 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -697,6 +697,16 @@ namespace scribbu {
     /// ID3v2 header (i.e. return the total tag size on disk, in bytes, less
     /// ten)
     virtual std::size_t size(bool unsync = false) const = 0;
+
+    /**
+     * \brief Return the number of bytes write() would produce, exclusive of
+     * the ID3v2 header (i.e. less ten)
+     *
+     *
+     */
+
+    virtual std::size_t serialized_size(bool unsync) const
+    { return size(unsync); }
     /// Return true if the serialization of this tag would contain false syncs
     /// if serialized in its present state
     virtual bool needs_unsynchronisation() const = 0;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 491355a..ee93935 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -721,7 +721,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   // The size of the footer is not included in the size we write to the
   // header (or to the footer, come to that).
-  size_t cbtag = size(unsync);
+  size_t cbtag = serialized_size(unsync);
   if (has_footer()) {
     cbtag -= 10;
   }
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 2f39c6e..f66d137 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -257,6 +257,11 @@ namespace scribbu {
     /// Compute the size of this tag (in bytes) exclusive of the ID3v2 header
     /// (i.e. return the total tag size, in bytes, less ten)
     virtual std::size_t size(bool unsync = false) const;
+
+    /// Return the number of bytes write() would produce, less ten; note that
+    /// size() counts padding twice
+    virtual std::size_t serialized_size(bool unsync) const
+    { return size(unsync) - padding(); }
     /// Return true if all frames would contain false syncs if serialized in
     /// their present state
     virtual bool needs_unsynchronisation() const;
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 002d729..ab6a979 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -499,7 +499,7 @@ namespace scribbu {
     size_t cb_tot = 0, cb_pad = 0;
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
-      cb_tot += (*p0)->size(do_unsync) + 10;
+      cb_tot += (*p0)->serialized_size(do_unsync) + 10;
       cb_pad += (*p0)->padding();
     }
     return std::make_tuple(cb_tot, cb_pad);
-- 
2.43.0


From 0a115ed47f04353a883b42d6a50b2d04d2307190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:25 +0000
Subject: [PATCH 044/174] fix: Don't read past the end of frames rendered as
 JSON

---
 scribbu/json-pprinter.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b8ff7b..ced9e7a 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -32,7 +32,7 @@
 #include <boost/algorithm/string/join.hpp>
 
 #include <algorithm>
-#include <strstream>
+#include <sstream>
 
 /*static*/
 const boost::optional<scribbu::encoding>
@@ -91,7 +91,7 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_2_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -117,8 +117,8 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_3_frame &frm) {
-              ostrstream stm;
-              stm << print_as_json(v1enc_, v2enc_) << frm << ends;
+              ostringstream stm;
+              stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
 
@@ -144,7 +144,7 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_4_frame &frm) {
-              ostrstream stm;
+              ostringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
-- 
2.43.0


From 9af148c9b62d1881c7e53c5bd26a46c53c877259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:25 +0000
Subject: [PATCH 045/174] fix: Fall back to ISO-8859-1 when printing UFI frames
 as JSON

---
 scribbu/json-pprinter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index ced9e7a..602477d 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -251,9 +251,14 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
+
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
-- 
2.43.0


From 4244baf796e03c96aab0b91ccede4959348a299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:37 +0000
Subject: [PATCH 046/174] fix: Produce well-formed JSON

---
 scribbu/json-pprinter.cc | 100 ++++++++++++++++++++++-----------------
 scribbu/json-pprinter.hh |   5 ++
 2 files changed, 62 insertions(+), 43 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 602477d..7c84fbc 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -68,13 +68,27 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      stm << c;
+      if (0 <= c && c < 0x20) {
+        // All control characters must be escaped
+        stm << "\\u00" << std::hex << std::setw(2) << std::setfill('0') << (int)c;
+      } else {
+        stm << c;
+      }
       break;
     }
   }
     return stm.str();
 }
 
+/*static*/
+std::string scribbu::json_pprinter::escape(const std::set<std::string> &s)
+{
+  std::vector<std::string> elts;
+  std::transform(s.begin(), s.end(), std::back_inserter(elts),
+                 [](const std::string &x) { return '"' + escape(x) + '"'; });
+  return boost::algorithm::join(elts, ",");
+}
+
 /*virtual*/ std::ostream &
 scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
                                         std::ostream &os)
@@ -83,10 +97,10 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
 
   os << R"({"version":"2.2","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
@@ -135,11 +149,11 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
 
   os << R"({"version":"2.4","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
@@ -189,7 +203,7 @@ scribbu::json_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   }
 
   os << R"({"version":")" << version << R"(","album":")" <<
-    tag.album<string>(v1enc_, dst, rsp) <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) <<
     R"(","artist":")" << escape(tag.artist<string>(v1enc_, dst, rsp)) <<
     R"(","comment":")" << escape(tag.comment<string>(v1enc_, dst, rsp)) <<
     R"(","genre":)" << setbase(10) << (int)tag.genre() <<
@@ -220,7 +234,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_2_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -235,7 +249,7 @@ scribbu::json_pprinter::pprint_id3v2_2_text_frame(const id3v2_2_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -256,9 +270,9 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -272,7 +286,7 @@ scribbu::json_pprinter::pprint_TXX(const TXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -291,7 +305,7 @@ scribbu::json_pprinter::pprint_COM(const COM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -306,7 +320,7 @@ scribbu::json_pprinter::pprint_CNT(const CNT &cnt,
 {
   using namespace std;
 
-  return os << R"({"id":"CNT,"size":)" << setbase(10) << cnt.size()
+  return os << R"({"id":"CNT","size":)" << setbase(10) << cnt.size()
             << R"(,"count":)" << cnt.count() << "}";
 }
 
@@ -325,7 +339,7 @@ scribbu::json_pprinter::pprint_POP(const POP &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -352,14 +366,14 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" + escape(pr.second) + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -370,7 +384,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_3_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -385,7 +399,7 @@ scribbu::json_pprinter::pprint_id3v2_3_text_frame(const id3v2_3_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -406,9 +420,9 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -427,7 +441,7 @@ scribbu::json_pprinter::pprint_ENCR(const ENCR &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -444,7 +458,7 @@ scribbu::json_pprinter::pprint_TXXX(const TXXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -463,7 +477,7 @@ scribbu::json_pprinter::pprint_COMM(const COMM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -477,7 +491,7 @@ scribbu::json_pprinter::pprint_PCNT(const PCNT &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -496,7 +510,7 @@ scribbu::json_pprinter::pprint_POPM(const POPM &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -523,14 +537,14 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" + escape(pr.second) + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -549,7 +563,7 @@ scribbu::json_pprinter::pprint_PRIV(const PRIV &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -563,7 +577,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_4_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -578,7 +592,7 @@ scribbu::json_pprinter::pprint_id3v2_4_text_frame(const id3v2_4_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -598,9 +612,9 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -619,7 +633,7 @@ scribbu::json_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -635,7 +649,7 @@ scribbu::json_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &frm, std::ostream &os)
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -654,7 +668,7 @@ scribbu::json_pprinter::pprint_COMM_2_4(const COMM_2_4 &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -668,7 +682,7 @@ scribbu::json_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -687,7 +701,7 @@ scribbu::json_pprinter::pprint_POPM_2_4(const POPM_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -714,14 +728,14 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                return "{\"" + first + R"(":[)" + escape(pr.second) + "]}";
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -740,7 +754,7 @@ scribbu::json_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
diff --git a/scribbu/json-pprinter.hh b/scribbu/json-pprinter.hh
index f707fb6..3137302 100644
--- a/scribbu/json-pprinter.hh
+++ b/scribbu/json-pprinter.hh
@@ -26,6 +26,9 @@
 
 #include <scribbu/pprinter.hh>
 
+#include <set>
+#include <string>
+
 namespace scribbu {
 
   /**
@@ -47,6 +50,8 @@ namespace scribbu {
 
   public:
     static std::string escape(const std::string &s);
+    /// Return the elements of \a s as a comma-separated list of JSON strings
+    static std::string escape(const std::set<std::string> &s);
 
   public:
     json_pprinter(const boost::optional<encoding> &v1enc = DEFAULT_V1ENC,
-- 
2.43.0


From 0cc3c67a71c956bb760ddc4ccc9399a298118a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:37 +0000
Subject: [PATCH 047/174] fix: Don't print the first byte of frames that have
 none

---
 scribbu/pprinter.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index ae4f2a7..49502e8 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -65,11 +65,13 @@ pprint_binary(const std::string &indent,
 {
   using namespace std;
   string ascii_rep;
-  os << indent << hex << setw(2) << (unsigned)*p0;
-  ascii_rep += asciify(*p0);
-  for (++p0 ; p0 != p1; ++p0) {
-    os << ' ' << setw(2) << (unsigned)*p0;
-    ascii_rep += asciify(*p0);
+  os << indent << hex;
+  for (auto p = p0; p != p1; ++p) {
+    if (p != p0) {
+      os << ' ';
+    }
+    os << setw(2) << (unsigned)*p;
+    ascii_rep += asciify(*p);
   }
 
   os << "  >" << ascii_rep << "<";
-- 
2.43.0


From 9cd857a0458e0ba72dac170fae93886ac9053d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 048/174] fix: Parse VBRI headers per their format

---
 scribbu/mp3.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index aeb7e30..fb3da55 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -21,6 +21,7 @@
  *
  */
 
+#include <algorithm>
 #include <scribbu/mp3.hh>
 
 #include <arpa/inet.h>
@@ -82,7 +83,7 @@ namespace {
 
 scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
 {
-  uint16_t ns;
+  uint16_t ns = 0;
   is.read((char*)&ns, 2);
   version_ = ntohs(ns);
 
@@ -92,16 +93,15 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   quality_ = ntohs(ns);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   is.read((char*)&nl, 4);
   file_size_bytes_ = ntohl(nl);
 
   is.read((char*)&nl, 4);
   num_frames_ = ntohl(nl);
 
-  uint16_t num_entries;
-  is.read((char*)&num_entries, 4);
-  num_entries = ntohl(num_entries);
+  is.read((char*)&ns, 2);
+  std::size_t num_entries = ntohs(ns);
 
   is.read((char*)&ns, 2);
   scale_ = ntohs(ns);
@@ -112,8 +112,14 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   frames_per_toc_entry_ = ntohs(ns);
 
-  toc_.resize(num_entries * toc_entry_size_);
-  is.read((char*)toc_.data(), num_entries * toc_entry_size_);
+  // Don't trust the declared size; only allocate as much as is actually there.
+  const std::size_t CHUNK = 4096;
+  for (std::size_t cb = num_entries * toc_entry_size_; is && cb; ) {
+    std::size_t here = toc_.size(), n = std::min(CHUNK, cb);
+    toc_.resize(here + n);
+    is.read((char*)toc_.data() + here, n);
+    cb -= n;
+  }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c9fca11179b5a9c68b8968d58ce63716cd8792d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 049/174] fix: Don't read past the end of the LAME tag
 identifier

---
 scribbu/mp3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index fb3da55..53b063e 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -73,7 +73,7 @@ namespace {
   is_lame(char buf[]) {
     return
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
-      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[4] == '9');
+      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
 }
 
-- 
2.43.0


From 1b02d7cce5177af5a5f13a1a818cfe9a15e803dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 050/174] fix: Don't use uninitialised data when an MP3 header
 is cut short

---
 scribbu/mp3.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 53b063e..1436d5a 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -128,7 +128,7 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
 
 scribbu::xing_mp3_tag::xing_mp3_tag(std::istream &is)
 {
-  std::uint8_t buf[4];
+  std::uint8_t buf[4] = { 0, 0, 0, 0 };
   is.read((char*)buf, 4);
 
   bool frames_present = 0 != (buf[3] & 0x01);
@@ -136,7 +136,7 @@ scribbu::xing_mp3_tag::xing_mp3_tag(std::istream &is)
   bool toc_present    = 0 != (buf[3] & 0x04);
   bool qual_present   = 0 != (buf[3] & 0x08);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   if (frames_present) {
     is.read((char*)&nl, 4);
     num_frames_ = ntohl(nl);
@@ -167,12 +167,12 @@ scribbu::lame_mp3_tag::lame_mp3_tag(char tag_id[], std::istream &is)
   lame_id_[0] = tag_id[0]; lame_id_[1] = tag_id[1];
   lame_id_[2] = tag_id[2]; lame_id_[3] = tag_id[3];
 
-  char rest[5];
+  char rest[5] = { 0, 0, 0, 0, 0 };
   is.read(rest, 5);
   lame_id_[4] = rest[0]; lame_id_[5] = rest[1]; lame_id_[6] = rest[2];
   lame_id_[7] = rest[3]; lame_id_[8] = rest[4];
 
-  char b;
+  char b = 0;
   is.read(&b, 1);
   vbr_method_ = vbr_method_for_bits(b & 0xf);
 
@@ -183,7 +183,7 @@ scribbu::lame_mp3_tag::lame_mp3_tag(char tag_id[], std::istream &is)
 
   is.seekg(7, std::ios_base::cur);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   is.read((char*)&nl, 4);
   size_bytes_ = ntohl(nl);
 }
@@ -341,7 +341,7 @@ scribbu::mp3_audio_frame::parse_header(std::uint8_t hdr[4], std::istream &is)
 
     // protected?
     if ((hdr[1] & 0x01) == 0) {
-      std::uint16_t crc;
+      std::uint16_t crc = 0;
       is.read((char*)&crc, 2);
       crc_ = ntohs(crc);
     }
@@ -575,7 +575,7 @@ scribbu::find_sync(std::istream &is)
   is.exceptions(EXC_MASK);
 
   std::istream::pos_type here = is.tellg();
-  std::uint8_t buf[2];
+  std::uint8_t buf[2] = { 0, 0 };
   is.read((char*)buf, 2);
   bool hit = is_sync(buf);
   while (is && !hit) {
@@ -602,7 +602,7 @@ scribbu::get_mp3_duration(std::istream &is)
 
   std::istream::pos_type here = is.tellg();
 
-  std::uint8_t hdr[4];
+  std::uint8_t hdr[4] = { 0, 0, 0, 0 };
   is.read((char*)hdr, 4);
   if (is && !is_sync(hdr)) {
     find_sync(is);
-- 
2.43.0


From 9a64fb2eb7584ac53ffa687ee47162bd8a35f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 051/174] fix: Don't miss an MP3 frame starting within four
 bytes of the track

---
 scribbu/mp3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 1436d5a..afe170b 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -605,6 +605,8 @@ scribbu::get_mp3_duration(std::istream &is)
   std::uint8_t hdr[4] = { 0, 0, 0, 0 };
   is.read((char*)hdr, 4);
   if (is && !is_sync(hdr)) {
+    // The sync could begin at any byte.
+    is.seekg(here, std::ios_base::beg);
     find_sync(is);
     is.read((char*)hdr, 4);
   }
-- 
2.43.0


From 7ce19f5fcaff1657c9ede21f958b506fe60acd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 052/174] fix: Restore the stream's exception mask after
 computing a duration

---
 scribbu/mp3.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index afe170b..d91c1e1 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -75,6 +75,28 @@ namespace {
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
       (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
+
+  /// Restore a stream's exception mask on exit from a scope, without throwing
+  /// on account of whatever state the stream is in by then
+  class exc_mask_restorer
+  {
+  public:
+    explicit exc_mask_restorer(std::istream &is):
+      is_(is), mask_(is.exceptions())
+    { }
+    ~exc_mask_restorer()
+    {
+      try {
+        is_.exceptions(mask_);
+      } catch (const std::ios_base::failure&) {
+        // The mask is in place, regardless.
+      }
+    }
+
+  private:
+    std::istream &is_;
+    std::ios_base::iostate mask_;
+  };
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -570,7 +592,7 @@ scribbu::find_sync(std::istream &is)
 
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
-  std::ios_base::iostate exc_mask = is.exceptions();
+  exc_mask_restorer restore(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
@@ -596,7 +618,7 @@ scribbu::get_mp3_duration(std::istream &is)
 
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
-  std::ios_base::iostate exc_mask = is.exceptions();
+  exc_mask_restorer restore(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
@@ -645,7 +667,5 @@ scribbu::get_mp3_duration(std::istream &is)
     dur = double(num) * double(num_frames) / double(den);
   }
 
-  is.exceptions(exc_mask);
-
   return dur;
 }
-- 
2.43.0


From f1750fabdb5221f60521252aee8f0a655505bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 053/174] fix: Leave the stream just past the last MP3 frame
 after computing a duration

---
 scribbu/mp3.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index d91c1e1..cb08a77 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -655,9 +655,12 @@ scribbu::get_mp3_duration(std::istream &is)
     size_t num_frames = 1; // one frame so far
 
     for ( ; ; ++num_frames) {
+      std::istream::pos_type end = is.tellg();
       is.read((char*)hdr, 4);
       if (!is || !is_sync(hdr)) {
+        // Leave the get ptr just past the last frame
         is.clear();
+        is.seekg(end, std::ios_base::beg);
         break;
       }
       // construct a "throwaway" frame just to skip the get ptr past a legit MP3
-- 
2.43.0


From 144a3c1dce7d5f866b21083cf33f0a72cf572768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 054/174] fix: Leave the stream at the end of the track after
 reading track data

---
 scribbu/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c9c4f67..6783646 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -315,8 +315,8 @@ scribbu::track_data::track_data(std::istream &is) :
   }
 
   // Finally, patch-up the istream according to this method's contract.
-  is.seekg(tag, std::ios_base::beg);
   is.clear(); // `eof' may be set
+  is.seekg(tag, std::ios_base::beg);
   is.exceptions(exc_mask);
 }
 
-- 
2.43.0


From b74712542cbed9847d21ed125542aa10c0909ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 055/174] fix: Compute MD5 checksums in a buffer of the
 caller's own

---
 scribbu/scribbu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 6783646..de8f015 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -236,7 +236,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
 
   const std::size_t BUFSIZE = 4 * 1024 * 1024; // Four megabytes
 
-  static unsigned char BUF[BUFSIZE];
+  std::vector<unsigned char> buf(BUFSIZE);
 
   // Compute an MD5 checksum of the file contents from 'here' to 'tag'
   EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
@@ -253,8 +253,8 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
 
     std::streamsize nbytes = BUFSIZE > nleft ? nleft : BUFSIZE;
 
-    is.read((char*)BUF, nbytes);
-    if (! EVP_DigestUpdate(mdctx, BUF, nbytes)) {
+    is.read((char*)buf.data(), nbytes);
+    if (! EVP_DigestUpdate(mdctx, buf.data(), nbytes)) {
       EVP_MD_CTX_destroy(mdctx);
       throw new openssl_error();
     }
-- 
2.43.0


From 1f8d223484854cbb8fa4f57d0bf3b758bd2573a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 056/174] fix: Throw OpenSSL errors by value

---
 scribbu/scribbu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index de8f015..fa29016 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -241,12 +241,12 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   // Compute an MD5 checksum of the file contents from 'here' to 'tag'
   EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
   if (! mdctx) {
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   if (! EVP_DigestInit_ex(mdctx, EVP_md5(), 0)) {
     EVP_MD_CTX_destroy(mdctx);
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   for (std::streamsize nleft = tag - here; nleft > 0; ) {
@@ -256,7 +256,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
     is.read((char*)buf.data(), nbytes);
     if (! EVP_DigestUpdate(mdctx, buf.data(), nbytes)) {
       EVP_MD_CTX_destroy(mdctx);
-      throw new openssl_error();
+      throw openssl_error();
     }
 
     nleft -= nbytes;
-- 
2.43.0


From 6b2dc9859b2106ba72cc88b33059ebd1bb71d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:03 +0000
Subject: [PATCH 057/174] fix: Size ID3v1 comments for the format of their tag

---
 scribbu/id3v1.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 56651f9..ecb6a26 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -384,7 +384,8 @@ namespace scribbu {
     {
       encoding dst = dstenc ? dstenc.get() : encoding_from_system_locale();
       comment_ = convert_encoding(text, srcenc, dst, add_bom, rsp);
-      comment_.resize(enhanced() ? TEXT_SZ_ENH : TEXT_SZ, 0);
+      // Comments are *not* longer in the enhanced tag
+      comment_.resize(v1_1() ? TEXT_SZ - 2 : TEXT_SZ, 0);
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -549,6 +550,7 @@ namespace scribbu {
     {
       track_number_ = track;
       v1_1_ = true;
+      comment_.resize(TEXT_SZ - 2, 0);
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a5b244b99249f48456065a43feeda759b46f467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:32 +0000
Subject: [PATCH 058/174] fix: Make room for all the enhanced fields when an
 ID3v1 tag becomes enhanced

---
 scribbu/id3v1.hh | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index ecb6a26..96c2051 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -432,7 +432,7 @@ namespace scribbu {
       ext_genre_ = convert_encoding<string_type>(text, srcenc, dst, add_bom,
                                                  rsp);
       ext_genre_.resize(TEXT_SZ, 0);
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -446,7 +446,7 @@ namespace scribbu {
     void set_speed(unsigned char speed)
     {
       speed_ = speed;
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -475,7 +475,7 @@ namespace scribbu {
       while (i < 6) {
         start_time_[i++] = 0;
       }
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -505,7 +505,7 @@ namespace scribbu {
       while (i < 6) {
         end_time_[i++] = 0;
       }
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -611,6 +611,15 @@ namespace scribbu {
     static const std::size_t ID3V1_TAG_SIZE = 128U;
     static const std::size_t ID3V1_EXT_TAG_SIZE = 355U;
 
+    /// Make this an enhanced tag, with all fields sized accordingly
+    void extend()
+    {
+      extended_ = true;
+      album_.resize(TEXT_SZ_ENH, 0);
+      artist_.resize(TEXT_SZ_ENH, 0);
+      title_.resize(TEXT_SZ_ENH, 0);
+      ext_genre_.resize(TEXT_SZ, 0);
+    }
     void init_standard(unsigned char *p);
     void init_extended(unsigned char *p);
 
-- 
2.43.0


From 04ed9cc2d1256afd1a83ac711faa37b623edc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:32 +0000
Subject: [PATCH 059/174] fix: Initialise all the fields of an ID3v1 tag

---
 scribbu/id3v1.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 96c2051..217cee1 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -632,11 +632,11 @@ namespace scribbu {
     std::vector<unsigned char>   comment_;
     unsigned char                genre_;
     std::vector<unsigned char>   ext_genre_;
-    std::array<unsigned char, 6> start_time_;
-    std::array<unsigned char, 6> end_time_;
-    unsigned char                speed_;
+    std::array<unsigned char, 6> start_time_ = { };
+    std::array<unsigned char, 6> end_time_ = { };
+    unsigned char                speed_ = 0;
     std::vector<unsigned char>   title_;
-    unsigned char                track_number_;
+    unsigned char                track_number_ = 0;
     std::array<unsigned char, 4> year_;
 
 
-- 
2.43.0


From 6c603ae7b600c3ba21148deaf2591b8326371bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:32 +0000
Subject: [PATCH 060/174] fix: Restore the stream when an ID3v1 tag can't be
 read from it

---
 scribbu/id3v1.cc | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 7bc8875..ba479f8 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -44,6 +44,20 @@ scribbu::id3v1_tag::invalid_tag::what() const noexcept(true)
 //                         class id3v1_tag                                  //
 //////////////////////////////////////////////////////////////////////////////
 
+namespace {
+
+  /// Return a stream to the state it was in before we began reading from it
+  void
+  restore(std::istream &is, std::streampos here, std::ios_base::iostate exc_mask)
+  {
+    is.exceptions(std::ios_base::goodbit);
+    is.clear();
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+  }
+
+}
+
 /*static*/ const boost::optional<scribbu::encoding>
 scribbu::id3v1_tag::DEF_SRC_ENCODING(encoding::ASCII);
 
@@ -114,10 +128,11 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is)
     is.exceptions(exc_mask);
 
   } catch (const std::istream::failure &ex) {
-    is.exceptions(std::ios_base::goodbit);
-    is.seekg(here, std::ios_base::beg);
-    is.exceptions(exc_mask);
+    restore(is, here, exc_mask);
     throw invalid_tag();
+  } catch (const invalid_tag&) {
+    restore(is, here, exc_mask);
+    throw;
   }
 
 }
@@ -147,11 +162,15 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is,
       init_standard(buf);
     }
 
-  } catch (const std::istream::failure &ex) {
-    is.exceptions(std::ios_base::goodbit);
-    is.seekg(here, std::ios_base::beg);
+    // Restore the exception mask
     is.exceptions(exc_mask);
-    throw invalid_tag();;
+
+  } catch (const std::istream::failure &ex) {
+    restore(is, here, exc_mask);
+    throw invalid_tag();
+  } catch (const invalid_tag&) {
+    restore(is, here, exc_mask);
+    throw;
   }
 
 }
-- 
2.43.0


From 6de279652e642eab6ca935091305451050a85411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:32 +0000
Subject: [PATCH 061/174] fix: Don't take audio for an enhanced ID3v1 tag

---
 scribbu/id3v1.cc   |  9 +++++++--
 scribbu/scribbu.cc | 12 +++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index ba479f8..2d25b68 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -502,8 +502,13 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       is.seekg(-355, std::ios_base::end);
       is.read(buf, 4);
       if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-        I.start_ = is.tellg() - (std::streampos) 4;
-        I.type_ = id3_v1_tag_type::v_1_extended;
+        // The enhanced tag always precedes the standard tag
+        is.seekg(-128, std::ios_base::end);
+        is.read(buf, 3);
+        if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+          I.start_ = I.end_ - (std::streamoff) 355;
+          I.type_ = id3_v1_tag_type::v_1_extended;
+        }
       }
     }
   }
diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index fa29016..c643fe7 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -166,9 +166,15 @@ scribbu::find_id3v1_tag(std::istream &is)
     is.seekg(-355, std::ios_base::end);
     is.read(buf, 4);
     if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-      // ID3v1 extended tag at `tag'; stream ptr at `tag' + 4.
-      tag = is.tellg() - (std::streampos) 4;
-      tag_type = id3_v1_tag_type::v_1_extended;
+      // The extended tag always precedes the standard tag
+      std::streampos ext = is.tellg() - (std::streampos) 4;
+      is.seekg(-128, std::ios_base::end);
+      is.read(buf, 3);
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+        // ID3v1 extended tag at `tag'; stream ptr at `tag' + 230.
+        tag = ext;
+        tag_type = id3_v1_tag_type::v_1_extended;
+      }
     }
   }
   catch (const std::ios_base::failure &ex) {
-- 
2.43.0


From 8edb9ed42abd725b1bf880d807feafa931a81411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:32 +0000
Subject: [PATCH 062/174] fix: Locate the end of the track in streams too small
 for an ID3v1 tag

---
 scribbu/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c643fe7..90fe21f 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -184,7 +184,7 @@ scribbu::find_id3v1_tag(std::istream &is)
     is.clear();
     is.seekg(0, std::ios_base::end);
     tag = is.tellg();
-    is.exceptions(exc_mask);
+    is.exceptions(EXC_MASK);
   }
 
   if (id3_v1_tag_type::none == tag_type) {
-- 
2.43.0


From 8f3162996d31b6f3aa517d80b9291d525948a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:32 +0000
Subject: [PATCH 063/174] fix: Don't take part of an ID3v2 tag for an ID3v1 tag
 when measuring tracks

---
 scribbu/scribbu.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 90fe21f..308bb77 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -213,6 +213,12 @@ scribbu::find_id3v1_tag(std::istream &is)
 
   }
 
+  if (tag < here) {
+    // What looks like an ID3v1 tag begins before the track does
+    is.seekg(0, std::ios_base::end);
+    tag = is.tellg();
+  }
+
   is.exceptions(exc_mask);
 
   return std::make_tuple(here, tag);
-- 
2.43.0


From 81ff8cc4d13e3169a3d440d7ee132b65e4221671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:32 +0000
Subject: [PATCH 064/174] fix: Restore the read pointer after reading an ID3v1
 tag, as documented

---
 scribbu/id3v1.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 2d25b68..57d4a24 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -549,8 +549,10 @@ scribbu::process_id3v1(std::istream &is)
   std::unique_ptr<scribbu::id3v1_tag> p;
   scribbu::id3v1_info I = scribbu::ends_in_id3v1(is);
   if (id3_v1_tag_type::none != I.type_) {
+    std::streampos here = is.tellg();
     is.seekg(I.start_);
     p.reset(new id3v1_tag(is));
+    is.seekg(here, std::ios_base::beg);
   }
   return p;
 }
-- 
2.43.0


From 8716362ffe181d2bd9e31b1ed3d9e87d2b50de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 065/174] fix: Don't serialize stale copies of frames that have
 been modified

---
 scribbu/framesv22.cc |  2 ++
 scribbu/framesv22.hh | 12 ++++++++++++
 scribbu/framesv23.cc |  2 ++
 scribbu/framesv23.hh | 12 ++++++++++++
 scribbu/framesv24.cc |  2 ++
 scribbu/framesv24.hh | 12 ++++++++++++
 6 files changed, 42 insertions(+)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 055eeed..3b85bdd 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -327,6 +327,8 @@ scribbu::id3v2_2_text_frame::set(const std::string &text,
                                  bool add_bom /*=false*/,
                                  on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
+  dirty(true);
+
   // Attempt to convert to ISO-8859-1 first
   bool ok;
   std::vector<unsigned char> test;
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index 9645175..9e0ca5c 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -625,6 +625,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
@@ -660,6 +663,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
@@ -709,6 +715,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
@@ -759,6 +768,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 865b242..0d39f78 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -555,6 +555,8 @@ scribbu::id3v2_3_text_frame::set(const std::string &text,
                                  bool add_bom /*=false*/,
                                  on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
+  dirty(true);
+
   // Attempt to convert to ISO-8859-1 first
   bool ok;
   std::vector<unsigned char> test;
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index ff6066b..b800ed5 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -1048,6 +1048,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
@@ -1103,6 +1106,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
@@ -1175,6 +1181,9 @@ namespace scribbu {
     }
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
@@ -1264,6 +1273,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
     virtual std::size_t serialize(std::ostream &os) const;
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 479016e..c180687 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -376,6 +376,8 @@ scribbu::id3v2_4_text_frame::set(const std::string &text,
                                  bool add_bom /*=false*/,
                                  on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
+  dirty(true);
+
   std::vector<unsigned char> data =
     scribbu::convert_encoding(text, src, encshim(dst), add_bom, rsp);
 
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 8499e3f..1aec164 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -787,6 +787,9 @@ namespace scribbu {
     }
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -850,6 +853,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -928,6 +934,9 @@ namespace scribbu {
     }
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -1014,6 +1023,9 @@ namespace scribbu {
     virtual std::size_t size() const;
 
   protected:
+    /// There's no way to know whether our other base class has been modified
+    virtual bool is_dirty() const
+    { return true; }
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
-- 
2.43.0


From 0815d2b4d828daf54a37db11bb04ac32e01c0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 066/174] fix: Read play counts of any length

---
 scribbu/framesv2.cc | 58 +++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 1e43696..d0d53ad 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -31,8 +31,28 @@
 #include <arpa/inet.h>
 #include <cmath> // for `log2()`
 #include <iconv.h>
+#include <limits>
 
 
+namespace {
+
+  /// Interpret a sequence of octets of any length as a big-endian integer; throw
+  /// if it can't be represented as a size_t
+  std::size_t
+  count_from_octets(const std::vector<unsigned char> &octets)
+  {
+    std::size_t x = 0;
+    for (unsigned char c: octets) {
+      if (x > (std::numeric_limits<std::size_t>::max() >> 8)) {
+        throw std::domain_error("CNT overflow");
+      }
+      x = (x << 8) | c;
+    }
+    return x;
+  }
+
+}
+
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
@@ -1065,24 +1085,7 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
-  }
-  return x;
+  return count_from_octets(counter_);
 }
 
 std::size_t
@@ -1150,24 +1153,7 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
-  }
-  return x;
+  return count_from_octets(counter_);
 }
 
 std::size_t
-- 
2.43.0


From 37599fe8133c25d6bd3962345546a516f08346fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 067/174] fix: Size play counts exactly

---
 scribbu/framesv2.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index d0d53ad..9759439 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -29,7 +29,6 @@
 #include <boost/static_assert.hpp>
 
 #include <arpa/inet.h>
-#include <cmath> // for `log2()`
 #include <iconv.h>
 #include <limits>
 
@@ -1135,7 +1134,10 @@ scribbu::play_count::reset_counter(std::size_t n)
     return;
   }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 0;
+  for (size_t m = n; m; m >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
@@ -1224,7 +1226,10 @@ scribbu::popularimeter::reset_counter(std::size_t n)
     return;
   }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 0;
+  for (size_t m = n; m; m >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
-- 
2.43.0


From 44acb5046fb520a6bc30f895b9b25da927622b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 068/174] fix: Don't let play counts wrap around

---
 scribbu/framesv2.hh | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 2d1fac9..dbd42c1 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -60,6 +60,7 @@
  *
  */
 
+#include <limits>
 #include <arpa/inet.h>
 
 #include <algorithm>
@@ -857,7 +858,12 @@ namespace scribbu {
     { reset_counter(n); }
     /// Increment the count by one
     void inc()
-    { count(count() + 1); }
+    {
+      if (std::numeric_limits<std::size_t>::max() == count()) {
+        throw std::domain_error("play count overflow");
+      }
+      count(count() + 1);
+    }
 
     /// Return the size, in bytes, of this structure, prior to
     /// desynchronisation, compression, and/or encryption exclusive of the
@@ -945,7 +951,12 @@ namespace scribbu {
     { reset_counter(n); }
     /// Increment the play count by one
     void inc()
-    { count(count() + 1); }
+    {
+      if (std::numeric_limits<std::size_t>::max() == count()) {
+        throw std::domain_error("play count overflow");
+      }
+      count(count() + 1);
+    }
 
     /// Return the size, in bytes, of the frame, prior to desynchronisation,
     /// compression, and/or encryption exclusive of the header
-- 
2.43.0


From 06a61773be2e24c8357ec4bae1581664f334d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 069/174] fix: Write the null terminating the owner of an
 encryption method

---
 scribbu/framesv2.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 9759439..927528e 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -727,11 +727,12 @@ scribbu::encryption_method::write(std::ostream &os) const
   if (!email_.empty()) {
     os.write((const char*)&(email_[0]), email_.size());
   }
+  os.write(&zed, 1);
   os.write((const char*)&method_symbol_, 1);
   if (!data_.empty()) {
     os.write((const char*)&(data_[0]), data_.size());
   }
-  return email_.size() + 1 + data_.size();
+  return email_.size() + 1 + 1 + data_.size();
 
 }
 
-- 
2.43.0


From 9ee48d4622c7343bf1602b3d036509fde9f81fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 070/174] fix: Label UTF-8 user-defined text as such

---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 927528e..838a456 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -810,13 +810,13 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
       cbnil_ = 1;
       break;
     case use_unicode::yes:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = false;
       cbnil_ = 1;
       break;
     case use_unicode::with_bom:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = true;
       cbnil_ = 1;
-- 
2.43.0


From 326c92e2b4f9eb80cd4cb145b2f14ef841f54c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 071/174] fix: Remember the encoding of comments built from
 scratch

---
 scribbu/framesv2.cc  | 3 +++
 scribbu/framesv23.hh | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 838a456..19ae1a0 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -970,6 +970,9 @@ scribbu::comments::comments(id3v2_version ver,
     }
   }
 
+  ver_ = ver;
+  dst_enc_ = dst;
+
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
     description_ = convert_encoding(dsc, src, dst, add_bom);
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index b800ed5..fe82a15 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -997,7 +997,7 @@ namespace scribbu {
          const id_type          &gid,
          const std::string      &dsc = std::string()):
       id3v2_3_frame("COMM", tap, fap, ro, encmth, gid, boost::none),
-      comments(id3v2_version::v2, lang, text, src, unicode, dsc)
+      comments(id3v2_version::v3, lang, text, src, unicode, dsc)
     { }
 
     virtual id3v2_3_frame* clone() const
-- 
2.43.0


From c3fc31655520ed74251838d581682398975c8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 072/174] fix: Count the syncs in tag clouds correctly

---
 scribbu/framesv2.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 19ae1a0..e005a95 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -70,6 +70,8 @@ scribbu::detail::count_syncs(std::uint32_t n, bool false_only)
   using namespace std;
 
   size_t count = 0;
+  // `n' will be serialized in network byte order
+  n = htonl(n);
   const unsigned char *p = (const unsigned char*)&n;
   for (ptrdiff_t i = 0; i < 3; ++i) {
     if (false_only) {
@@ -1476,7 +1478,7 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
     // Now, if the last octet of `nval' happens to be 0xff _and_ false_only
     // is true, we _could_ have a false sync between the value byte count &
     // the first string.
-    if (false_only) {
+    if (false_only && !kv.second.empty() && !kv.second.begin()->empty()) {
       unsigned char y = (unsigned char)(kv.second.begin()->front());
       if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
         ++nsync;
-- 
2.43.0


From 010d566e47e572ea2ea2a9c0653936b8b9d87761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:37 +0000
Subject: [PATCH 073/174] fix: Parse an empty tag cloud as such

---
 scribbu/framesv2.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index e005a95..9e615c3 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1495,6 +1495,11 @@ scribbu::tag_cloud::parse_to_map(const std::string &text,
 {
   using namespace std;
 
+  // No text, no tags
+  if (text.empty()) {
+    return;
+  }
+
   // Parse using a simple FSM:
   bool parsing_key = true;
 
-- 
2.43.0


From 3520ac1f1da07327603310b289d0f2dab75b9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:13 +0000
Subject: [PATCH 074/174] fix: Keep Scheme objects where the garbage collector
 can see them

While reading a tagset, newly made tags, frames & tag cloud values were
held in a std::vector, whose storage the collector does not scan. A
collection in the middle of the read could reclaim them.
---
 scribbu/scheme-serde.cc | 42 ++++++++++++++++++-------------------
 scribbu/scheme.cc       | 46 ++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 45 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 333f5cb..d693122 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -659,13 +659,13 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      SCM vals = SCM_EOL;
+      for (const string &s: kv.second) {
+        vals = scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                         SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                        vals);
+      }
+      SCM scm_vals = scm_reverse_x(vals, SCM_EOL);
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
@@ -688,13 +688,13 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      SCM vals = SCM_EOL;
+      for (const string &s: kv.second) {
+        vals = scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                         SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                        vals);
+      }
+      SCM scm_vals = scm_reverse_x(vals, SCM_EOL);
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
@@ -717,13 +717,13 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      SCM vals = SCM_EOL;
+      for (const string &s: kv.second) {
+        vals = scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                         SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                        vals);
+      }
+      SCM scm_vals = scm_reverse_x(vals, SCM_EOL);
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index c896cc5..727ed9b 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -89,8 +89,10 @@ namespace {
     }
 
     // Now for frames-- I'm going to do this in steps. First: we need to cast
-    // `p' to a concrete type in order to get at the frames:
-    vector<SCM> frames;
+    // `p' to a concrete type in order to get at the frames. Nb. the garbage
+    // collector scans neither the C++ heap nor, therefore, the contents of a
+    // `vector'-- accumulate them in a Scheme list (in reverse order).
+    SCM frames = SCM_EOL;
     scheme_serde_dispatcher D;
     if (2 == version) {
 
@@ -101,10 +103,9 @@ namespace {
                   scm_from_int(version), SCM_BOOL_F);
       }
 
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_2_frame &f) {
-                  return D.de_2_2(f, unsync);
-                });
+      for (const id3v2_2_frame &f: *ptag) {
+        frames = scm_cons(D.de_2_2(f, unsync), frames);
+      }
 
 
     } else if (3 == version) {
@@ -117,10 +118,9 @@ namespace {
       }
 
       SCM_SET_SLOT(x, 0, scm_from_bool(ptag->experimental() ? 1 : 0));
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_3_frame &f) {
-                  return D.de_2_3(f, unsync);
-                });
+      for (const id3v2_3_frame &f: *ptag) {
+        frames = scm_cons(D.de_2_3(f, unsync), frames);
+      }
 
 
     } else if (4 == version) {
@@ -134,10 +134,9 @@ namespace {
 
       SCM_SET_SLOT(x, 0, scm_from_bool(ptag->experimental() ? 1 : 0));
 
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_4_frame &f) {
-                  return D.de_2_4(f, unsync);
-                });
+      for (const id3v2_4_frame &f: *ptag) {
+        frames = scm_cons(D.de_2_4(f, unsync), frames);
+      }
 
 
     } else {
@@ -147,7 +146,7 @@ namespace {
 
     }
 
-    SCM_SET_SLOT(x, 1, scm_list_for_range(frames.begin(), frames.end()));
+    SCM_SET_SLOT(x, 1, scm_reverse_x(frames, SCM_EOL));
     SCM_SET_SLOT(x, 2, scm_from_uint(p->padding()));
 
     return scm_list_3(x, scm_from_int(version), scm_from_bool(unsync));
@@ -419,15 +418,14 @@ extern "C" {
 
       // 2. transform that collection of C++ id3v2_tag instances into a collection
       // of Scheme <id3v2-tag> instances
-      vector<SCM> tags;
-      transform(v2.begin(), v2.end(), back_inserter(tags),
-                [](const unique_ptr<id3v2_tag>&p) {
-                  return scm_from_id3v2_tag(p.get());
-                });
-
-      // 3. finally, take that collection of SCMs and build them into a Scheme
-      // list
-      return scm_list_for_range(tags.begin(), tags.end());
+      // (kept in a Scheme list, where the garbage collector will see them)
+      SCM tags = SCM_EOL;
+      for (const unique_ptr<id3v2_tag> &p: v2) {
+        tags = scm_cons(scm_from_id3v2_tag(p.get()), tags);
+      }
+
+      // 3. finally, put that list in order
+      return scm_reverse_x(tags, SCM_EOL);
 
     }
     catch (const exception &ex) {
-- 
2.43.0


From a3fe20666d196e2c5d7ab0f209a17e54e46dc7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:26 +0000
Subject: [PATCH 075/174] fix: Write ID3v2.2 & ID3v2.4 tag clouds from Scheme

Tag clouds are read as association lists of (KEY . VALUES), but only the
ID3v2.3 code wrote them that way. The others took the first value for
the list of values & treated the C integer 0 as a Scheme one.
---
 scribbu/scheme-serde.cc | 126 ++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 81 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index d693122..00e7c0a 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1229,37 +1229,64 @@ namespace {
                                                   boost::none));
   }
 
-  std::unique_ptr<scribbu::id3v2_2_frame>
-  ser_xtag_2_2(SCM scm)
+  /// Convert an association list mapping strings to strings (or to lists of
+  /// strings) to a tag cloud
+  std::map<std::string, std::set<std::string>>
+  ser_tag_cloud(SCM scm_tags, scribbu::dynwind_context &ctx)
   {
     using namespace std;
-    using namespace scribbu;
-
-    dynwind_context ctx;
-    ser_frame_2_2("<tag-cloud-frame>", scm, ctx);
-
-    string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
 
     map<string, set<string>> M;
-    SCM scm_tags = SCM_SLOT(scm, 6);
 
     for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
 
-      SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
+      SCM pair   = scm_list_ref(scm_tags, scm_from_int(i));
+      SCM first  = scm_car(pair);
+      SCM second = scm_cdr(pair);
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(first);
 
+      // Could be a string, or a list of strings
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
-      for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
-        SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
-        string val = ctx.free_utf8_string(scm_val);
-        vals.insert(val);
+
+      if (scm_string_p(second) == SCM_BOOL_T) {
+
+        vals.insert(ctx.free_utf8_string(second));
+
+      } else if (scm_list_p(second) == SCM_BOOL_T) {
+
+        SCM scm_len = scm_length(second);
+        int m = scm_to_int(scm_len);
+
+        for (int j = 0; j < m; ++j) {
+          SCM scm_val = scm_list_ref(second, scm_from_int(j));
+          string val = ctx.free_utf8_string(scm_val);
+          vals.insert(val);
+        }
+
+      } else {
+        throw std::runtime_error("unknown type");
       }
 
       M[key] = vals;
     }
 
+    return M;
+  }
+
+  std::unique_ptr<scribbu::id3v2_2_frame>
+  ser_xtag_2_2(SCM scm)
+  {
+    using namespace std;
+    using namespace scribbu;
+
+    dynwind_context ctx;
+    ser_frame_2_2("<tag-cloud-frame>", scm, ctx);
+
+    string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
+
+    map<string, set<string>> M = ser_tag_cloud(SCM_SLOT(scm, 6), ctx);
+
     return unique_ptr<id3v2_2_frame>(new XTG(own, M.begin(), M.end()));
   }
 
@@ -1286,52 +1313,7 @@ namespace {
 
     string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
 
-    map<string, set<string>> M;
-    SCM scm_tags = SCM_SLOT(scm, 6);
-
-    for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
-
-      SCM pair   = scm_list_ref(scm_tags, scm_from_int(i));
-      SCM first  = scm_list_ref(pair, scm_from_int(0));
-      SCM second = scm_list_tail(pair, scm_from_int(1));
-
-      string key = ctx.free_utf8_string(first);
-
-
-      SCM test = scm_string_p(second);
-      bool ftest = SCM_BOOL_T == test;
-      test = scm_list_p(second);
-      ftest = SCM_BOOL_T == test;
-
-      SCM scm_cls = scm_class_of(second);
-      test = scm_variable_p(scm_cls);
-      ftest = (SCM_BOOL_T == test);
-
-
-      // Could be a string, or a list of strings
-      set<string> vals;
-
-      if (scm_string_p(second) == SCM_BOOL_T) {
-
-        vals.insert(ctx.free_utf8_string(second));
-
-      } else if (scm_list_p(second) == SCM_BOOL_T) {
-
-        SCM scm_len = scm_length(second);
-        int m = scm_to_int(scm_len);
-
-        for (int j = 0; j < m; ++j) {
-          SCM scm_val = scm_list_ref(second, scm_from_int(j));
-          string val = ctx.free_utf8_string(scm_val);
-          vals.insert(val);
-        }
-
-      } else {
-        throw std::runtime_error("unknown type");
-      }
-
-      M[key] = vals;
-    }
+    map<string, set<string>> M = ser_tag_cloud(SCM_SLOT(scm, 6), ctx);
 
     return unique_ptr<id3v2_3_frame>(new XTAG(own, M.begin(), M.end(),
                                               tap, fap, ro, boost::none,
@@ -1363,25 +1345,7 @@ namespace {
 
     string own = ctx.free_utf8_string(SCM_SLOT(scm, 5));
 
-    map<string, set<string>> M;
-    SCM scm_tags = SCM_SLOT(scm, 6);
-
-    for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
-
-      SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
-
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
-
-      set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
-      for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
-        SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
-        string val = ctx.free_utf8_string(scm_val);
-        vals.insert(val);
-      }
-
-      M[key] = vals;
-    }
+    map<string, set<string>> M = ser_tag_cloud(SCM_SLOT(scm, 6), ctx);
 
     return unique_ptr<id3v2_4_frame>(new XTAG_2_4(own, M.begin(), M.end(),
                                                   tap, fap, ro, boost::none,
-- 
2.43.0


From 6dfefdf24765699a2aaf3fee9f0062f50398f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:26 +0000
Subject: [PATCH 076/174] fix: Take an unknown frame's unsynchronisation flag
 from its own slot

---
 scribbu/scheme-serde.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 00e7c0a..903b70d 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -2034,7 +2034,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
     ro = read_only::set;
   }
   bool unsync = false;
-  if (SCM_BOOL_T == SCM_SLOT(scm, 3)) {
+  if (SCM_BOOL_T == SCM_SLOT(scm, 4)) {
     unsync = true;
   }
 
-- 
2.43.0


From daddfe1f499d18ef37010408c6bd028cc781c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:16 +0000
Subject: [PATCH 077/174] fix: Preserve the payloads of unknown frames in
 Scheme

The data of an <unk-frame> is a frame header followed by its payload.
The header is dropped on writing on the assumption that it takes six or
ten bytes, but additional header fields were included, & the bytes of an
unsynchronised tag were unsynchronised twice. Too little data was read
past its end.
---
 scribbu/scheme-serde.cc | 50 +++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 903b70d..bc21e09 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -248,6 +248,32 @@ void scribbu::init_symbols() {
 
 namespace {
 
+  /// Return a frame header of  cb_header bytes followed by the frame's
+  /// payload, with neither compression nor unsynchronisation applied
+  template <typename frame_type>
+  std::string
+  frame_data(const frame_type &f, std::size_t cb_header)
+  {
+    std::stringstream stm;
+    f.write(stm, false);
+    std::string s = stm.str(), data = s.substr(0, cb_header);
+
+    if (auto p = dynamic_cast<const scribbu::unknown_id3v2_2_frame*>(&f)) {
+      p->data(std::back_inserter(data));
+    } else if (auto p = dynamic_cast<const scribbu::unknown_id3v2_3_frame*>(&f)) {
+      p->data(std::back_inserter(data));
+    } else if (auto p = dynamic_cast<const scribbu::unknown_id3v2_4_frame*>(&f)) {
+      p->data(std::back_inserter(data));
+    } else {
+      std::size_t cb = f.size();
+      if (cb > s.length()) {
+        throw std::logic_error("compressed frame");
+      }
+      data += s.substr(s.length() - cb);
+    }
+    return data;
+  }
+
   SCM
   init_frame(const std::string &cls, SCM id)
   {
@@ -1855,10 +1881,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_2(const scribbu::id3v2_2_fr
   SCM_SET_SLOT(x, 0, sym_unknown_frame);
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
-  std::stringstream stm;
-  f.write(stm, unsync);
-  std::string s = stm.str();
-
+  std::string s = frame_data(f, 6);
   SCM bv = scm_c_make_bytevector(s.length());
   memcpy(SCM_BYTEVECTOR_CONTENTS(bv), s.data(), s.length());
 
@@ -1891,10 +1914,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_3(const scribbu::id3v2_3_fr
                SCM_BOOL_T : SCM_BOOL_F);
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
-  std::stringstream stm;
-  f.write(stm, unsync);
-  std::string s = stm.str();
-
+  std::string s = frame_data(f, 10);
   SCM bv = scm_c_make_bytevector(s.length());
   memcpy(SCM_BYTEVECTOR_CONTENTS(bv), s.data(), s.length());
 
@@ -1928,10 +1948,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   SCM_SET_SLOT(x, 4, f.unsynchronised() ? SCM_BOOL_T : SCM_BOOL_F);
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
-  std::stringstream stm;
-  f.write(stm, unsync);
-  std::string s = stm.str();
-
+  std::string s = frame_data(f, 10);
   SCM bv = scm_c_make_bytevector(s.length());
   memcpy(SCM_BYTEVECTOR_CONTENTS(bv), s.data(), s.length());
 
@@ -1954,6 +1971,9 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 
   size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
   signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
+  if (cb < 6) {
+    throw std::logic_error("frame data too short");
+  }
 
   // The unknown_id3v2_2_frame ctor assumes we've stripped off the
   // frame header-- that's six bytes in v2.2.
@@ -1994,6 +2014,9 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
 
   size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
   signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
+  if (cb < 10) {
+    throw std::logic_error("frame data too short");
+  }
 
   return unique_ptr<id3v2_3_frame>(
     // The unknown_id3v2_3_frame ctor assumes we've stripped off the
@@ -2042,6 +2065,9 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
 
   size_t cb = SCM_BYTEVECTOR_LENGTH(scm_bv);
   signed char *p = SCM_BYTEVECTOR_CONTENTS(scm_bv);
+  if (cb < 10) {
+    throw std::logic_error("frame data too short");
+  }
 
   return unique_ptr<id3v2_4_frame>(
     // The unknown_id3v2_4_frame ctor assumes we've stripped off the
-- 
2.43.0


From f2aba1d419137ddf62631d3a80c885d7daba0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:16 +0000
Subject: [PATCH 078/174] fix: Report Scheme frames that cannot be written

When a frame could not be converted, the reason was discarded & its
slots were taken to be those of an <unk-frame>. For any other class of
frame they are not: a string's representation would be written as if it
were a bytevector's.
---
 scribbu/scheme-serde.cc | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index bc21e09..656922f 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -274,6 +274,18 @@ namespace {
     return data;
   }
 
+  /// Throw if \a scm is not an <unk-frame> with a bytevector for data
+  void
+  check_unknown_frame(SCM scm)
+  {
+    if (!SCM_IS_A_P(scm, scm_c_public_ref("scribbu", "<unk-frame>"))) {
+      throw std::logic_error("not an unknown frame");
+    }
+    if (!scm_is_bytevector(SCM_SLOT(scm, 6))) {
+      throw std::logic_error("frame data must be a bytevector");
+    }
+  }
+
   SCM
   init_frame(const std::string &cls, SCM id)
   {
@@ -1801,11 +1813,7 @@ scribbu::scheme_serde_dispatcher::ser_2_2(SCM scm) const
     pout = move(ser_unknown_frame_2_2(scm));
   } else {
     scribbu::scheme_serde_dispatcher::pfn_from_scm_2_2 pfn = p->second;
-    try {
-      pout = pfn(scm);
-    } catch(const std::exception&) {
-      pout = ser_unknown_frame_2_2(scm);
-    }
+    pout = pfn(scm);
   }
   return pout;
 }
@@ -1830,11 +1838,7 @@ scribbu::scheme_serde_dispatcher::ser_2_3(SCM scm) const
     pout = move(ser_unknown_frame_2_3(scm));
   } else {
     scheme_serde_dispatcher::pfn_from_scm_2_3 pfn = p->second;
-    try {
-      pout = pfn(scm);
-    } catch (const std::exception&) {
-      pout = ser_unknown_frame_2_3(scm);
-    }
+    pout = pfn(scm);
   }
   return pout;
 }
@@ -1860,11 +1864,7 @@ scribbu::scheme_serde_dispatcher::ser_2_4(SCM scm) const
     pout = move(ser_unknown_frame_2_4(scm));
   } else {
     scheme_serde_dispatcher::pfn_from_scm_2_4 pfn = p->second;
-    try {
-      pout = pfn(scm);
-    } catch (const std::exception&) {
-      pout = ser_unknown_frame_2_4(scm);
-    }
+    pout = pfn(scm);
   }
   return pout;
 }
@@ -1963,6 +1963,8 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
   using namespace std;
   using namespace scribbu;
 
+  check_unknown_frame(scm);
+
   dynwind_context ctx;
 
   frame_id3 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
@@ -1987,6 +1989,8 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
   using namespace std;
   using namespace scribbu;
 
+  check_unknown_frame(scm);
+
   typedef id3v2_3_plus_frame::tag_alter_preservation
     tag_alter_preservation;
   typedef id3v2_3_plus_frame::file_alter_preservation
@@ -2033,6 +2037,8 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
   using namespace std;
   using namespace scribbu;
 
+  check_unknown_frame(scm);
+
   typedef id3v2_3_plus_frame::tag_alter_preservation
     tag_alter_preservation;
   typedef id3v2_3_plus_frame::file_alter_preservation
-- 
2.43.0


From b094e908e5d67a1e950aa699632902169bc53eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:16 +0000
Subject: [PATCH 079/174] fix: Put enhanced ID3v1 fields into their own slots

Each was put into the slot before its own, overwriting the track number
& leaving the end time unset.
---
 scribbu/scheme.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 727ed9b..55b3550 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -349,22 +349,22 @@ extern "C" {
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 6, scm_enh_genre);
-        SCM_SET_SLOT(x, 7, scm_from_uchar(speed));
+        SCM_SET_SLOT(x, 7, scm_enh_genre);
+        SCM_SET_SLOT(x, 8, scm_from_uchar(speed));
 
         string start_time = pv1->start_time<string>();
         SCM scm_start_time = scm_from_stringn(start_time.c_str(),
                                               start_time.size(),
                                               "UTF-8",
                                               SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 8, scm_start_time);
+        SCM_SET_SLOT(x, 9, scm_start_time);
 
         string end_time = pv1->end_time<string>();
         SCM scm_end_time = scm_from_stringn(end_time.c_str(),
                                             end_time.size(),
                                             "UTF-8",
                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 9, scm_end_time);
+        SCM_SET_SLOT(x, 10, scm_end_time);
 
       }
 
-- 
2.43.0


From f784488a8a3f1b4a9a4fd60a69590c51fd95ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:16 +0000
Subject: [PATCH 080/174] fix: Write ID3v1 tags from Scheme in the encoding in
 which they're read

read-id3v1-tag takes text to be ISO-8859-1, but write-id3v1-tag wrote
UTF-8, so that any other than ASCII text changed each time a tag was
read & written.
---
 scribbu/scheme.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 55b3550..6eeb0f4 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -345,7 +345,8 @@ extern "C" {
 
       if (ext) {
 
-        string enh_genre = pv1->enh_genre<string>();
+        string enh_genre = pv1->enh_genre<string>(encoding::ISO_8859_1, encoding::UTF_8,
+                                                     on_no_encoding::transliterate);
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
@@ -562,13 +563,13 @@ extern "C" {
       dynwind_context ctx;
 
       SCM scm_title = SCM_SLOT(scm_tag, 0);
-      char *c_title = ctx.free_locale_string(scm_title);
+      char *c_title = ctx.free_utf8_string(scm_title);
 
       SCM scm_artist = SCM_SLOT(scm_tag, 1);
-      char *c_artist = ctx.free_locale_string(scm_artist);
+      char *c_artist = ctx.free_utf8_string(scm_artist);
 
       SCM scm_album = SCM_SLOT(scm_tag, 2);
-      char *c_album = ctx.free_locale_string(scm_album);
+      char *c_album = ctx.free_utf8_string(scm_album);
 
       // This slot can be '() to indicuate "not set"
       char *c_year = 0;
@@ -578,7 +579,7 @@ extern "C" {
       }
 
       SCM scm_comment = SCM_SLOT(scm_tag, 4);
-      char *c_comment = ctx.free_locale_string(scm_comment);
+      char *c_comment = ctx.free_utf8_string(scm_comment);
 
       SCM scm_genre = SCM_SLOT(scm_tag, 5);
       unsigned char genre = scm_to_uchar(scm_genre);
@@ -591,7 +592,7 @@ extern "C" {
       }
 
       SCM scm_enh_genre = SCM_SLOT(scm_tag, 7);
-      char *c_enh_genre = ctx.free_locale_string(scm_enh_genre);
+      char *c_enh_genre = ctx.free_utf8_string(scm_enh_genre);
 
       unsigned char speed = 0;
       SCM scm_speed = SCM_SLOT(scm_tag, 8);
@@ -614,13 +615,13 @@ extern "C" {
       id3v1_tag tag(v11, enh);
 
       if (c_title && 0 != strlen(c_title)) {
-        tag.set_title(c_title, encoding::UTF_8, encoding::UTF_8);
+        tag.set_title(c_title, encoding::UTF_8, encoding::ISO_8859_1);
       }
       if (c_artist && 0 != strlen(c_artist)) {
-        tag.set_artist(c_artist, encoding::UTF_8, encoding::UTF_8);
+        tag.set_artist(c_artist, encoding::UTF_8, encoding::ISO_8859_1);
       }
       if (c_album && 0 != strlen(c_album)) {
-        tag.set_album(c_album, encoding::UTF_8, encoding::UTF_8);
+        tag.set_album(c_album, encoding::UTF_8, encoding::ISO_8859_1);
       }
 
       if (c_year && 0 != strlen(c_year)) { // treat "" as "not set"
@@ -632,7 +633,7 @@ extern "C" {
       }
 
       if (c_comment && 0 != strlen(c_comment)) {
-        tag.set_comment(c_comment, encoding::UTF_8, encoding::UTF_8);
+        tag.set_comment(c_comment, encoding::UTF_8, encoding::ISO_8859_1);
       }
 
       tag.set_genre(genre);
@@ -642,7 +643,7 @@ extern "C" {
       }
 
       if (enh) {
-        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::UTF_8);
+        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::ISO_8859_1);
         tag.set_speed(speed);
         if (c_start_time) {
           size_t n = strlen(c_start_time);
-- 
2.43.0


From 178575bdb01e35f86436a9e9bcba821a0e9a8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:16 +0000
Subject: [PATCH 081/174] fix: Pass the arguments of the invalid-tag error as a
 list

---
 scribbu/scheme.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 6eeb0f4..36ff487 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -414,7 +414,7 @@ extern "C" {
         read_all_id3v2(ifs, back_inserter(v2));
       } catch (const exception &ex) {
         scm_error(sym_for_utf8("invalid-tag"), "read-tagset", "found bad tag: ~s",
-                  scm_from_utf8_string(ex.what()), SCM_BOOL_F);
+                  scm_list_1(scm_from_utf8_string(ex.what())), SCM_BOOL_F);
       }
 
       // 2. transform that collection of C++ id3v2_tag instances into a collection
-- 
2.43.0


From b5a2fae511376915f48a46978b0fb6727c101947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:29 +0000
Subject: [PATCH 082/174] fix: count PCNT frames in id3v2_4_tag::has_play_count

---
 scribbu/id3v24.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index f66d137..8493b2c 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -343,7 +343,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return frame_map_.count("PCNT"); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From ce4385922bd6f5957bf6115a011454462269fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:38 +0000
Subject: [PATCH 083/174] fix: name the ID3v2.2 beats-per-minute frame TBP

---
 scribbu/framesv2.cc | 2 +-
 scribbu/framesv2.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 9e615c3..75da37d 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -377,7 +377,7 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
   case id3v2_text_frames::talb:
     id_[1] = 'A'; id_[2] = 'L'; break;
   case id3v2_text_frames::tbpm:
-    id_[1] = 'B'; id_[2] = 'M'; break;
+    id_[1] = 'B'; id_[2] = 'P'; break;
   case id3v2_text_frames::tcom:
     id_[1] = 'C'; id_[2] = 'M'; break;
   case id3v2_text_frames::tcon:
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index dbd42c1..3f30869 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -187,7 +187,7 @@ namespace scribbu {
   /// an ID3v2 version-independent way of naming text frames
   enum class id3v2_text_frames {
     talb, // Album/Movie/Show title [TAL]
-    tbpm, // beats per minute [TBM]
+    tbpm, // beats per minute [TBP]
     tcom, // Composer(s) [TCM]
     tcon, // Content type [TCO]
     tcop, // Copyright message [TCR]
-- 
2.43.0


From 2a971eafb13f1be64f9c61a1f623bd36a465701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:46 +0000
Subject: [PATCH 084/174] fix: keep the ID3v2.3 extended header's padding size
 up to date

---
 scribbu/id3v23.hh | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 46291d8..0983544 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -173,6 +173,12 @@ namespace scribbu {
       { return *crc_; }
       std::size_t padding_size() const
       { return cbpad_; }
+      /// Update the size of the padding recorded in this header
+      void padding_size(std::size_t cbpad)
+      {
+        cbpad_ = cbpad;
+        dirty_ = true;
+      }
       /// Write this header to an ostream without unsynchronisation; if this header
       /// is configured to include a CRC, it will be updated based on \a tag
       std::size_t write(std::ostream &os, bool unsync = false) const;
@@ -242,7 +248,12 @@ namespace scribbu {
     virtual std::size_t padding() const
     { return padding_; }
     virtual void padding(std::size_t padding)
-    { padding_ = padding; }
+    {
+      padding_ = padding;
+      if (pext_header_) {
+        pext_header_->padding_size(padding);
+      }
+    }
 
     /////////////////////////////////////////////////////////////////////////////
     //                    Frames Common to all ID3v2 Tags                      //
-- 
2.43.0


From a801d3b2e70264a9ea08f494f289b6b3879c8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:57 +0000
Subject: [PATCH 085/174] fix: recognise the character encodings named by
 locales

---
 scribbu/charsets.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 6d70827..36f3084 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -59,18 +59,18 @@ namespace {
       {"ISO8859-16", encoding::ISO_8859_16 },
       {"CP1131",     encoding::CP1131      },
       {"CP1133",     encoding::CP1133      },
-      {"CP1250,",    encoding::CP1250      },
+      {"CP1250",     encoding::CP1250      },
       {"CP1251",     encoding::CP1251      },
-      {"CP1252,",    encoding::CP1252      },
-      {"CP1253,",    encoding::CP1253      },
-      {"CP1254,",    encoding::CP1254      },
-      {"CP1255,",    encoding::CP1255      },
-      {"CP1256,",    encoding::CP1256      },
-      {"CP1257,",    encoding::CP1257      },
+      {"CP1252",     encoding::CP1252      },
+      {"CP1253",     encoding::CP1253      },
+      {"CP1254",     encoding::CP1254      },
+      {"CP1255",     encoding::CP1255      },
+      {"CP1256",     encoding::CP1256      },
+      {"CP1257",     encoding::CP1257      },
       {"CP1258",     encoding::CP1258      },
-      {"CP850,",     encoding::CP850       },
-      {"CP862,",     encoding::CP862       },
-      {"CP866,",     encoding::CP866       },
+      {"CP850",      encoding::CP850       },
+      {"CP862",      encoding::CP862       },
+      {"CP866",      encoding::CP866       },
       {"CP874",      encoding::CP874       },
       {"CP932",      encoding::CP932       },
       {"CP936",      encoding::CP936       },
@@ -83,7 +83,7 @@ namespace {
       return make_pair(true, encoding::UTF_8);
     }
 
-    string key = name.substr(i);
+    string key = name.substr(i + 1);
     if (0 == TBL.count(key)) {
       return make_pair(false, encoding::UTF_8);
     }
-- 
2.43.0


From e76c043901076038fb9e9ea1442c7780babec7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:15 +0000
Subject: [PATCH 086/174] fix: carry on to the end of long texts when ignoring
 characters

---
 scribbu/charsets.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 36f3084..1fd6232 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -711,6 +711,7 @@ namespace {
     while (true) {
       char *outbuf = out.data() + cbout;
       std::size_t outbytesleft = out.size() - cbout;
+      std::size_t inbytesprev = inbytesleft;
       std::size_t status = flushing ?
         iconv(dsc, nullptr, nullptr, &outbuf, &outbytesleft) :
         iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
@@ -722,10 +723,15 @@ namespace {
         // (size_t)(−1)." Carry on with a bigger buffer :P
         out.resize((out.size() << 1) + 16);
       }
+      else if (~0 == status && EILSEQ == errno && 0 != inbytesleft &&
+               inbytesleft < inbytesprev && on_no_encoding::ignore == rsp) {
+        // When asked to ignore characters, GNU iconv will skip them, consume
+        // (some of) the input & report EILSEQ nonetheless; carry on with the
+        // remainder.
+        continue;
+      }
       else if (~0 == status && !(EILSEQ == errno && 0 == inbytesleft &&
                                  on_no_encoding::ignore == rsp)) {
-        // (when asked to ignore characters, GNU iconv will skip them, consume
-        // all the input & report EILSEQ nonetheless)
         throw scribbu::iconv_error(errno);
       }
       else if (flushing) {
-- 
2.43.0


From d17e32fb5bf2634bebe20726d52d1dcef61b25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:04 +0000
Subject: [PATCH 087/174] fix: recognise existing backups of files named by
 relative paths

---
 scribbu/tagset.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index ab6a979..49334d8 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -219,13 +219,13 @@ namespace scribbu {
       using namespace std::filesystem;
 
       auto here = absolute(pth).parent_path();
-      auto prefix = pth.string();
+      auto prefix = pth.filename().string();
       size_t nprefix = prefix.length();
 
       vector<path> entries;
       for (directory_iterator p0(here), p1; p0 != p1; ++p0) {
 
-        string s = p0->path().string();
+        string s = p0->path().filename().string();
 
         // we can eliminuate most entries by simply matching the
         // first part of the string against `prefix'.
@@ -273,9 +273,9 @@ namespace scribbu {
       n += 1;
 
       stringstream stm;
-      stm << pth.string() << "." << n;
+      stm << prefix << "." << n;
 
-      return path(stm.str());
+      return here / path(stm.str());
 
     } // End get_backup_name.
 
-- 
2.43.0


From 39ca150738b1e486ef806ef8edb919238410f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:04 +0000
Subject: [PATCH 088/174] fix: number backups correctly next to very large
 backup numbers

---
 scribbu/tagset.hh | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 49334d8..0d54c19 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -150,6 +150,7 @@
 
 #include <cerrno>
 #include <cstdio>
+#include <limits>
 #include <sstream>
 
 #include <fstream>
@@ -222,7 +223,7 @@ namespace scribbu {
       auto prefix = pth.filename().string();
       size_t nprefix = prefix.length();
 
-      vector<path> entries;
+      unsigned long long n = 0;
       for (directory_iterator p0(here), p1; p0 != p1; ++p0) {
 
         string s = p0->path().filename().string();
@@ -252,30 +253,15 @@ namespace scribbu {
           continue;
         }
 
-        // If we made it here, *p0 is a path of the form <prefix>.NNN
-        entries.push_back(*p0);
-      }
-
-      if (entries.empty()) {
-        string ext = pth.extension().string() + ".1";
-        return here / path(pth.stem().string() + ext);
+        // If we made it here, *p0 is a path of the form <prefix>.NNN; ignore
+        // numbers too large to be incremented.
+        if (s.length() - nprefix - 1 > numeric_limits<unsigned long long>::digits10) {
+          continue;
+        }
+        n = max(n, stoull(s.substr(nprefix + 1)));
       }
 
-      sort(entries.begin(), entries.end(),
-           [](const path &p1, const path &p2) {
-             int x0 = atoi(p1.extension().string().substr(1).c_str());
-             int x1 = atoi(p2.extension().string().substr(1).c_str());
-             return x0 < x1;
-           });
-
-      string s = entries.back().extension().string().substr(1);
-      int n = atoi(s.c_str());
-      n += 1;
-
-      stringstream stm;
-      stm << prefix << "." << n;
-
-      return here / path(stm.str());
+      return here / path(prefix + "." + to_string(n + 1));
 
     } // End get_backup_name.
 
-- 
2.43.0


From a72ba7599b4ed23b00d11d3b1c893108e645a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:22 +0000
Subject: [PATCH 089/174] fix: write the rewritten file next to the original,
 with its permissions

---
 scribbu/tagset.hh | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 0d54c19..f0860e4 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -150,9 +150,12 @@
 
 #include <cerrno>
 #include <cstdio>
+#include <cstdlib>
 #include <limits>
 #include <sstream>
 
+#include <unistd.h>
+
 #include <fstream>
 #include <filesystem>
 #include <boost/iostreams/stream.hpp>
@@ -341,19 +344,17 @@ namespace scribbu {
 
     namespace fs = std::filesystem;
 
-    // Ideally, I'd using std::tmpfile or mkstmp; functions that determine the
-    // temporary name & open it atomically, to avoid the race condition (and
-    // threat vector) of having a process determine the name, a second process
-    // create open a file by that name, and the first then opening it. The
-    // problem is that such implementations will delete the temp file as
-    // soon as I close my handle to it, making it impossible for me to
-    // write, close & copy it.
-
-    // My (admittedly poor) solution is to live with the race condition &
-    // truncate on open, hoping to merely stomp on the other process' file in
-    // the event I hit it (the race condition).
-    char buf[L_tmpnam];
-    fs::path tmpnam = fs::temp_directory_path() / std::tmpnam(buf);
+    // Write to a temporary file in the directory containing `pth', so that it
+    // can be renamed over the original in one step (i.e. it's guaranteed to be
+    // on the same filesystem).
+    string tmpl = (fs::absolute(pth).parent_path() / ".scribbu.XXXXXX").string();
+    int fd = mkstemp(&tmpl[0]);
+    if (-1 == fd) {
+      throw std::system_error(errno, std::generic_category(), tmpl);
+    }
+    ::close(fd);
+    fs::path tmpnam(tmpl);
+
     std::ofstream tmpfs(tmpnam, ios_base::out |  ios_base::binary | ios_base::trunc);
     tmpfs.exceptions(EXC_MASK);
 
@@ -393,6 +394,9 @@ namespace scribbu {
     tmpfs.close();
     ifs.close();
 
+    // `pth' keeps its permissions
+    fs::permissions(tmpnam, fs::status(pth).permissions());
+
     fs::path cp;
     if (keep_backup) {
 
-- 
2.43.0


From 87b7f3c572f6b4e82924c1e2fbf7cc041daa64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:22 +0000
Subject: [PATCH 090/174] fix: leave no temporary files behind when rewriting a
 file

---
 scribbu/tagset.hh | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index f0860e4..3007c51 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -355,6 +355,16 @@ namespace scribbu {
     ::close(fd);
     fs::path tmpnam(tmpl);
 
+    // Don't leave the temporary file behind, however we leave this function
+    struct remover {
+      fs::path pth_;
+      ~remover()
+      {
+        std::error_code ec;
+        fs::remove(pth_, ec);
+      }
+    } rm{tmpnam};
+
     std::ofstream tmpfs(tmpnam, ios_base::out |  ios_base::binary | ios_base::trunc);
     tmpfs.exceptions(EXC_MASK);
 
@@ -443,15 +453,17 @@ namespace scribbu {
         // and attempt the copy & remmove
         try {
           fs::copy_file(tmpnam, pth);
-          if (! keep_backup) {
-            fs::remove(tmpnam);
-          }
         } catch (const std::exception &ex) {
           // Well, we're kind of screwed. At least attempt to put the original
           // file back.
+          fs::remove(pth, ec);
           fs::copy(cp, pth, ec); // `ec' ignored intentionally on return
           throw;
         }
+        // if we only made a copy for this, we're done with it
+        if (! keep_backup) {
+          fs::remove(cp);
+        }
       } else {
         throw std::system_error(ec);
       }
-- 
2.43.0


From 8046fbff204d02cceffc505cc82ce823c44897a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:47 +0000
Subject: [PATCH 091/174] fix: reduce padding without underflow, and in no tag
 beyond what it has

---
 scribbu/tagset.hh | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 3007c51..6535651 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -148,6 +148,7 @@
  *
  */
 
+#include <algorithm>
 #include <cerrno>
 #include <cstdio>
 #include <cstdlib>
@@ -660,23 +661,35 @@ namespace scribbu {
                              "strategy currently supported");
     }
 
-    ptrdiff_t total_adj = cb_new - cb_curr;
+    if (cb_new == cb_curr) {
+      return;
+    }
+
+    // Make sure that this can be done before changing anything.
+    ptrdiff_t total_adj = cb_new - cb_curr, total_pad = 0;
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      total_pad += (*p)->padding();
+    }
+    if (p0 == p1 || total_pad + total_adj < 0) {
+      throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
+    }
+
     ptrdiff_t num_tags = std::distance(p0, p1);
     ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
 
-    size_t pad = (*p0)->padding();
-    if (adj < 0 && -(adj + mu) > pad) {
-      throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      // A tag can't give up more padding than it has...
+      ptrdiff_t pad = (*p)->padding(), mine = std::max(adj + mu, -pad);
+      (*p)->padding(pad + mine);
+      total_adj -= mine;
+      mu = 0;
     }
-    (*p0)->padding(pad + adj + mu);
-    ++p0;
 
-    for ( ; p0 != p1; ++p0) {
-      pad = (*p0)->padding();
-      if (adj < 0 && -adj > pad) {
-        throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
-      }
-      (*p0)->padding(pad + adj);
+    // in which case the others have to make up the difference.
+    for (forward_input_iterator p = p0; p != p1 && total_adj < 0; ++p) {
+      ptrdiff_t pad = (*p)->padding(), mine = std::max(total_adj, -pad);
+      (*p)->padding(pad + mine);
+      total_adj -= mine;
     }
   }
 
-- 
2.43.0


From 9081cf8a7d9e3ddbdbb8495346e65b4d41447cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:47 +0000
Subject: [PATCH 092/174] fix: allow all the tags in a file to be removed

---
 scribbu/tagset.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 6535651..903c390 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -733,7 +733,12 @@ namespace scribbu {
     size_t subs_sz, subs_pad;
     std::tie(subs_sz, subs_pad) = tagset_sizes(p0, p1, unsync);
 
-    if (subs_sz <= curr_sz) {
+    if (p0 == p1 && 0 == curr_sz) {
+      // no tags before, none after-- nothing to do
+      return;
+    }
+
+    if (subs_sz <= curr_sz && p0 != p1) {
       // we can emplace
       if (subs_sz < curr_sz) {
         adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
-- 
2.43.0


From 929756493a887fd825c6464955b497219a9fc478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:47 +0000
Subject: [PATCH 093/174] fix: report failures to write tags to a new file

---
 scribbu/tagset.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 903c390..463cda7 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -754,10 +754,11 @@ namespace scribbu {
     else if (!fs::exists(pth)) {
       // Special case-- output file does not exist
       std::ofstream ofs(pth, std::ofstream::binary);
+      ofs.exceptions(std::ios::failbit | std::ios::badbit);
       for ( ; p0 != p1; ++p0) {
         (*p0)->write(ofs, detail::compute_apply_unsync(unsync, **p0));
       }
-
+      ofs.close();
     }
     else {
       // no way-- we need to copy
-- 
2.43.0


From 8c94347180ac4605313a6a7459bad07e6dc6897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:08 +0000
Subject: [PATCH 094/174] fix: take ID3v2.4 footers into account when locating
 track data

---
 scribbu/id3v2.hh  |  4 ++++
 scribbu/tagset.hh | 10 +++++-----
 src/split.cc      |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index a5104e6..e9d073f 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -446,6 +446,10 @@ namespace scribbu {
     unsigned char revision_;
     unsigned char flags_;
     std::uint32_t size_;
+    /// The number of bytes occupied by the entire tag, including its header &
+    /// its footer (if any)
+    std::size_t total_size() const
+    { return 10 + size_ + (4 == version_ && (flags_ & 0x10) ? 10 : 0); }
   };
 
   /**
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 463cda7..4a23725 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -381,7 +381,7 @@ namespace scribbu {
 
     scribbu::id3v2_info id3v2 = scribbu::looking_at_id3v2(ifs);
     while (id3v2.present_) {
-      ifs.seekg(10 + id3v2.size_, std::ifstream::cur);
+      ifs.seekg(id3v2.total_size(), std::ifstream::cur);
       id3v2 = scribbu::looking_at_id3v2(ifs);
     }
 
@@ -539,11 +539,11 @@ namespace scribbu {
       return cb;
     }
 
-    scribbu::id3v2_info id3v2 = scribbu::looking_at_id3v2(ifs, false);
+    scribbu::id3v2_info id3v2 = scribbu::looking_at_id3v2(ifs);
     while (id3v2.present_) {
-      cb += 10 + id3v2.size_;
-      ifs.seekg(id3v2.size_, std::ifstream::cur);
-      id3v2 = scribbu::looking_at_id3v2(ifs, false);
+      cb += id3v2.total_size();
+      ifs.seekg(id3v2.total_size(), std::ifstream::cur);
+      id3v2 = scribbu::looking_at_id3v2(ifs);
     }
 
     return cb;
diff --git a/src/split.cc b/src/split.cc
index cda9aa9..b969cd9 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -104,7 +104,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
       stm << "id3v2" << count << suffix;
       ++count;
       fs::path pth(stm.str());
-      xfer_bytes(ifs, pth, 10 + id3v2.size_);
+      xfer_bytes(ifs, pth, id3v2.total_size());
       // Another?
       id3v2 = scribbu::looking_at_id3v2(ifs);
     }
-- 
2.43.0


From eca41f54b540e97c28149208dfa4081b188e8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:47 +0000
Subject: [PATCH 095/174] fix: process exactly the tags selected by index, in
 whatever order they're given

---
 src/command-utilities.cc | 2 +-
 src/command-utilities.hh | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 1cfff18..4c46242 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -337,7 +337,7 @@ tagset_processor::process_file(const fs::path &pth)
 
     // Ok-- now we walk the pointers to `id3v2_tag' in `v2'
     for (size_t i = 0; i < v2.size(); ++i) {
-      if (tags.front() == i) {
+      if (!tags.empty() && tags.front() == i) {
         bool upd = false;
 
         id3v2_tag *ptag = v2[i].get();
diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index 1104880..b3045d9 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -288,6 +288,9 @@ public:
                      verbose, adjust_unsync, create_backups)
   {
     std::copy(p0, p1, std::back_inserter(v2_tags_));
+    // these will be consumed in order
+    std::sort(v2_tags_.begin(), v2_tags_.end());
+    v2_tags_.erase(std::unique(v2_tags_.begin(), v2_tags_.end()), v2_tags_.end());
   }
 
 protected:
-- 
2.43.0


From c96f5c70f7dfdc0a92991766f835ede54c93606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:13 +0000
Subject: [PATCH 096/174] fix: serialize a tagset before overwriting the one on
 disk

A tag that cannot be written (one with an encrypted frame, say) left the file
with part of its tags overwritten.
---
 scribbu/tagset.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 4a23725..71587f1 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -596,14 +596,19 @@ namespace scribbu {
       throw invalid_tagset_request(invalid_tagset_request::emplace_mismatch_sz);
     }
 
-    mapped_file mf(pth.native());
-    stream<mapped_file> ofs(mf);
-
+    // Serialize the new tagset before touching `pth', in case that fails.
+    std::ostringstream oss;
+    oss.exceptions(std::ios::failbit | std::ios::badbit);
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
-      (*p0)->write(ofs, do_unsync);
+      (*p0)->write(oss, do_unsync);
     }
 
+    mapped_file mf(pth.native());
+    stream<mapped_file> ofs(mf);
+    ofs.exceptions(std::ios::failbit | std::ios::badbit);
+    ofs << oss.str();
+
     // Done -- close on exit.
   }
 
-- 
2.43.0


From 36a5d1d21348732ac99db2ef37521840a2a1ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:13 +0000
Subject: [PATCH 097/174] fix: copy when adjusting padding does not give a
 tagset the size wanted

With no padding left, unsynchronisation has to guard a trailing 0xff, and so
changes the size of the tag. maybe_emplace_tagset gave up with an error.
---
 scribbu/tagset.hh | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 71587f1..8114ba4 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -743,17 +743,28 @@ namespace scribbu {
       return;
     }
 
+    bool emplace = false;
     if (subs_sz <= curr_sz && p0 != p1) {
       // we can emplace
       if (subs_sz < curr_sz) {
         adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
       }
-      replace_tagset_emplace(pth, p0, p1, unsync);
+      emplace = true;
     }
     else if (curr_sz >= subs_sz - subs_pad &&
              emplace_strategy::only_with_full_padding != estrat) {
       // we can emplace, if we reduce the padding in [p0,p1)
       adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
+      emplace = true;
+    }
+
+    // Adding or removing the last byte of padding can change what
+    // unsynchronisation does to the end of a tag, so check.
+    if (emplace && std::get<0>(tagset_sizes(p0, p1, unsync)) != curr_sz) {
+      emplace = false;
+    }
+
+    if (emplace) {
       replace_tagset_emplace(pth, p0, p1, unsync);
     }
     else if (!fs::exists(pth)) {
-- 
2.43.0


From 6ff2c90f7a64c0a7129c8862db327f6b0f940656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:31 +0000
Subject: [PATCH 098/174] fix: remove all tags from a file when the new tagset
 is empty

When reducing padding was permitted, maybe_emplace_tagset tried to fit no tags
at all into the space of the old ones, and gave up with an error.
---
 scribbu/tagset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 8114ba4..0590ac9 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -751,7 +751,7 @@ namespace scribbu {
       }
       emplace = true;
     }
-    else if (curr_sz >= subs_sz - subs_pad &&
+    else if (p0 != p1 && curr_sz >= subs_sz - subs_pad &&
              emplace_strategy::only_with_full_padding != estrat) {
       // we can emplace, if we reduce the padding in [p0,p1)
       adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
-- 
2.43.0


From 2fa111ce746cf10cd9a910fcce03472cba2c006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:10 +0000
Subject: [PATCH 099/174] fix: do not overwrite a truncated tag in place

The new tagset was written up to the end of the file before the lack of space
was noticed.
---
 scribbu/tagset.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 0590ac9..f9dc29f 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -605,6 +605,10 @@ namespace scribbu {
     }
 
     mapped_file mf(pth.native());
+    if (mf.size() < cb_new) {
+      // The last tag in `pth' has been cut short
+      throw invalid_tagset_request(invalid_tagset_request::emplace_mismatch_sz);
+    }
     stream<mapped_file> ofs(mf);
     ofs.exceptions(std::ios::failbit | std::ios::badbit);
     ofs << oss.str();
-- 
2.43.0


From 2b859eba17a632f2d21f897c4a3b28c45e490cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:23 +0000
Subject: [PATCH 100/174] fix: report read errors while looking for an ID3v2
 tag

A file that could not be read was taken to have no tags, so that rewriting its
tags put the new ones in front of the old.
---
 scribbu/id3v2.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index d4ac732..e666327 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -178,9 +178,14 @@ scribbu::looking_at_id3v2(std::istream &is,
   try {
     is.read((char*)buf, ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
+    bool bad = is.bad();
     is.clear();
     is.exceptions(exc_mask);
     is.seekg(here, std::ios_base::beg);
+    if (bad) {
+      // Not just a short stream-- we don't know what's there.
+      throw;
+    }
     return H;
   }
 
-- 
2.43.0


From c7735118e97e63e7c30faa12ff08bffe40311093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:42 +0000
Subject: [PATCH 101/174] fix: split files whose ID3v2 tags end in what looks
 like an ID3v1 tag

The size of the track data came out negative, so that allocating room for it
failed.
---
 src/split.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/split.cc b/src/split.cc
index b969cd9..fd17dbe 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -111,6 +111,10 @@ For detailed help, say `scribbu split --help'. To see the manual, say
 
     // Either way, we're at the start of the track data...
     scribbu::id3v1_info I = scribbu::ends_in_id3v1(ifs);
+    if (I.start_ < ifs.tellg()) {
+      // What looks like an ID3v1 tag begins before the track does
+      I.start_ = I.end_;
+    }
     std::size_t cb = I.start_ - ifs.tellg();
     fs::path pth("track" + suffix);
     xfer_bytes(ifs, pth, cb);
-- 
2.43.0


From a4238ce319f1e743e649dc54397901b15758d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:42 +0000
Subject: [PATCH 102/174] fix: report failures to write the pieces of a split
 file

Errors on flushing the last of the data were lost in the stream's destructor.
---
 src/split.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/split.cc b/src/split.cc
index fd17dbe..1a1df48 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -62,6 +62,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     std::unique_ptr<char[]> p(new char[cb]);
     in.read(p.get(), cb);
     ofs.write(p.get(), cb);
+    ofs.close();
   }
 
   /**
-- 
2.43.0


From bccb66871691c12568b4959b163c8404362d0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:42 +0000
Subject: [PATCH 103/174] fix: report failures to write an ID3v1 tag to a file

Errors on flushing the tag were lost in the stream's destructor.
---
 scribbu/id3v1.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 57d4a24..09f27ab 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -595,4 +595,5 @@ scribbu::replace_id3v1(const fs::path &pth, const id3v1_tag &tag)
   std::ofstream ofs(pth, std::ofstream::binary|std::ofstream::app);
   ofs.exceptions(EXC_MASK);
   tag.write(ofs);
+  ofs.close();
 }
-- 
2.43.0


From 37269eeb70eefbafa325b0eacac1368ca19fed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 104/174] fix: use the encoding guessed for ID3v1 text in
 templates

The loop over candidate encodings stopped at the first that worked and then
reported that none had been found, so no template could use ID3v1 text unless
its encoding was given.
---
 scribbu/tbt-support.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 4993986..f3a8de3 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -351,9 +351,8 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
 
     for (auto g: GUESSES) {
       try {
-        result = convert_encoding<std::string>(pbuf, cbbuf, g,
-                                               encoding::UTF_8);
-        break;
+        return convert_encoding<std::string>(pbuf, cbbuf, g,
+                                             encoding::UTF_8);
       } catch (const iconv_error&) {
         // Move on to the next guess...
       }
-- 
2.43.0


From 1a2e9075e41095ea86a674ce31560d5a8d586309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 105/174] fix: take a little-endian byte order mark in ID3v1
 text for what it is

Templates decoded ID3v1 text beginning FF FE as big-endian UTF-16.
---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index f3a8de3..cdc4720 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -336,7 +336,7 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
       v1enc = v1_encoding::utf_16_be;
     }
     else if (2 <= cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
-      v1enc = v1_encoding::utf_16_be;
+      v1enc = v1_encoding::utf_16_le;
     }
   }
 
-- 
2.43.0


From 34c4600588a5e41dcc743ce4a65ccd966e44c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 106/174] fix: capitalize empty text in templates without
 throwing

substr(1) of the empty string throws out_of_range.
---
 scribbu/tbt-support.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index cdc4720..ebb24f5 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -200,6 +200,10 @@ scribbu::tbt_support::do_cap_xform(const std::string &text,
   using namespace std;
   using namespace boost;
 
+  if (text.empty()) {
+    return text;
+  }
+
   if (capitalization::capitalize == cap) {
     string result;
     result += toupper(text[0], locale(""));
-- 
2.43.0


From 0d9525d781b605f48505209fcc81985f2c582da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 107/174] fix: merge runs of whitespace in templates

The options 'compress' and 'ws=TEXT' are documented to put one separator
between words; they put one for every space.
---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index ebb24f5..f056323 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -238,7 +238,7 @@ scribbu::tbt_support::do_ws_xform(const std::string &text,
   }
 
   vector<string> splits;
-  split(splits, text, is_any_of(" \t"));
+  split(splits, text, is_any_of(" \t"), token_compress_on);
   if (0 != replace.length()) {
     return join(splits, replace);
   }
-- 
2.43.0


From 1fcdf4ee55d324b314ef7f0fd6b65c037a32d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 108/174] fix: two-digit years of short and of long dates in
 templates

substr(2) throws for years of less than two characters, and includes the month
and day of an ID3v2.4 recording time.
---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index f056323..f874a4e 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -602,7 +602,7 @@ scribbu::tbt_support::year::evaluate(const file_info  & /*fi    */,
                                  v1_encoding::automatic);
 
   if (year_format::two_digits == fmt_) {
-    return year.substr(2);
+    return 4 <= year.size() ? year.substr(2, 2) : year;
   }
   else {
     return year;
-- 
2.43.0


From 19083c3168b22463b032a112157a34d6a0500351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 109/174] fix: recognize the template options v1-only, v2-only,
 yy, yyyy and hex-case

They were only recognized after an equals sign, where the grammar has no place
for them, so documented templates like %(artist:v1-only) were rejected. Accept
the documented 'cap' besides 'capitalization', too.
---
 scribbu/tbt-lexer.ll | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index c094469..9a2c571 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -50,7 +50,7 @@ title        title
 year         year
 
 base         base
-cap          capitalization
+cap          cap(italization)?
 compress     compress
 hex_case     hex-case
 output       output
@@ -128,10 +128,13 @@ year_abbrev         Y
 <REPLACEMENT>{pref_v1}      { return PREF_V1;     }
 <REPLACEMENT>{pref_v2}      { return PREF_V2;     }
 <REPLACEMENT>{v1_encoding}  { return V1ENCODING;  }
+<REPLACEMENT>{v1_only}      { return V1_ONLY;     }
+<REPLACEMENT>{v2_only}      { return V2_ONLY;     }
+<REPLACEMENT>{two_digits}   { return TWO_DIGITS;  }
+<REPLACEMENT>{four_digits}  { return FOUR_DIGITS; }
+<REPLACEMENT>{hex_case}     { return HEX_CASE;    }
 <REPLACEMENT>{ws}           { return WS;          }
 
-<PARAMETER>{two_digits}     { BEGIN(REPLACEMENT); return TWO_DIGITS;  }
-<PARAMETER>{four_digits}    { BEGIN(REPLACEMENT); return FOUR_DIGITS; }
 <PARAMETER>{ascii}          { BEGIN(REPLACEMENT); return ASCII;       }
 <PARAMETER>{auto}           { BEGIN(REPLACEMENT); return AUTO;        }
 <PARAMETER>{all_lower}      { BEGIN(REPLACEMENT); return ALL_LOWER;   }
@@ -140,7 +143,6 @@ year_abbrev         Y
 <PARAMETER>{cp1252}         { BEGIN(REPLACEMENT); return CP1252;      }
 <PARAMETER>{decimal}        { BEGIN(REPLACEMENT); return DECIMAL;     }
 <PARAMETER>{hex}            { BEGIN(REPLACEMENT); return HEX;         }
-<PARAMETER>{hex_case}       { BEGIN(REPLACEMENT); return HEX_CASE;    }
 <PARAMETER>{iso8859_1}      { BEGIN(REPLACEMENT); return ISO8859_1;   }
 <PARAMETER>{lower}          { BEGIN(REPLACEMENT); return LOWER;       }
 <PARAMETER>{prefix}         { BEGIN(REPLACEMENT); return PREFIX;      }
@@ -150,8 +152,6 @@ year_abbrev         Y
 <PARAMETER>{utf16be}        { BEGIN(REPLACEMENT); return UTF16_BE;    }
 <PARAMETER>{utf16le}        { BEGIN(REPLACEMENT); return UTF16_LE;    }
 <PARAMETER>{utf32}          { BEGIN(REPLACEMENT); return UTF32;       }
-<PARAMETER>{v1_only}        { BEGIN(REPLACEMENT); return V1_ONLY;     }
-<PARAMETER>{v2_only}        { BEGIN(REPLACEMENT); return V2_ONLY;     }
 
 <PARAMETER>{text} {
   BEGIN(REPLACEMENT);
-- 
2.43.0


From 392041f9d8c6402a65f69a876c7319008073f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 110/174] fix: accept UTF-16 and UTF-32 as v1-encoding in
 templates

The options are documented, but the grammar left them out.
---
 scribbu/tbt-parser.yy | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scribbu/tbt-parser.yy b/scribbu/tbt-parser.yy
index b96f266..5c07ab0 100644
--- a/scribbu/tbt-parser.yy
+++ b/scribbu/tbt-parser.yy
@@ -518,6 +518,15 @@ v1_encoding: V1ENCODING EQUAL AUTO {
            | V1ENCODING EQUAL UTF8 {
                $$ = scribbu::tbt_support::v1_encoding::utf_8;
              }
+           | V1ENCODING EQUAL UTF16_BE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_be;
+             }
+           | V1ENCODING EQUAL UTF16_LE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_le;
+             }
+           | V1ENCODING EQUAL UTF32 {
+               $$ = scribbu::tbt_support::v1_encoding::utf_32;
+             }
            ;
 
 the_xform: THE {
-- 
2.43.0


From f789138b1ec2a9a55d4a964995215395dfc6bc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 111/174] fix: drop the backslash of an escaped equals sign in
 templates

---
 scribbu/tbt-lexer.ll | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index 9a2c571..e5f599a 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -193,6 +193,7 @@ static std::string * unescape_and_copy(const char *text) {
       case ':':
       case '?':
       case '&':
+      case '=':
       case '\\':
         break;
       default:
-- 
2.43.0


From b3ed81504d90fe58acad97b84a8f975424d313ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 112/174] fix: reject a newline in a template's replacement
 parameter

The scanner echoed it to stdout and carried on as if it were not there.
---
 scribbu/tbt-lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index e5f599a..31c8119 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -170,7 +170,7 @@ year_abbrev         Y
 <REPLACEMENT>{title_abbrev}        {BEGIN(INITIAL);return TITLE_ABBREV;       }
 <REPLACEMENT>{year_abbrev}         {BEGIN(INITIAL);return YEAR_ABBREV;        }
 
-<INITIAL,REPLACEMENT,PARAMETER>. {
+<INITIAL,REPLACEMENT,PARAMETER>.|\n {
   std::cerr << "Matched unknown character: " << yytext[0] << std::endl;
   return UNKNOWN;
 }
-- 
2.43.0


From 72bae6589eee9185d309f64652054de2a6b89ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 113/174] fix: print the size in hexadecimal when a template
 asks for that

Nothing was printed at all.
---
 scribbu/tbt-support.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index f874a4e..0b988af 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -653,15 +653,13 @@ scribbu::tbt_support::size::evaluate(const file_info  & fi,
   size_t n = fi.size();
 
   stringstream buf;
-  if (base::decimal == b_) {
-    buf << n;
-  }
-  else {
+  if (base::hex == b_) {
     buf << hex;
     if (hex_case::upper == c_) {
       buf << setiosflags(ios::uppercase);
     }
   }
+  buf << n;
 
   return buf.str();
 
-- 
2.43.0


From 3a777b0bb84f0702ecd0530d390f4be731b9f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 114/174] fix: print MD5 checksums as digits in templates

The bytes of the checksum were copied to the file name as they are, whatever
base had been asked for.
---
 scribbu/tbt-support.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 0b988af..05419a6 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -677,14 +677,17 @@ scribbu::tbt_support::md5::evaluate(const file_info  & /*fi    */,
   ti.get_md5(back_inserter(D));
 
   stringstream buf;
+  int width = 3;
   if (base::hex == b_) {
+    width = 2;
     buf << hex;
     if (hex_case::upper == c_) {
       buf << setiosflags(ios::uppercase);
     }
   }
+  buf << setfill('0');
   for (auto x: D) {
-    buf << x;
+    buf << setw(width) << (unsigned) x;
   }
   return buf.str();
 
-- 
2.43.0


From 4b6500450cd8332fa0b890c709cbe29eceb6611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 115/174] fix: initialize template options of size and MD5 that
 aren't given

---
 scribbu/tbt-support.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 0492d9f..39ab14e 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -581,7 +581,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      size(forward_input_iterator p0, forward_input_iterator p1)
+      size(forward_input_iterator p0, forward_input_iterator p1):
+        b_(base::decimal), c_(hex_case::lower)
       {
         using boost::any_cast;
 
@@ -614,7 +615,8 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      md5(forward_input_iterator p0, forward_input_iterator p1)
+      md5(forward_input_iterator p0, forward_input_iterator p1):
+        b_(base::decimal), c_(hex_case::lower)
       {
         using boost::any_cast;
 
-- 
2.43.0


From 8805ca01c935acb03f86b1b18b433b733f8a7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 116/174] fix: reset the template scanner after each template

After a malformed template, the scanner could be left in the middle of a
replacement parameter; the next template would be read from there and
rejected, or misread.
---
 scribbu/id3v2-utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index f3eeea4..aaf9720 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -103,6 +103,11 @@ scribbu::template_processor::template_processor(const std::string &templat)
   // Un-comment to enable debugging:
   // tbtset_debug(1);
 
+  // However parsing ends, free the buffer & leave the scanner as it was (it
+  // may have stopped half-way through a replacement parameter).
+  std::unique_ptr<yy_buffer_state, void (*)(YY_BUFFER_STATE)>
+    reset(buf, [](YY_BUFFER_STATE) { tbtlex_destroy(); });
+
   std::vector<scribbu::tbt_support::term*> *pterms;
   int status = tbtparse(&pterms);
 
-- 
2.43.0


From a59166818ba839687a5ddf8f71d36a4c0a0055bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 117/174] fix: fall back to ID3v2 when a preferred ID3v1 field
 is blank

An ID3v1 field is never of zero length, so with prefer-v1 a blank field of the
ID3v1 tag hid the value in the ID3v2 tag.
---
 scribbu/tbt-support.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 39ab14e..4f988ea 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -207,7 +207,8 @@ namespace scribbu
             if (!s.empty()) {
               return s;
             }
-          } else if (v2 && !v2->empty()) {
+          }
+          if (v2 && !v2->empty()) {
             return *v2;
           }
           throw missing_source_text(pref);
-- 
2.43.0


From 8eb5651a6dd8623616b4f6dcee16b5dbd45c743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:13 +0000
Subject: [PATCH 118/174] fix: leave further ID3v2 tags out of a template's MD5
 checksum

Only the first tag was read, so the checksum of the audio data covered any
other tags in front of it.
---
 scribbu/id3v2-utils.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index aaf9720..e3c7f8f 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -133,11 +133,14 @@ std::string scribbu::template_processor::operator()(const std::filesystem::path
   std::tie(is, info) = scribbu::open_file(pth);
 
   // and use the open istream to read the...
-  std::unique_ptr<scribbu::id3v2_tag> pid3v2 = scribbu::maybe_read_id3v2(is); // ID3v2 tags...
-  scribbu::track_data ti(is);                                                 // the track itself...
-  std::unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(is);    // and the ID3v1 tag.
+  std::vector<std::unique_ptr<scribbu::id3v2_tag>> tags;
+  scribbu::read_all_id3v2(is, std::back_inserter(tags));                   // ID3v2 tags...
+  scribbu::track_data ti(is);                                              // the track itself...
+  std::unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(is); // and the ID3v1 tag.
+
+  const scribbu::id3v2_tag *pid3v2 = tags.empty() ? nullptr : tags.front().get();
 
   // With this information, walk our terms, evaluating each & concatenating:
   return std::accumulate(terms_.begin(), terms_.end(), std::string(),
-                         process_and_concatenate(info, pid3v2.get(), ti, pid3v1.get()));
+                         process_and_concatenate(info, pid3v2, ti, pid3v1.get()));
 }
-- 
2.43.0


From 4511d457f35544fc5a46753e44b1f8a0478bb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:18 +0000
Subject: [PATCH 119/174] fix: use the ID3v1 genre when the enhanced genre is
 blank

An enhanced ID3v1 tag always has a genre field of thirty bytes, so templates
never fell back to the numeric genre for it.
---
 scribbu/tbt-support.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 05419a6..6f50bba 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -504,8 +504,10 @@ scribbu::tbt_support::content_type::evaluate(const file_info  & /*fi    */,
   if (pid3v1) {
     // Try for extended ID3v1 info...
     pid3v1->enh_genre(back_inserter(v1));
-    if (v1.empty()) {
+    if (std::all_of(v1.begin(), v1.end(),
+                    [](unsigned char c) { return 0 == c || ' ' == c; })) {
       // but if we can't get that, fall back to ID3v1 genre.
+      v1.clear();
       boost::optional<std::string> text = text_for_genre(pid3v1->genre());
       if (text) {
         for (auto c: *text) {
-- 
2.43.0


From caf58821b11a361164c4a31e65933c6565bfe965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:50 +0000
Subject: [PATCH 120/174] fix: restrict popm to the tags selected with --tag

The indices given were read into a local variable and dropped, so every tag was
updated.
---
 src/popm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 400ce6b..9abc47c 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -851,7 +851,7 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        vector<size_t> V = vm["tag"].as<vector<size_t>>();
+        tags = vm["tag"].as<vector<size_t>>();
       }
 
       boost::optional<unsigned char> rating;
-- 
2.43.0


From 6df811afbfd8900e671615bcf161e41001bc5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:50 +0000
Subject: [PATCH 121/174] fix: leave POPM frames alone with --playcount-only
 --create-frame

With --create-frame, popm looks at frames of both kinds to find the highest play
count; it updated the POPM frames on the way.
---
 src/popm.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 9abc47c..7a005f9 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -373,7 +373,8 @@ private:
         popm_type &G = dynamic_cast<popm_type&>(F);
         string email = G.template email<string>();
         size_t new_pc = G.count();
-        if (!owner_ || email == *owner_) {
+        if (frame_policy::pcnt_only != frame_policy_ &&
+            (!owner_ || email == *owner_)) {
           new_pc = process_popm<traits_type>(G, email);
           ++num_popm;
         }
-- 
2.43.0


From 7ca2dce791053ee92d6d7554f78907b9a60009f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:50 +0000
Subject: [PATCH 122/174] fix: refuse to increment a play count beyond what it
 can hold

The sum wrapped around, leaving a small play count.
---
 src/popm.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 7a005f9..5cdf6bf 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -265,6 +265,15 @@ private:
     // popm_type make_popm(const string &email, unsigned char rating, size_t pc);
   };
 
+  /// Add our increment to a play count
+  size_t increment(size_t pc) const
+  {
+    if (pc > std::numeric_limits<size_t>::max() - play_count_) {
+      throw std::domain_error("play count overflow");
+    }
+    return pc + play_count_;
+  }
+
   /// Process a PCNT frame
   template <typename tag_type>
   size_t process_pcnt(typename tag_type::pcnt_type &G)
@@ -274,7 +283,7 @@ private:
 
     size_t new_pc = play_count_;
     if (pc_policy::increment == play_count_policy_) {
-      new_pc += G.count();
+      new_pc = increment(G.count());
     }
     if (dry_run() || verbose()) {
       cout << "Setting PCNT to " << new_pc << "." << endl;
@@ -295,7 +304,7 @@ private:
 
     size_t new_pc = play_count_;
     if (pc_policy::increment == play_count_policy_) {
-      new_pc += G.count();
+      new_pc = increment(G.count());
     }
     unsigned char rating = rating_ ? *rating_ : G.rating();
     if (dry_run() || verbose()) {
-- 
2.43.0


From 739ffb8f25c974e25193836ee3f96b9bbeacc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:50 +0000
Subject: [PATCH 123/174] fix: create play count frames with the count given by
 --count

If the tag had other play counts, for another owner say, a frame created with
--count was given the highest of those instead.
---
 src/popm.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 5cdf6bf..0c2227f 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -407,12 +407,13 @@ private:
 
         // We are to create a new PCNT frame, but what shall its value be?
         //
-        // 1. if we found a POPM frame, then we should use curr_pc
-        // 2. else, if pc_policy_ is "absolute", we should use play_count_
+        // 1. if pc_policy_ is "absolute", we should use play_count_
+        // 2. else, if we found a POPM frame, then we should use curr_pc
         // 3. finally, if pc_policy is "increment", we presently have a play
         //    count of zero, so we should again use play_count_
 
-        size_t pc = curr_pc == 0 ? play_count_ : curr_pc;
+        size_t pc = curr_pc == 0 || pc_policy::absolute == play_count_policy_ ?
+          play_count_ : curr_pc;
 
         if (dry_run() || verbose()) {
           cout << "Creating a new PCNT frame with a play count of " << pc <<
@@ -434,12 +435,13 @@ private:
 
         // We are to create a new POPM frame, but what shall its value be?
         //
-        // 1. if we found a PCNT frame, then we should use curr_pc
-        // 2. else, if pc_policy_ is "absolute", we should use play_count_
+        // 1. if pc_policy_ is "absolute", we should use play_count_
+        // 2. else, if we found a PCNT frame, then we should use curr_pc
         // 3. finally, if pc_policy is "increment", we presently have a play
         //    count of zero, so we should again use play_count_
 
-        size_t pc = curr_pc == 0 ? play_count_ : curr_pc;
+        size_t pc = curr_pc == 0 || pc_policy::absolute == play_count_policy_ ?
+          play_count_ : curr_pc;
 
         if (dry_run() || verbose()) {
           cout << "Creating a new POPM frame with an owner of " << email <<
-- 
2.43.0


From 82d0c94e70986184c690267c6971d42d1699b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:12 +0000
Subject: [PATCH 124/174] fix: accept TBP as the ID3v2.2 name of the beats per
 minute frame

---
 scribbu/framesv2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 75da37d..000c7c2 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -105,6 +105,8 @@ scribbu::operator>>(std::istream &is, id3v2_text_frames &x)
     { "album",        id3v2_text_frames::talb },
     { "tbpm",         id3v2_text_frames::tbpm },
     { "TBPM",         id3v2_text_frames::tbpm },
+    { "tbp",          id3v2_text_frames::tbpm },
+    { "TBP",          id3v2_text_frames::tbpm },
     { "tbm",          id3v2_text_frames::tbpm },
     { "TBM",          id3v2_text_frames::tbpm },
     { "tcom",         id3v2_text_frames::tcom },
-- 
2.43.0


From 595aac6434c0df004f5cef2b23f5cbc5af85a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:13 +0000
Subject: [PATCH 125/174] fix: set and delete TMT, TOT, TOL, TOA and TOR frames
 by name

ID3v2.2 has these five text frames, but asking for them by their
id3v2_text_frames member raised unknown_text_frame.
---
 scribbu/framesv2.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 000c7c2..3a06fd8 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -410,8 +410,18 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
     id_[1] = 'L'; id_[2] = 'A'; break;
   case id3v2_text_frames::tlen:
     id_[1] = 'L'; id_[2] = 'E'; break;
+  case id3v2_text_frames::tmed:
+    id_[1] = 'M'; id_[2] = 'T'; break;
+  case id3v2_text_frames::toal:
+    id_[1] = 'O'; id_[2] = 'T'; break;
   case id3v2_text_frames::tofn:
     id_[1] = 'O'; id_[2] = 'F'; break;
+  case id3v2_text_frames::toly:
+    id_[1] = 'O'; id_[2] = 'L'; break;
+  case id3v2_text_frames::tope:
+    id_[1] = 'O'; id_[2] = 'A'; break;
+  case id3v2_text_frames::tory:
+    id_[1] = 'O'; id_[2] = 'R'; break;
   case id3v2_text_frames::tpe1:
     id_[1] = 'P'; id_[2] = '1'; break;
   case id3v2_text_frames::tpe2:
-- 
2.43.0


From ecd3eb4f42877d3177c72d70b495d7381c121a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:13 +0000
Subject: [PATCH 126/174] fix: have text update the ID3v1 tag by default, and
 not with --tag

The command is documented to operate on all tags, including the ID3v1 tag, unless
--tag says which. It did the opposite, and didn't write a changed ID3v1 tag if
nothing else had changed. Since ID3v1 text is ASCII, transliterate what is not
rather than fail the command.
---
 src/text.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/text.cc b/src/text.cc
index c673fcd..d1765e5 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -112,7 +112,7 @@ public:
            v2_creation_policy v2cp, bool verbose, bool adj_unsync,
            bool create_backups):
     tagset_processor(v2_simple_tag_scope_policy::all,
-                     v1_tag_scope_policy::no,
+                     v1_tag_scope_policy::yes,
                      v2cp,
                      v1_creation_policy::never,
                      false,
@@ -135,7 +135,7 @@ public:
              scribbu::encoding srcenc, v2_creation_policy v2cp,
              bool verbose, bool adj_unsync, bool create_backups):
       tagset_processor(pt0, pt1,
-                       v1_tag_scope_policy::yes,
+                       v1_tag_scope_policy::no,
                        v2cp,
                        v1_creation_policy::never,
                        false,
@@ -237,12 +237,15 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
     switch (id) {
     case id3v2_text_frames::tit2:
       v1.set_title(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
       v1.set_artist(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
       v1.set_album(string());
+      ++num_deltas;
       break;
     default:
       // do nothing
@@ -253,13 +256,19 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
   for_each(adds_.begin(), adds_.end(), [&](const strings_type::value_type &x) {
     switch (x.first) {
     case id3v2_text_frames::tit2:
-      v1.set_title(x.second, enc_);
+      v1.set_title(x.second, enc_, id3v1_tag::DEF_SRC_ENCODING, false,
+                   on_no_encoding::transliterate);
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
-      v1.set_artist(x.second, enc_);
+      v1.set_artist(x.second, enc_, id3v1_tag::DEF_SRC_ENCODING, false,
+                    on_no_encoding::transliterate);
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
-      v1.set_album(x.second, enc_);
+      v1.set_album(x.second, enc_, id3v1_tag::DEF_SRC_ENCODING, false,
+                   on_no_encoding::transliterate);
+      ++num_deltas;
       break;
     default:
       // do nothing
-- 
2.43.0


From 4925da6123c8b4add67fea362dc5b92afcf9c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:55 +0000
Subject: [PATCH 127/174] fix: match genres of any length

Matching kept a table quadratic in the length of the text on the stack, which
overflowed for texts of a few hundred characters, and returned an indeterminate
genre for texts sharing nothing with any. Compute the same distance a row at a
time instead.
---
 scribbu/winamp-genres.cc | 148 +++++++--------------------------------
 1 file changed, 27 insertions(+), 121 deletions(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index 007b727..047476b 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -26,7 +26,9 @@
 
 #include <algorithm>
 #include <codecvt>
+#include <limits>
 #include <locale>
+#include <numeric>
 #include <string>
 
 const char32_t *GENRESW[] = {
@@ -224,92 +226,38 @@ const char32_t *GENRESW[] = {
   /*191*/ U"psybient",
 };
 
-const size_t MAX_GENRE_LENGTH = 22; // 22: Contemporary Christian
-
 const size_t NUM_GENRES = sizeof(GENRESW)/sizeof(const char32_t*);
 
 namespace {
 
-  ptrdiff_t
-  f(ptrdiff_t k,
-    ptrdiff_t p,
-    const std::u32string &A,
-    const std::u32string &B,
-    size_t m,
-    size_t n,
-    size_t max_k,
-    size_t max_p,
-    std::ptrdiff_t *fkp,
-    ptrdiff_t zero_k,
-    size_t inf) {
-
-    ptrdiff_t t = -inf;
-    if (p >= 0) {
-      t = fkp[(k + zero_k)*max_p+p] + 1;
-    }
-    ptrdiff_t t2 = t;
-    if (t > 0 && t < m && k+t-1 >= 0 && k + t < n) {
-      // t-1 >=0
-      // t < m
-      // k+t-1 >= 0
-      // k+t < n
-      if (A[t-1] == B[k+t] && A[t] == B[k+t-1]) {
-        t2 = t + 1;
-      }
-    }
-    ptrdiff_t ta = -inf;
-    if (p >= 0) {
-      ta = fkp[(k - 1 + zero_k)*max_p+p];
-    }
-    ptrdiff_t tb = -inf;
-    if (p >= 0) {
-      tb = fkp[(k + 1 + zero_k)*max_p+p] + 1;
-    }
-    if (ta > t) t = ta;
-    if (tb > t) t = tb;
-    if (t2 > t) t = t2;
-    ptrdiff_t L = (ptrdiff_t)std::min(m, n - k);
-    while (t >= 0 && t >= -k && t < L && A[t] == B[t+k]) ++t;
-    if (k + zero_k >= 0 && p > -2) {
-      fkp[(k + zero_k)*max_p+p+1] = t;
-    }
-    return t;
-  }
-
+  /// Damerau-Levenshtein (optimal string alignment) distance from A to B; `rows'
+  /// is scratch space, re-used from call to call
   size_t damerau_levenshtein(const std::u32string &A,
                              const std::u32string &B,
-                             size_t n,
-                             std::ptrdiff_t *fkp,
-                             size_t max_k,
-                             size_t max_p,
-                             ptrdiff_t zero_k,
-                             size_t inf)
+                             std::vector<size_t> rows[3])
   {
     using namespace std;
 
-    size_t m = A.length();
-    // The minimal p will be at the end of diagonal k
-    ptrdiff_t k = n - m;
-    ptrdiff_t p = k;
+    size_t m = A.length(), n = B.length();
+    for (size_t i = 0; i < 3; ++i) rows[i].resize(m + 1);
+    iota(rows[0].begin(), rows[0].end(), 0);
 
-    do {
-      ptrdiff_t inc = p;
-      for (ptrdiff_t temp_p = 0; temp_p < p; ++temp_p) {
-        ptrdiff_t x = n - m - inc;
-        if (abs(x) <= temp_p) {
-          f(x, temp_p, A, B, m, n, max_k, max_p, fkp, zero_k, inf);
-        }
-        x = n - m + inc;
-        if (abs(x) <= temp_p) {
-          f(x, temp_p, A, B, m, n, max_k, max_p, fkp, zero_k, inf);
+    // After step j, rows[j % 3][i] is the distance from the first i characters
+    // of A to the first j of B.
+    for (size_t j = 1; j <= n; ++j) {
+      vector<size_t> &curr = rows[j % 3];
+      const vector<size_t> &prev = rows[(j - 1) % 3], &prev2 = rows[(j + 1) % 3];
+      curr[0] = j;
+      for (size_t i = 1; i <= m; ++i) {
+        curr[i] = min({curr[i-1] + 1, prev[i] + 1,
+                       prev[i-1] + (A[i-1] == B[j-1] ? 0 : 1)});
+        if (1 < i && 1 < j && A[i-1] == B[j-2] && A[i-2] == B[j-1]) {
+          curr[i] = min(curr[i], prev2[i-2] + 1);
         }
-        --inc;
       }
-      f(n - m, p, A, B, m, n, max_k, max_p, fkp, zero_k, inf);
-      ++p;
-    } while (fkp[(n - m + zero_k)*max_p+p] != m);
+    }
 
-    return p - 1;
+    return rows[n % 3][m];
   }
 
 }
@@ -536,56 +484,14 @@ scribbu::match_winamp_genre(const std::string &text)
   // NB seems sketchy to me, but appears to work; the problem is that the std lib provides
   // no ctype specialization for char32_t, just char & wchar_t.
   for_each(wtext.begin(), wtext.end(), [](char32_t &c) { c = tolower((wchar_t)c, locale("")); });
-  // Throughout, `n' will be the length of `wtext'
-  size_t n = wtext.length();
-
-  // This function uses the algorithm of Berhel & Roach to, which works in terms
-  // of a single two-dimensional array FKP that is re-used over all
-  // comparisons. `inf' need only be greater than or equal to the length of the
-  // longest string we will be comparing.
-  size_t inf = max(MAX_GENRE_LENGTH, n);
-  // We can build FKP here & re-use it for each individual comparison. FKP is a
-  // two-dimensional array consisting of `max_k' rows & `max_p' columns. In the
-  // exposition, the indicies run over -m to n (all diagonals) and from -1 to
-  // the maxium p (max(m,n) = `inf') respectivey.
-  size_t max_k = inf + inf + 1;
-  size_t max_p = inf + 2;
-
-  // That means that to lookup the value for f(k,p), we need to index as:
-  // FKP[k + zero_k][p+1] (i.e. the exposition is incorrect in this regard).
-  ptrdiff_t zero_k = inf;
-
-  // In testing, a naked 2D array far out-performed a vector of vectors. I'm not
-  // entirely sure why; profiling showed a lot of time being spent in operator[]
-  // for the vector-of-vectors implementation. For development purposes, I used
-  // the C99 feature & gcc extension of Variable Length Array. Once I had a
-  // working implementation with unit tests, I replaced it with an equivalent &
-  // standard-compliant 1D array into which I compute my own indexing.
-  ptrdiff_t FKP[max_k*max_p];
-  for (ptrdiff_t i = 0; i < max_k*max_p; ++i) {
-    FKP[i] = -inf;
-  }
-
-  for (ptrdiff_t k = - zero_k; k <= zero_k; ++k) {
-    ptrdiff_t abs_k = k;
-    if (k < 0) abs_k = -k;
-    for (ptrdiff_t p = -1; p <= (ptrdiff_t)inf; ++p) {
-      if (p == abs_k - 1) {
-        if (k < 0) {
-          FKP[(k + zero_k)*max_p+p+1] = abs_k - 1; // FKP[k + zero_k][p+1]
-        } else {
-          FKP[(k + zero_k)*max_p+p+1] = -1;        // FKP[k + zero_k][p+1]
-        }
-      }
-    }
-  }
 
-  // OK-- `FKP' is initialized. Now iterate over all genres, comparing `wtext'
-  // to each; return the match with minimal Damerau-Levenshtein distance.
-  size_t least_dl = inf;
-  unsigned char best_genre;
+  // Now iterate over all genres, comparing `wtext' to each; return the match with
+  // minimal Damerau-Levenshtein distance.
+  vector<size_t> rows[3];
+  size_t least_dl = numeric_limits<size_t>::max();
+  unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
-    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
+    size_t DL = damerau_levenshtein(GENRESW[i], wtext, rows);
     if (DL < least_dl) {
       least_dl = DL;
       best_genre = i;
-- 
2.43.0


From 3ed7525f95546ec8820ce2d6b5fb57b6d957826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:33 +0000
Subject: [PATCH 128/174] fix: read genre's --v1 option as a number

It was read as a character, so `--v1 17' was an error and `--v1 7' meant 55. Also
leave -v to --verbose; since both options claimed it, it was rejected as ambiguous.
---
 src/genre.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index d865dbe..451b3bf 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -838,7 +838,7 @@ namespace {
       ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
-      ("v1,v", po::value<unsigned char>(), "Genre to use for ID3v1 tags in "
+      ("v1", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
        "combination with free-form text")
       ("v1-only,1", po::bool_switch(), "Operate on ID3v1 tags only; incompatible "
        "with --Genre")
@@ -949,7 +949,12 @@ namespace {
 
       unsigned char v1_genre = UNDEFINED_GENRE;
       if (vm.count("v1")) {
-        v1_genre = vm["v1"].as<unsigned char>();
+        unsigned int scratch = vm["v1"].as<unsigned int>();
+        if (256 > scratch) {
+          v1_genre = (unsigned char) scratch;
+        } else {
+          throw po::invalid_option_value("v1");
+        }
       }
 
       vector<size_t> tags;
-- 
2.43.0


From 830d4269415aaae098e3843785333b1d2d234a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:33 +0000
Subject: [PATCH 129/174] fix: don't return an indeterminate flag for numeric
 genres

---
 src/genre.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/genre.cc b/src/genre.cc
index 451b3bf..1488972 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -535,7 +535,7 @@ namespace {
       scratch |= 4;
     }
 
-    bool best_match;
+    bool best_match = false;
     string textual_genre;
 
     switch (scratch) {
-- 
2.43.0


From 86027766c816099ac8014b002dd047986e26953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:18 +0000
Subject: [PATCH 130/174] fix: set the genre of ID3v2 tags that have none

The genre sub-command compared the current genre to the new one without checking
that there is one, and failed if not.
---
 src/genre.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index 1488972..0be1e0e 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -366,7 +366,8 @@ set_genre::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -377,7 +378,8 @@ set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -388,7 +390,8 @@ set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() &&
+      v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
-- 
2.43.0


From b516eed2a9c9e0dd88b1f35cce70a5d3eee42859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:18 +0000
Subject: [PATCH 131/174] fix: create ID3v1 tags from ID3v2 tags that lack some
 of the fields

An ID3v2 tag without an artist, say, made the whole operation fail.
---
 src/command-utilities.hh | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index b3045d9..004217f 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -441,13 +441,14 @@ namespace detail {
 
   template <typename FII> // Forward Input Iterator => id3v2_tag
   std::tuple<bool, std::string>
-  find_frame(scribbu::id3v2_text_frames frm, FII p0, FII p1)
+  find_frame(scribbu::id3v2_text_frames frm,
+             std::size_t (scribbu::id3v2_tag::*has)() const, FII p0, FII p1)
   {
     using namespace std;
     using namespace scribbu;
     string text;
     auto p = find_if(p0, p1, [&](const unique_ptr<id3v2_tag> &p) {
-      text = p->text(frm);
+      text = ((*p).*has)() ? p->text(frm) : string();
       return !text.empty();
     });
     return make_tuple(p != p1, text);
@@ -464,7 +465,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     auto p = find_if(p0, p1, [&](const T &p) {
-      text = p->year();
+      text = p->has_year() ? p->year() : string();
       return 4 == text.length();
     });
     if (p != p1) {
@@ -486,7 +487,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     for_each(p0, p1, [&](const T &p) {
-      string text = p->content_type();
+      string text = p->has_content_type() ? p->content_type() : string();
       if (text.length()) {
         size_t dl;
         string textual_genre;
@@ -521,11 +522,14 @@ copy_id3_v2(FII p0, FII p1)
 
   bool hit;
   string text;
-  tie(hit, text) = ::detail::find_frame(id3v2_text_frames::talb, p0, p1);
+  tie(hit, text) = ::detail::find_frame(id3v2_text_frames::talb,
+                                       &id3v2_tag::has_album, p0, p1);
   if (hit) p->set_album(text, encoding::UTF_8, encoding::UTF_8);
-  tie(hit, text) = ::detail::find_frame(id3v2_text_frames::tpe1, p0, p1);
+  tie(hit, text) = ::detail::find_frame(id3v2_text_frames::tpe1,
+                                       &id3v2_tag::has_artist, p0, p1);
   if (hit) p->set_artist(text, encoding::UTF_8, encoding::UTF_8);
-  tie(hit, text) = ::detail::find_frame(id3v2_text_frames::tit2, p0, p1);
+  tie(hit, text) = ::detail::find_frame(id3v2_text_frames::tit2,
+                                       &id3v2_tag::has_title, p0, p1);
   if (hit) p->set_title(text, encoding::UTF_8, encoding::UTF_8);
 
   array<char, 4> year;
-- 
2.43.0


From fa2ce4e9dd7621168abea8e51ff135643646f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:28 +0000
Subject: [PATCH 132/174] fix: leave files alone when displaying their tag
 clouds

`scribbu xtag --get' rewrote every file in which it found a tag cloud.
---
 src/xtag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index a27c6f5..2a6fa19 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -287,7 +287,7 @@ private:
       num_xtag++;
     } // End iteration over `tag''s frames.
 
-    bool upd = num_xtag != 0;
+    bool upd = num_xtag != 0 && !get_;
     if (!num_xtag && create_ && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
-- 
2.43.0


From 60dead62d15d17841237e3c89dd85e7667358156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:28 +0000
Subject: [PATCH 133/174] fix: add the tag cloud to the ID3v2 tags that xtag
 creates

The options --create-v2 and --always-create-v2 are documented to create a tag
with an XTAG frame, but made an empty one unless --create-frame was given, too.
---
 src/xtag.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index 2a6fa19..28ae11a 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -222,6 +222,9 @@ private:
    * XTAG frame will be added to the tag or merged with an extant frame
    * according to the program options
    *
+   * \param create [in] true if a new XTAG frame shall be created in the event
+   * that there are none on which to operate
+   *
    * \return true if the tag was modified in any way, false else (NB this value
    * ignores the "dry-run" flag; i.e. if `--dry-run' was given, and the tag
    * *would* have been modified, this method will still return true
@@ -243,7 +246,7 @@ private:
 
   template <typename tag_type>
   bool
-  process_tag(tag_type &tag)
+  process_tag(tag_type &tag, bool create)
   {
     using namespace std;
 
@@ -288,7 +291,7 @@ private:
     } // End iteration over `tag''s frames.
 
     bool upd = num_xtag != 0 && !get_;
-    if (!num_xtag && create_ && !get_) {
+    if (!num_xtag && create && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
           tag_cloud_ << endl;
@@ -394,7 +397,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2(const scribbu::id3v1_tag &v1)
 {
   auto p = copy_id3_v1(v1);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -404,7 +407,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2()
 {
   auto p = std::make_unique<scribbu::id3v2_3_tag>(DEFAULT_PADDING);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -419,21 +422,21 @@ xtag_processor::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.3 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.4 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 namespace {
-- 
2.43.0


From e0c238a2353c5de8493a349f555429a2191a71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:28 +0000
Subject: [PATCH 134/174] fix: map SCRIBBU_CREATE to an option that xtag has

The sub-command failed if that variable was set.
---
 src/xtag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index 28ae11a..849d297 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -551,7 +551,7 @@ namespace {
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
         make_pair("SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_V2", "create-v2"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
-- 
2.43.0


From bf35dab663e08d7c931d0c6839aef96ee7c51b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:43 +0000
Subject: [PATCH 135/174] fix: map SCRIBBU_CREATE to an option that popm has

The sub-command failed if that variable was set.
---
 src/popm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 0c2227f..80f52b9 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -814,7 +814,7 @@ namespace {
 
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
         make_pair("SCRIBBU_OWNER", "owner"),
-- 
2.43.0


From 17df1aa920a732c2cc8056c1fd2fe07364765eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:35 +0000
Subject: [PATCH 136/174] fix: quote CSV fields that contain a carriage return

RFC 4180 demands that, and parsers take them as the end of the row otherwise.
---
 scribbu/csv-pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3335b94..d509a8a 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -51,7 +51,7 @@ scribbu::csv_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/ std::string
 scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/)
 {
-  const char NEEDS_ESC[] = { sep, '\n', 0 };
+  const char NEEDS_ESC[] = { sep, '\n', '\r', 0 };
   std::size_t comma = s.find_first_of(NEEDS_ESC);
   if (std::string::npos == comma) {
     return s;
-- 
2.43.0


From decf221ec5851a508c3c9a2411f2c39439b69ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:35 +0000
Subject: [PATCH 137/174] fix: print play counts and numbers of frames in
 decimal in CSV & TDF

The stream was still set to hexadecimal, from printing the tag's flags.
---
 scribbu/csv-pprinter.cc | 6 +++---
 scribbu/tdf-pprinter.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index d509a8a..9bc37a7 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -116,7 +116,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("CNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -168,7 +168,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -220,7 +220,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 7750e03..f84b8b4 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -71,7 +71,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("CNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -123,7 +123,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
@@ -175,7 +175,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   // There *should* only be one (by spec), but that's not always the case in
   // the wild; print the count...
   size_t n = tag.has_frame("PCNT");
-  os << n << sep_;
+  os << dec << n << sep_;
   if (1 == n) {
     os << tag.play_count();
   }
-- 
2.43.0


From deb530baee6bf4e415f2ce281dd31a060474d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:35 +0000
Subject: [PATCH 138/174] fix: print no comment column in CSV & TDF when none
 is asked for

Rows had one column more than the header if the number of comments was zero.
---
 scribbu/csv-pprinter.cc | 18 ++++++------------
 scribbu/tdf-pprinter.cc | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 9bc37a7..222d974 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -127,16 +127,14 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -179,16 +177,14 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -231,16 +227,14 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index f84b8b4..003e904 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -82,16 +82,14 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -134,16 +132,14 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -186,16 +182,14 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
-- 
2.43.0


From b61fdf0af5aad2a5cf9b0145da30736cdde214b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:01 +0000
Subject: [PATCH 139/174] fix: don't leave partial rows in reports

A file with text that cannot be converted left the columns preceding that text
in the report, with those of the next file following on the same line.
---
 src/report.cc | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index e560b98..705b6e9 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -34,6 +34,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <sstream>
 #include <boost/regex.hpp>
 
 
@@ -174,33 +175,38 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Compose the entire row before writing any of it: should something in this
+  // file prove un-printable, we don't want to be left with part of a row.
+  stringstream row;
+  row << print_as_csv(ncomm_, v1enc_);
+
   if (!no_dir_) {
-    ofs_ << fi.parent() << COMMA;
+    row << fi.parent() << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
+  row << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    row << *pid3v2;
   }
   else {
-    ofs_ << ",,,,,,,,,,,,,,";
-    ostream_iterator<char> oi(ofs_);
+    row << ",,,,,,,,,,,,,,";
+    ostream_iterator<char> oi(row);
     fill_n(oi, ncomm_, ',');
   }
 
-  ofs_ << "," << info << ",";
+  row << "," << info << ",";
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    row << *pid3v1;
   }
   else {
-    ofs_ << ",,,,,,,";
+    row << ",,,,,,,";
   }
 
-  ofs_ << endl;
+  ofs_ << row.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -300,33 +306,37 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // As above, compose the entire row before writing any of it
+  stringstream row;
+  row << print_as_tdf(ncomm_, v1enc_, boost::none, '\t' != sep_);
+
   if (!no_dir_) {
-    ofs_ << fi.parent() << sep_;
+    row << fi.parent() << sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
+  row << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    row << *pid3v2;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(row);
     fill_n(oi, 14 + ncomm_, sep_);
   }
 
-  ofs_ << sep_ << info << sep_;
+  row << sep_ << info << sep_;
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    row << *pid3v1;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(row);
     fill_n(oi, 7, sep_);
   }
 
-  ofs_ << endl;
+  ofs_ << row.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b0e4ba5b5bd23ccd097667a75f8a95bc1e579eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:01 +0000
Subject: [PATCH 140/174] fix: escape file names in CSV reports the way CSV
 does

Double quotes and backslashes in the names of files and directories were escaped
with a backslash.
---
 src/report.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index 705b6e9..2e0f11a 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -181,12 +181,13 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
   row << print_as_csv(ncomm_, v1enc_);
 
   if (!no_dir_) {
-    row << fi.parent() << COMMA;
+    row << quoted(fi.parent().string(), '"', '"') << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  row << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
+  row << quoted(fi.filename().string(), '"', '"') << COMMA <<
+    setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
     row << *pid3v2;
-- 
2.43.0


From 12dba869bfcafa6ef8ed51bbbaa5f8f2274d4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:01 +0000
Subject: [PATCH 141/174] fix: keep delimiters and line breaks out of TDF
 fields

Tab-delimited text has no way to escape them, so that a title with a tab gave its
row too many columns. Print spaces instead.
---
 scribbu/tdf-pprinter.cc | 34 +++++++++++++++++++++++-----------
 scribbu/tdf-pprinter.hh | 11 +++++++++++
 src/report.cc           |  5 +++--
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 003e904..8910420 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -37,6 +37,18 @@ scribbu::tdf_pprinter::DEFAULT_V1ENC = boost::none;
 const boost::optional<scribbu::encoding>
 scribbu::tdf_pprinter::DEFAULT_V2ENC = boost::none;
 
+/*static*/ std::string
+scribbu::tdf_pprinter::sanitize(const std::string &s, char sep)
+{
+  std::string r(s);
+  for (char &c: r) {
+    if (sep == c || '\n' == c || '\r' == c) {
+      c = ' ';
+    }
+  }
+  return r;
+}
+
 scribbu::tdf_pprinter::tdf_pprinter(
   std::size_t                      ncomm /*= DEFAULT_NCOMMENTS*/,
   const boost::optional<encoding> &v1enc /*= DEFAULT_V1ENC    */,
@@ -88,7 +100,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << sanitize(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -138,7 +150,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << sanitize(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -188,7 +200,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << sanitize(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -223,11 +235,11 @@ scribbu::tdf_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   tie(dst, rsp) = encoding_from_stream(os);
 
   os << tag.v1_1() << sep_ << tag.extended() << sep_ <<
-    tag.artist<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.title<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.album<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.year<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.comment<string>(v1enc_, dst, rsp) << sep_ <<
+    sanitize(tag.artist<string>(v1enc_, dst, rsp)) << sep_ <<
+    sanitize(tag.title<string>(v1enc_, dst, rsp)) << sep_ <<
+    sanitize(tag.album<string>(v1enc_, dst, rsp)) << sep_ <<
+    sanitize(tag.year<string>(v1enc_, dst, rsp)) << sep_ <<
+    sanitize(tag.comment<string>(v1enc_, dst, rsp)) << sep_ <<
     dec << (unsigned)tag.genre();
 
   return os;
@@ -249,7 +261,7 @@ scribbu::tdf_pprinter::pprint_id3v2_2_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << sanitize(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -372,7 +384,7 @@ scribbu::tdf_pprinter::pprint_id3v2_3_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << sanitize(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -537,7 +549,7 @@ scribbu::tdf_pprinter::pprint_id3v2_4_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << sanitize(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
diff --git a/scribbu/tdf-pprinter.hh b/scribbu/tdf-pprinter.hh
index 69945ee..199bdd7 100644
--- a/scribbu/tdf-pprinter.hh
+++ b/scribbu/tdf-pprinter.hh
@@ -38,6 +38,8 @@ namespace scribbu {
    * values; each entity being pretty-printed will write out its fields
    * separated by a TAB. It differs from csv_pprinter in that there is no
    * escaping mechanism-- field values containing TABS are simply not allowed.
+   * Those in text taken from ID3 tags, along with line breaks, are replaced
+   * with spaces.
    * More specifically, it produces output in the same format as the
    * \ref tdf_pprinter_ref_1 "text/tab-separated-values" MIME type.
    *
@@ -162,6 +164,15 @@ namespace scribbu {
       return new tdf_pprinter(*this);
     }
 
+  public:
+    /// Replace the characters in \a s that may not appear in a field when using
+    /// \a sep as delimiter (i.e. \a sep itself & line breaks) with spaces
+    static std::string sanitize(const std::string &s, char sep);
+
+  private:
+    std::string sanitize(const std::string &s)
+    { return sanitize(s, sep_); }
+
   private:
     std::size_t ncomm_;
     boost::optional<encoding> v1enc_;
diff --git a/src/report.cc b/src/report.cc
index 2e0f11a..5e7b0db 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -312,12 +312,13 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
   row << print_as_tdf(ncomm_, v1enc_, boost::none, '\t' != sep_);
 
   if (!no_dir_) {
-    row << fi.parent() << sep_;
+    row << fs::path(tdf_pprinter::sanitize(fi.parent().string(), sep_)) << sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  row << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
+  row << fs::path(tdf_pprinter::sanitize(fi.filename().string(), sep_)) <<
+    sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
     row << *pid3v2;
-- 
2.43.0


From 408871293c744fca2062612f32c64ab675a8e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:57 +0000
Subject: [PATCH 142/174] fix: free and copy a stream's encoding as what it is

The callback registered for streams imbued with an encoding freed it as a char,
and copied it as a C string.
---
 scribbu/ostream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/ostream.cc b/scribbu/ostream.cc
index 632e931..adbb779 100644
--- a/scribbu/ostream.cc
+++ b/scribbu/ostream.cc
@@ -80,7 +80,7 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
 
   if (ios_base::erase_event == e) {
     try {
-      delete reinterpret_cast<char*>(ios.pword(idx));
+      delete reinterpret_cast<ienc*>(ios.pword(idx));
     }
     catch (...) {
       // Nothing to be done-- either the stream is being destroyed, or
@@ -91,10 +91,10 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
   }
   else if (ios_base::copyfmt_event == e) {
     void *&p = ios.pword(idx);
-    char *pold = reinterpret_cast<char*>(p);
+    ienc *pold = reinterpret_cast<ienc*>(p);
     if (nullptr != pold) {
       try {
-        p = strdup(pold);
+        p = new ienc(*pold);
       }
       catch (...) {
         // We can't throw, and we have no return code. The only thing
-- 
2.43.0


From f922044a17594a924128e91085c2a12f43aa1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:17 +0000
Subject: [PATCH 143/174] fix: don't dump parts of files

A file with text that cannot be converted was dumped up to that text, leaving,
for instance, JSON that cannot be parsed.
---
 src/dump.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 2abfb3a..77ac0c7 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -35,6 +35,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <sstream>
 #include <boost/regex.hpp>
 
 
@@ -239,27 +240,32 @@ namespace {
       scribbu::track_data td((istream&)ifs);
       unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(ifs);
 
+      // Compose everything before writing any of it: should something in this
+      // file prove un-printable, we don't want to be left with part of it.
+      ostringstream stm;
+      stm.copyfmt(cout);
+
       if (format::json != fmt_) {
-        cout << pth
+        stm << pth
              << ":\nLast Modified: " << put_time(localtime(&mtime), TMFMT)
              << endl;
       }
 
       if (dump_id3v2_) {
         for (ptrdiff_t i = 0, n = id3v2.size(); i < n; ++i) {
-          cout << *(id3v2[i]);
+          stm << *(id3v2[i]);
         }
       }
 
       if (dump_track_) {
-        cout << td;
+        stm << td;
       }
 
       if (dump_id3v1_ && pid3v1) {
-        cout << *pid3v1;
+        stm << *pid3v1;
       }
 
-      cout << endl;
+      cout << stm.str() << endl;
 
     }
     catch (const std::exception &ex) {
-- 
2.43.0


From 1e807ff0f8f1bbc6ba42f7addb266a937f5f8d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:34 +0000
Subject: [PATCH 144/174] fix: validate the text of tag clouds when printing it
 as JSON

The owners, keys and values of XTAG frames were printed as they are, even if
they aren't UTF-8 text, which isn't JSON.
---
 scribbu/json-pprinter.cc | 75 ++++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 7c84fbc..724476a 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -355,24 +355,37 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
   using namespace std;
   using boost::algorithm::join;
 
+  encoding dst;
+  on_no_encoding rsp;
+  tie(dst, rsp) = encoding_from_stream(os);
+
+  auto cvt = [dst, rsp](const string &x) {
+    auto buf = convert_encoding(x, encoding::UTF_8, dst, false, rsp);
+    return string(buf.begin(), buf.end());
+  };
+
   vector<string> tags;
   transform(frm.begin(), frm.end(), back_inserter(tags),
-            [](const pair<const string, set<string>> &pr) {
-              auto first = escape(pr.first);
-              switch (pr.second.size()) {
+            [&cvt](const pair<const string, set<string>> &pr) {
+              auto first = escape(cvt(pr.first));
+              set<string> vals;
+              for (const auto &val : pr.second) {
+                vals.insert(cvt(val));
+              }
+              switch (vals.size()) {
               case 0:
                 return "\"" + first + "\"";
               case 1:
-                return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
+                return "{\"" + first + R"(":")" + escape(*vals.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + escape(pr.second) + "]}";
+                return "{\"" + first + R"(":[)" + escape(vals) + "]}";
                }
             });
 
   return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner())
+            << R"(,"owner":")" << escape(cvt(frm.owner()))
             << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
@@ -526,24 +539,37 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
   using namespace std;
   using boost::algorithm::join;
 
+  encoding dst;
+  on_no_encoding rsp;
+  tie(dst, rsp) = encoding_from_stream(os);
+
+  auto cvt = [dst, rsp](const string &x) {
+    auto buf = convert_encoding(x, encoding::UTF_8, dst, false, rsp);
+    return string(buf.begin(), buf.end());
+  };
+
   vector<string> tags;
   transform(frm.begin(), frm.end(), back_inserter(tags),
-            [](const pair<const string, set<string>> &pr) {
-              auto first = escape(pr.first);
-              switch (pr.second.size()) {
+            [&cvt](const pair<const string, set<string>> &pr) {
+              auto first = escape(cvt(pr.first));
+              set<string> vals;
+              for (const auto &val : pr.second) {
+                vals.insert(cvt(val));
+              }
+              switch (vals.size()) {
               case 0:
                 return "\"" + first + "\"";
               case 1:
-                return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
+                return "{\"" + first + R"(":")" + escape(*vals.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + escape(pr.second) + "]}";
+                return "{\"" + first + R"(":[)" + escape(vals) + "]}";
                }
             });
 
   return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner())
+            << R"(,"owner":")" << escape(cvt(frm.owner()))
             << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
@@ -717,24 +743,37 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
   using namespace std;
   using boost::algorithm::join;
 
+  encoding dst;
+  on_no_encoding rsp;
+  tie(dst, rsp) = encoding_from_stream(os);
+
+  auto cvt = [dst, rsp](const string &x) {
+    auto buf = convert_encoding(x, encoding::UTF_8, dst, false, rsp);
+    return string(buf.begin(), buf.end());
+  };
+
   vector<string> tags;
   transform(frm.begin(), frm.end(), back_inserter(tags),
-            [](const pair<const string, set<string>> &pr) {
-              auto first = escape(pr.first);
-              switch (pr.second.size()) {
+            [&cvt](const pair<const string, set<string>> &pr) {
+              auto first = escape(cvt(pr.first));
+              set<string> vals;
+              for (const auto &val : pr.second) {
+                vals.insert(cvt(val));
+              }
+              switch (vals.size()) {
               case 0:
                 return "\"" + first + "\"";
               case 1:
-                return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
+                return "{\"" + first + R"(":")" + escape(*vals.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + escape(pr.second) + "]}";
+                return "{\"" + first + R"(":[)" + escape(vals) + "]}";
                }
             });
 
   return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner())
+            << R"(,"owner":")" << escape(cvt(frm.owner()))
             << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
-- 
2.43.0


From 1415436b6c6aa08436bdcc5e03e070a61aa35670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:34 +0000
Subject: [PATCH 145/174] fix: print frame IDs that aren't ASCII as valid JSON

The ID of an unknown frame may be any three or four bytes. Bytes that aren't
ASCII were printed as they are, which isn't UTF-8.
---
 scribbu/json-pprinter.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 724476a..955c7e2 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -234,7 +234,16 @@ scribbu::json_pprinter::pprint_unk_id3v2_2_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
+  encoding dst;
+  on_no_encoding rsp;
+  tie(dst, rsp) = encoding_from_stream(os);
+
+  // Any bytes at all may serve as the ID of an unknown frame
+  auto buf = convert_encoding(frm.id().as_string(), encoding::ISO_8859_1, dst,
+                              false, rsp);
+  string id(buf.begin(), buf.end());
+
+  return os << R"({"id":")" << escape(id) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -397,7 +406,16 @@ scribbu::json_pprinter::pprint_unk_id3v2_3_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
+  encoding dst;
+  on_no_encoding rsp;
+  tie(dst, rsp) = encoding_from_stream(os);
+
+  // Any bytes at all may serve as the ID of an unknown frame
+  auto buf = convert_encoding(frm.id().as_string(), encoding::ISO_8859_1, dst,
+                              false, rsp);
+  string id(buf.begin(), buf.end());
+
+  return os << R"({"id":")" << escape(id) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -603,7 +621,16 @@ scribbu::json_pprinter::pprint_unk_id3v2_4_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
+  encoding dst;
+  on_no_encoding rsp;
+  tie(dst, rsp) = encoding_from_stream(os);
+
+  // Any bytes at all may serve as the ID of an unknown frame
+  auto buf = convert_encoding(frm.id().as_string(), encoding::ISO_8859_1, dst,
+                              false, rsp);
+  string id(buf.begin(), buf.end());
+
+  return os << R"({"id":")" << escape(id) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
-- 
2.43.0


From 0bc3c417950d0d614676f880bdb30a4e65a1ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:34 +0000
Subject: [PATCH 146/174] fix: read e-mail addresses in POP frames as
 ISO-8859-1 when printing

As in the other pretty-printers, and as for POPM frames: a POP frame with an
address that isn't UTF-8 could not be printed as CSV or JSON.
---
 scribbu/csv-pprinter.cc  | 2 +-
 scribbu/json-pprinter.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 222d974..abda384 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -366,7 +366,7 @@ scribbu::csv_pprinter::pprint_POP(const POP &f, std::ostream &os)
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  encoding src = encoding::UTF_8;
+  encoding src = encoding::ISO_8859_1;
   if (v2enc_) {
     src = *v2enc_;
   }
diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 955c7e2..6046ad0 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -343,7 +343,7 @@ scribbu::json_pprinter::pprint_POP(const POP &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  encoding src = encoding::UTF_8;
+  encoding src = encoding::ISO_8859_1;
   if (v2enc_) {
     src = *v2enc_;
   }
-- 
2.43.0


From f71ef3180b2fbdc0de1c84a449e6434433f8b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:34 +0000
Subject: [PATCH 147/174] fix: print XTAG and PRIV frames in ID3v2.4 tags

Their printers were registered for frames in ID3v2.3 tags, so printing an
ID3v2.4 tag with such a frame failed.
---
 scribbu/pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 49502e8..9c661ac 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -291,8 +291,8 @@ pprint_dispatcher::pprint_dispatcher()
   reg_v24_frame<COMM_2_4, &pprinter::pprint_COMM_2_4>();
   reg_v24_frame<PCNT_2_4, &pprinter::pprint_PCNT_2_4>();
   reg_v24_frame<POPM_2_4, &pprinter::pprint_POPM_2_4>();
-  reg_v23_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
-  reg_v23_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
+  reg_v24_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
+  reg_v24_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
 
 }
 
-- 
2.43.0


From 76422418db1fe82f275e99772deae68e64681849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:53 +0000
Subject: [PATCH 148/174] fix: restore the read position when an ID3v2 tag
 can't be read

maybe_read_id3v2() left the stream past the header of a tag it could not parse,
so that trying again would have found no tag there.
---
 scribbu/id3v2-utils.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index e3c7f8f..2a7b08f 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -43,19 +43,26 @@ namespace fs = std::filesystem;
 std::unique_ptr<scribbu::id3v2_tag>
 scribbu::maybe_read_id3v2(std::istream &is)
 {
+  std::streampos here = is.tellg();
+
   id3v2_info H = looking_at_id3v2(is, false);
   if (!H.present_) {
     return std::unique_ptr<scribbu::id3v2_tag>();
   }
 
-  if (2 == H.version_) {
-    return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_2_tag(is, H));
-  } else if (3 == H.version_) {
-    return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_3_tag(is, H));
-  } else if (4 == H.version_) {
-    return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_4_tag(is, H));
-  } else {
-    throw id3v2_tag::unknown_version(H.version_);
+  try {
+    if (2 == H.version_) {
+      return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_2_tag(is, H));
+    } else if (3 == H.version_) {
+      return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_3_tag(is, H));
+    } else if (4 == H.version_) {
+      return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_4_tag(is, H));
+    } else {
+      throw id3v2_tag::unknown_version(H.version_);
+    }
+  } catch (...) {
+    is.seekg(here, std::ios_base::beg);
+    throw;
   }
 
 }
-- 
2.43.0


From 76cf0c4ca6f36f90c3cd644712080c00c9731dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:53 +0000
Subject: [PATCH 149/174] fix: restore the read position when constructing an
 ID3v2 tag fails

The constructors reading a tag, header included, from a stream left that stream
past the header of a tag they could not parse.
---
 scribbu/id3v22.cc | 15 +++++++++++----
 scribbu/id3v23.cc | 15 +++++++++++----
 scribbu/id3v24.cc | 17 ++++++++++++-----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 1ef30a0..fdf9257 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -174,15 +174,22 @@ scribbu::id3v2_2_tag::id3v2_2_tag(std::istream &is): id3v2_tag(is)
   get_default_text_frame_parsers(
     std::inserter(text_parsers_, text_parsers_.begin()));
 
+  std::streampos here = is.tellg() - std::streamoff(5);
+
   // id3v2_tag has consumed the first five bytes of the header-- this call will
   // consume the next five...
   std::size_t size;
   unsigned char flags;
-  std::tie(flags, size) = parse_flags_and_size(is);
+  try {
+    std::tie(flags, size) = parse_flags_and_size(is);
 
-  unsynchronised(0 != (flags & 0x80));
-  compression_ = flags & 0x40;
-  parse(is, size);
+    unsynchronised(0 != (flags & 0x80));
+    compression_ = flags & 0x40;
+    parse(is, size);
+  } catch (...) {
+    is.seekg(here, std::ios_base::beg);
+    throw;
+  }
 }
 
 scribbu::id3v2_2_tag::id3v2_2_tag(std::istream     &is,
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 6cd13c4..3fc1114 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -327,15 +327,22 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream &is):
   get_default_text_frame_parsers(std::inserter(
     text_parsers_, text_parsers_.begin()));
 
+  std::streampos here = is.tellg() - std::streamoff(5);
+
   // id3v2_tag has consumed the first five bytes of the header-- this call will
   // consume the next five...
   std::size_t size;
   unsigned char flags;
-  std::tie(flags, size) = parse_flags_and_size(is);
+  try {
+    std::tie(flags, size) = parse_flags_and_size(is);
 
-  unsynchronised(0 != (flags & 0x80));
-  experimental_ = flags & 0x20;
-  parse(is, size, flags & 0x40);
+    unsynchronised(0 != (flags & 0x80));
+    experimental_ = flags & 0x20;
+    parse(is, size, flags & 0x40);
+  } catch (...) {
+    is.seekg(here, std::ios_base::beg);
+    throw;
+  }
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index ee93935..7618cec 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -470,16 +470,23 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::istream &is): id3v2_tag(is), padding_(0)
   get_default_text_frame_parsers(std::inserter(
     text_parsers_, text_parsers_.begin()));
 
+  std::streampos here = is.tellg() - std::streamoff(5);
+
   // id3v2_tag has consumed the first five bytes of the header-- this call will
   // consume the next five...
   std::size_t size;
   unsigned char flags;
-  std::tie(flags, size) = parse_flags_and_size(is);
+  try {
+    std::tie(flags, size) = parse_flags_and_size(is);
 
-  unsynchronised(0 != (flags & 0x80));
-  experimental_ = flags & 0x20;
-  footer_ = flags & 0x10;
-  parse(is, size, flags & 0x40);
+    unsynchronised(0 != (flags & 0x80));
+    experimental_ = flags & 0x20;
+    footer_ = flags & 0x10;
+    parse(is, size, flags & 0x40);
+  } catch (...) {
+    is.seekg(here, std::ios_base::beg);
+    throw;
+  }
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(std::istream     &is,
-- 
2.43.0


From 5de0ae87440815f751385f63b49c3a6167a8f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:53 +0000
Subject: [PATCH 150/174] fix: read ID3v2 tags by index

read_id3v2() had the tags read themselves beginning at their headers, rather
than past them. It also overlooked footers in skipping ID3v2.4 tags, and left
the stream elsewhere on failure.
---
 scribbu/id3v2-utils.cc | 46 +++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index 2a7b08f..d7bb88b 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -70,28 +70,38 @@ scribbu::maybe_read_id3v2(std::istream &is)
 std::unique_ptr<scribbu::id3v2_tag>
 scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
 {
-  // advance to the idx-th ID3v2 tag
-  for (std::size_t i = 0; i < idx; ++i) {
-    id3v2_info I = looking_at_id3v2(ifs, true);
-    if (!I.present_) {
+  std::streampos here = ifs.tellg();
+
+  try {
+
+    // advance to the idx-th ID3v2 tag
+    for (std::size_t i = 0; i < idx; ++i) {
+      id3v2_info I = looking_at_id3v2(ifs, true);
+      if (!I.present_) {
+        throw std::invalid_argument("bad index");
+      }
+      // Not every stream can be positioned past its end
+      std::ios_base::iostate exc_mask = ifs.exceptions();
+      ifs.exceptions(std::ios_base::goodbit);
+      bool there = ifs.seekg(I.total_size(), std::ifstream::cur).good();
+      ifs.clear();
+      ifs.exceptions(exc_mask);
+      if (!there) {
+        throw std::invalid_argument("bad index");
+      }
+    }
+
+    std::unique_ptr<scribbu::id3v2_tag> ptag = maybe_read_id3v2(ifs);
+    if (!ptag) {
       throw std::invalid_argument("bad index");
     }
-    ifs.seekg(I.size_ + scribbu::ID3V2_HEADER_SIZE, std::ifstream::cur);
-  }
 
-  id3v2_info I = looking_at_id3v2(ifs, true);
-  if (!I.present_) {
-    throw std::invalid_argument("bad index");
-  }
+    return ptag;
 
-  if (2 == I.version_) {
-    return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_2_tag(ifs, I));
-  } else if (3 == I.version_) {
-    return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_3_tag(ifs, I));
-  } else if (4 == I.version_) {
-    return std::unique_ptr<scribbu::id3v2_tag>(new id3v2_4_tag(ifs, I));
-  } else {
-    throw id3v2_tag::unknown_version(I.version_);
+  } catch (...) {
+    ifs.clear();
+    ifs.seekg(here, std::ios_base::beg);
+    throw;
   }
 
 }
-- 
2.43.0


From bce67147cb3c76b49a3b622433a4a549b5d78d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:53 +0000
Subject: [PATCH 151/174] fix: restore the read position in find_id3v1_tag()

It was left at the end of the file, or within the tag, so compute_track_md5()
failed unless given the end of the track.
---
 scribbu/scribbu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 308bb77..6540846 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -219,6 +219,8 @@ scribbu::find_id3v1_tag(std::istream &is)
     tag = is.tellg();
   }
 
+  // Leave the stream as we found it
+  is.seekg(here, std::ios_base::beg);
   is.exceptions(exc_mask);
 
   return std::make_tuple(here, tag);
-- 
2.43.0


From 1fb76fbf3e10ddf713da5ca5bd85d6a2edfe38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:04 +0000
Subject: [PATCH 152/174] fix: don't repeat the header when appending to a
 playlist

As documented, m3u --append adds entries to an existing playlist. It wrote
another #EXTM3U line in the middle of the file, as well.
---
 src/m3u.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 64126a4..de483e6 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -270,7 +270,12 @@ namespace {
       throw scribbu::file_open_error(out.native(), errno);
     }
 
-    ofs_ << "#EXTM3U" << endl;
+    // If we're appending to an existing playlist, it already has its header
+    error_code ec;
+    uintmax_t cb = fs::file_size(out, ec);
+    if (!append || ec || 0 == cb) {
+      ofs_ << "#EXTM3U" << endl;
+    }
 
   }
 
-- 
2.43.0


From a060d46eb71b26e2b1912e4460b0e5a40fc8c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:04 +0000
Subject: [PATCH 153/174] fix: heed m3u's --source-encoding option

The option was looked up under another name, and so was never seen.
---
 src/m3u.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index de483e6..8030ba5 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -391,8 +391,8 @@ namespace {
       //////////////////////////////////////////////////////////////////////////
 
       boost::optional<encoding> src_enc = boost::none;
-      if (vm.count("encoding")) {
-        src_enc = vm["encoding"].as<encoding>();
+      if (!vm["source-encoding"].defaulted()) {
+        src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
         vm["output"].as<fs::path>() : fs::path();
-- 
2.43.0


From bc1f00d9e022ed63a3631b7e688a79746c1acd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:04 +0000
Subject: [PATCH 154/174] fix: keep display titles in playlists on one line

The remainder of an artist or title containing a line break was written on a
line of its own, which is to say as if it were the path of a track.
---
 src/m3u.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index 8030ba5..d1c895e 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -208,6 +208,10 @@ namespace {
       display = pth.stem().native();
     }
 
+    // An entry's display title ends with the line it's on
+    replace_if(display.begin(), display.end(),
+               [](char c) { return '\n' == c || '\r' == c; }, ' ');
+
     os_ << "#EXTINF:" << (int) (secs + 0.5) << "," << display << "\n" <<
       pth.native() << endl;
   }
-- 
2.43.0


From 6a9eb4b48d88d43cdebbfb8450a717fb4cc868f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:23 +0000
Subject: [PATCH 155/174] fix: accept output names with spaces

Boost.Program_options extracts paths from a stream, stopping at the first space
and taking quotes for delimiters. Such names were refused by the --output
options of m3u, rename and report.
---
 src/m3u.cc    | 4 ++--
 src/rename.cc | 4 ++--
 src/report.cc | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index d1c895e..9cee7b6 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -345,7 +345,7 @@ namespace {
         on_no_encoding::fail),
        "specify how to handle encoding errors; may be one of 'fail', "
        "'transliterate', or 'ignore' (defaults to 'fail')")
-      ("output,o", po::value<fs::path>(), "specify that output be written to "
+      ("output,o", po::value<std::string>(), "specify that output be written to "
        "file instead of stdout")
       ("source-encoding,s", po::value<encoding>()->default_value(encoding::CP1252),
        "specify the text encoding in which textual ID3 tags like artist & title "
@@ -399,7 +399,7 @@ namespace {
         src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
-        vm["output"].as<fs::path>() : fs::path();
+        vm["output"].as<std::string>() : std::string();
       bool verbose = vm["verbose"].as<bool>();
       bool append = vm["append"].as<bool>();
       if (append && out.empty()) {
diff --git a/src/rename.cc b/src/rename.cc
index 241701c..6216345 100644
--- a/src/rename.cc
+++ b/src/rename.cc
@@ -206,7 +206,7 @@ namespace {
     opts.add_options()
       ("dry-run,n", po::bool_switch(), "Dry-run; only print what would "
        "happen")
-      ("output,o", po::value<fs::path>(), "If specified, copy the output files "
+      ("output,o", po::value<std::string>(), "If specified, copy the output files "
        "to this directory, rather than renaming in-place.")
       ("rename,r", po::bool_switch()->default_value(DEFAULT_RENAME),
        "Remove the source file (ignored if --dry-run is given)")
@@ -277,7 +277,7 @@ namespace {
       bool dry_run = vm["dry-run"].as<bool>();
       fs::path output;
       if (vm.count("output")) {
-        output = vm["output"].as<fs::path>();
+        output = vm["output"].as<std::string>();
       }
       std::string templat = vm["template"].as<std::string>();
       bool rename = vm["rename"].as<bool>();
diff --git a/src/report.cc b/src/report.cc
index 5e7b0db..5d624c2 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -521,7 +521,7 @@ namespace {
     opts.add_options()
       ("num-comments,c", po::value<size_t>()->default_value(6),
        "Number of comment tags to be printed (their # will always be reported")
-      ("output,o", po::value<fs::path>()->required(), "output file to which the "
+      ("output,o", po::value<std::string>()->required(), "output file to which the "
        "results will be written")
       ("tsv,t", po::bool_switch(), "select tab-separated values instead of "
        "comma-separated values")
@@ -617,7 +617,7 @@ namespace {
       //   sending the results to the reporter
 
       size_t   ncomm   = vm["num-comments"   ].as<size_t  >();
-      fs::path out     = vm["output"         ].as<fs::path>();
+      fs::path out     = vm["output"         ].as<std::string>();
       encoding v1enc   = vm["v1-encoding"    ].as<encoding>();
       bool     no_dir  = vm["no-directory"   ].as<bool    >();
       bool     tdf     = vm["tsv"            ].as<bool    >();
-- 
2.43.0


From 26269c2478e615c20aefdfbe2e55e6681d1748cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:13 +0000
Subject: [PATCH 156/174] fix: read compressed UFID, ENCR and PRIV frames into
 Scheme

Their compressed contents were cut to the size of the uncompressed ones,
or, if shorter, made the whole file unreadable.
---
 scribbu/scheme-serde.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 656922f..96ce470 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -265,11 +265,22 @@ namespace {
     } else if (auto p = dynamic_cast<const scribbu::unknown_id3v2_4_frame*>(&f)) {
       p->data(std::back_inserter(data));
     } else {
-      std::size_t cb = f.size();
-      if (cb > s.length()) {
-        throw std::logic_error("compressed frame");
+      // `s' may be compressed-- go back to the frame's contents
+      std::stringstream payload;
+      if (auto p = dynamic_cast<const scribbu::unique_file_id*>(&f)) {
+        p->write(payload);
+      } else if (auto p = dynamic_cast<const scribbu::encryption_method*>(&f)) {
+        p->write(payload);
+      } else if (auto p = dynamic_cast<const scribbu::private_frame*>(&f)) {
+        p->write(payload);
+      } else {
+        std::size_t cb = f.size();
+        if (cb > s.length()) {
+          throw std::logic_error("compressed frame");
+        }
+        payload << s.substr(s.length() - cb);
       }
-      data += s.substr(s.length() - cb);
+      data += payload.str();
     }
     return data;
   }
-- 
2.43.0


From ce69026d41d9dbeb394f3bbd69d5a8180ab96092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:13 +0000
Subject: [PATCH 157/174] fix: write any text from Scheme to ID3v2.2 and
 ID3v2.3 tags

Text frames were always written as ISO-8859-1, so that tags with text
outside of it could not be written back.
---
 scribbu/scheme-serde.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 96ce470..378ba13 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -23,6 +23,8 @@
 
 #include "scheme-serde.hh"
 
+#include <algorithm>
+
 #include "dynwind-context.hh"
 
 const scribbu::frame_id3 TAL("TAL");
@@ -297,6 +299,17 @@ namespace {
     }
   }
 
+  /// Return true if \a txt, encoded as UTF-8, cannot be written as
+  /// ISO-8859-1
+  bool
+  needs_ucs2(const std::string &txt)
+  {
+    // The code points up to 255 have lead bytes up to 0xc3
+    return std::any_of(txt.begin(), txt.end(), [](unsigned char c) {
+      return c > 0xc3;
+    });
+  }
+
   SCM
   init_frame(const std::string &cls, SCM id)
   {
@@ -854,7 +867,8 @@ namespace {
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
 
     return unique_ptr<id3v2_2_frame>(
-      new id3v2_2_text_frame(id, txt, encoding::UTF_8));
+      new id3v2_2_text_frame(id, txt, encoding::UTF_8, needs_ucs2(txt),
+                             on_no_encoding::fail, needs_ucs2(txt)));
 
   }
 
@@ -889,9 +903,9 @@ namespace {
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
 
     return unique_ptr<id3v2_3_frame>(
-      new id3v2_3_text_frame(id, txt, encoding::UTF_8, false,
+      new id3v2_3_text_frame(id, txt, encoding::UTF_8, needs_ucs2(txt),
                              on_no_encoding::fail,
-                             false, tap, fap, ro));
+                             needs_ucs2(txt), tap, fap, ro));
 
   }
 
-- 
2.43.0


From 0c2b6fa55dbbdaaf526abedd93b3c2d95dfeda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:36 +0000
Subject: [PATCH 158/174] fix: leave empty directories out of
 flat-file-system-tree

It lists regular files.
---
 scheme/scribbu.scm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/scribbu.scm b/scheme/scribbu.scm
index b11d30b..3765220 100644
--- a/scheme/scribbu.scm
+++ b/scheme/scribbu.scm
@@ -61,7 +61,10 @@
 
 (define (strip-stat-from-file-system-tree parent entry)
   (match entry
-         ((name stat) (string-append parent "/" name))
+         ((name stat)
+          (if (eq? 'directory (stat:type stat))
+              '() ; an empty directory
+              (string-append parent "/" name)))
 	       ((name stat children ...)
 	        (map
 	         (lambda (x)
-- 
2.43.0


From 03b8f383a3f970687610137b95005352103e29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:29 +0000
Subject: [PATCH 159/174] fix: print ENCR frames legibly

The method symbol and the encryption data were printed as raw characters.
---
 scribbu/pprinter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 9c661ac..0a9ddbb 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -733,13 +733,13 @@ scribbu::standard_pprinter::pprint_ENCR(const ENCR &frame, std::ostream &os)
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
@@ -901,13 +901,13 @@ scribbu::standard_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frame, std::ostream
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
-- 
2.43.0


From 99a38d3879442708468cb3430da21f2c82f52839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:29 +0000
Subject: [PATCH 160/174] fix: print play counts of 2^32 and more

They were cut to 32 bits.
---
 scribbu/pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 0a9ddbb..4ae0380 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -634,7 +634,7 @@ scribbu::standard_pprinter::pprint_CNT(const CNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -782,7 +782,7 @@ scribbu::standard_pprinter::pprint_PCNT(const PCNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -950,7 +950,7 @@ scribbu::standard_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &frame, std::ostream
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From 0e9e38750e0df80c691aaeb40d5968f87f60b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:29 +0000
Subject: [PATCH 161/174] fix: print one octet for each letter of an unknown
 language

Letters outside ASCII were printed sign-extended.
---
 scribbu/pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 4ae0380..5f47dda 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -99,9 +99,9 @@ std::string comment_lang(const scribbu::comments &frame) {
     stm2 << *strict_lang;
   } else {
     stm2 << hex << setfill('0') <<
-      "0x" << setw(2) << (unsigned)blang[0] << "," <<
-      "0x" << setw(2) << (unsigned)blang[1] << "," <<
-      "0x" << setw(2) << (unsigned)blang[2];
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[0] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[1] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[2];
   }
 
   return stm2.str();
-- 
2.43.0


From 16b23307fb0a1abadf2de775d2b91754f3af4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:37:24 +0000
Subject: [PATCH 162/174] fix: don't take part of an ID3v2 tag for an ID3v1 tag

ends_in_id3v1 took any "TAG" found 128 bytes before the end of a stream for
an ID3v1 tag, even within the ID3v2 tags at its front; this happens in files
with little audio when the ID of an XTAG frame is in just the wrong place.
---
 scribbu/id3v1.cc | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 09f27ab..7d9340f 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -23,6 +23,8 @@
 
 #include <scribbu/id3v1.hh>
 
+#include <scribbu/id3v2.hh>
+
 #include <filesystem>
 #include <fstream>
 
@@ -470,6 +472,26 @@ scribbu::id3v1_tag::init_extended(unsigned char *p)
 //                          free functions                                  //
 //////////////////////////////////////////////////////////////////////////////
 
+namespace {
+
+  /// Return the offset of the first byte after the ID3v2 tags (if any) at the
+  /// front of a stream of length \a cb; tags that overrun the stream don't count
+  std::streamoff
+  end_of_id3v2(std::istream &is, std::streamoff cb)
+  {
+    std::streamoff off = 0;
+    for (;;) {
+      is.seekg(off, std::ios_base::beg);
+      scribbu::id3v2_info H = scribbu::looking_at_id3v2(is);
+      if (!H.present_ || cb - off < (std::streamoff) H.total_size()) {
+        return off;
+      }
+      off += H.total_size();
+    }
+  }
+
+}
+
 scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
 {
   // const std::ios::iostate EXC_MASK = std::ios::eofbit | std::ios::failbit | std::ios::badbit;
@@ -505,7 +527,8 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
         // The enhanced tag always precedes the standard tag
         is.seekg(-128, std::ios_base::end);
         is.read(buf, 3);
-        if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+        if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] &&
+            end_of_id3v2(is, I.end_) <= I.end_ - (std::streamoff) 355) {
           I.start_ = I.end_ - (std::streamoff) 355;
           I.type_ = id3_v1_tag_type::v_1_extended;
         }
@@ -523,8 +546,11 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
     try {
       is.seekg(-128, std::ios_base::end);
       is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
-        I.start_ = is.tellg() - (std::streampos) 3;
+      // Beware of an ID3v2 tag that happens to contain "TAG" (in the ID of an
+      // "XTAG" frame, say) 128 bytes before the end.
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] &&
+          end_of_id3v2(is, I.end_) <= I.end_ - (std::streamoff) 128) {
+        I.start_ = I.end_ - (std::streamoff) 128;
         I.type_ = id3_v1_tag_type::v_1;
       }
     }
-- 
2.43.0


From 05c0207017cd4a268cedbd5b5c49aff0a9613035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:34 +0000
Subject: [PATCH 163/174] fix: write long titles, artists & albums to ID3v1
 tags from Scheme

write-id3v1-tag made an enhanced tag only if one of the fields that are new in
enhanced tags was set. A tag read from a file with nothing but a long title in
its enhanced part lost the end of that title when written.
---
 scribbu/scheme.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 36ff487..8f8e903 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -610,7 +610,11 @@ extern "C" {
       bool enh = (strlen(c_enh_genre)  != 0) ||
         (speed != 0)                ||
         (strlen(c_start_time) != 0) ||
-        (strlen(c_end_time)   != 0);
+        (strlen(c_end_time)   != 0) ||
+        // Only an enhanced tag has room for more than thirty characters
+        (scm_c_string_length(scm_title)  > 30) ||
+        (scm_c_string_length(scm_artist) > 30) ||
+        (scm_c_string_length(scm_album)  > 30);
 
       id3v1_tag tag(v11, enh);
 
-- 
2.43.0


From ad96fa87968d7a71878ae65b71f19cd2c30192f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:43 +0000
Subject: [PATCH 164/174] fix: write language codes in lower case

The enumerators for five languages are in capitals only to keep clear of macros
& keywords; their ISO 639-2 codes aren't.
---
 scribbu/charsets.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 1fd6232..427c98a 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1243,7 +1243,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(arp);
     F(art);
     F(arw);
-    F(ASM);
+    case language::ASM: // cf. the declaration of `language'
+      G("asm");
+      break;
     F(ast);
     F(ath);
     F(aus);
@@ -1329,7 +1331,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(deu);
     F(dgr);
     F(din);
-    F(DIV);
+    case language::DIV: // cf. the declaration of `language'
+      G("div");
+      break;
     F(doi);
     F(dra);
     F(dsb);
@@ -1497,7 +1501,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(mal);
     F(man);
     F(mao);
-    F(MAP);
+    case language::MAP: // cf. the declaration of `language'
+      G("map");
+      break;
     F(mar);
     F(mas);
     F(may);
@@ -1506,7 +1512,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(men);
     F(mga);
     F(mic);
-    F(MIN);
+    case language::MIN: // cf. the declaration of `language'
+      G("min");
+      break;
     F(mis);
     F(mkd);
     F(mkh);
@@ -1538,7 +1546,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(ndo);
     F(nds);
     F(nep);
-    F(NEW);
+    case language::NEW: // cf. the declaration of `language'
+      G("new");
+      break;
     F(nia);
     F(nic);
     F(niu);
-- 
2.43.0


From baa98f88042aa610cdbbb9a09c9d9209499bd3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:08 +0000
Subject: [PATCH 165/174] fix: list the sub-commands where the rest of the
 usage message goes

A mistaken option gets the usage message on standard error, but the names
of the sub-commands went to standard output.
---
 src/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scribbu.cc b/src/scribbu.cc
index 713c06b..5553555 100644
--- a/src/scribbu.cc
+++ b/src/scribbu.cc
@@ -251,7 +251,7 @@ For detailed help, say `scribbu --help'. To see the scribbu manual, say `info sc
 
     os << "scribbu sub-commands (run `scribbu <sub-command> -h' for a " <<
       "usage message):\n\n    ";
-    ostream_iterator<string> out(cout, "\n    ");
+    ostream_iterator<string> out(os, "\n    ");
     copy(sub_cmd_names.begin(), sub_cmd_names.end(), out);
     os << endl;
   }
-- 
2.43.0


From 5c9efbb8ce4dcec8684f35ee03771db6bab19daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:08 +0000
Subject: [PATCH 166/174] fix: say that m3u needs arguments

Without any, it failed with bad_any_cast. The other sub-commands that need
files report this as incorrect usage.
---
 src/m3u.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 9cee7b6..00111a3 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -357,7 +357,7 @@ namespace {
     po::options_description xopts("hidden options");
     xopts.add_options()
       // Work around to https://svn.boost.org/trac/boost/ticket/8535
-      ("arguments", po::value<std::vector<string>>(), "one or more "
+      ("arguments", po::value<std::vector<string>>()->required(), "one or more "
        "files or directories to be examined; if a directory is given, it will "
        "be searched recursively");
 
-- 
2.43.0


From 6fc90419cbf4ea6f76996a8c45ce727a6f6c35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:22 +0000
Subject: [PATCH 167/174] fix: give scripts their arguments in the user's
 locale

The C locale was in effect when Guile decoded the command line, so that
any character outside ASCII in a script's name or arguments became a
question mark.
---
 src/scribbu.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scribbu.cc b/src/scribbu.cc
index 5553555..16eea0f 100644
--- a/src/scribbu.cc
+++ b/src/scribbu.cc
@@ -28,6 +28,7 @@
 #include <scribbu/scheme.hh>
 
 #include <libguile.h>
+#include <locale.h>
 #include <signal.h>
 #include <sys/resource.h>
 
@@ -459,6 +460,10 @@ main(int argc, char * argv[])
       //     nonnegative. argv[argc] shall be a null pointer."
       gargv[gargc] = 0;
 
+      // Guile decodes the command line (and encodes filenames) per the current
+      // locale; like the `guile' program, install the one our user has chosen.
+      setlocale(LC_ALL, "");
+
       init_guile initg = { DATADIR };
       scm_with_guile(&initialize_guile, &initg);
       scm_shell(gargc, gargv.get());
-- 
2.43.0


From ad8e3ff34c5f45aed1ab00713dc689c19f87cba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:51 +0000
Subject: [PATCH 168/174] fix: take the values of rip-tracks' options

Values given as in `--artist=NAME' were all taken to be "0", the regular
expression used to pick them out being an extended one where `expr' takes
basic ones. `--temp=' was misspelled, too.
---
 contrib/rip-tracks.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/rip-tracks.in b/contrib/rip-tracks.in
index 988b22d..d6175dd 100755
--- a/contrib/rip-tracks.in
+++ b/contrib/rip-tracks.in
@@ -41,7 +41,7 @@ do
 
     # Parse out the argument option in $option, if present.
     case $option in
-        *=?*) optarg=$(expr "X$option" : '[^=]*=(.*)') ;;
+        *=?*) optarg=${option#*=} ;;
         *=)   optarg= ;;
         *)    optarg=yes ;;
     esac
@@ -66,7 +66,7 @@ do
             silent=yes;;
         -t | --temp | --templ | --templa | --templat | --template)
             prev_option=template;;
-        -t=* | --temp==* | --templ=* | --templa=* | --templat=* | --template=*)
+        -t=* | --temp=* | --templ=* | --templa=* | --templat=* | --template=*)
             template="$optarg";;
         -V | --vers | --versi | --versio | --version)
             version=yes;;
-- 
2.43.0


From 7c93e49da81383fd07e166210ffdd16fcf97e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:51 +0000
Subject: [PATCH 169/174] fix: leave backslashes in rip-tracks' titles alone

---
 contrib/rip-tracks.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/rip-tracks.in b/contrib/rip-tracks.in
index d6175dd..0e27645 100755
--- a/contrib/rip-tracks.in
+++ b/contrib/rip-tracks.in
@@ -173,7 +173,7 @@ perl -e "$program" > /tmp/rip-tracks.$$
 exec 3<> /tmp/rip-tracks.$$
 OLDIFS="$IFS"
 IFS="	"
-while read -u 3 wav title track track_artist; do
+while read -r -u 3 wav title track track_artist; do
 
     log "Processing $wav..."
     true_artist="$track_artist"
-- 
2.43.0


From a92b9c1410b730850379a93d4ed9ec060fa93c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:51 +0000
Subject: [PATCH 170/174] fix: rip every track in the list

The last track was left out if its line lacked a newline, and a list that
couldn't be read was taken for an empty one. Don't leave the list's copy
behind in /tmp, either.
---
 contrib/rip-tracks.in | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/contrib/rip-tracks.in b/contrib/rip-tracks.in
index 0e27645..bb2087d 100755
--- a/contrib/rip-tracks.in
+++ b/contrib/rip-tracks.in
@@ -168,9 +168,11 @@ if test -z "$template"; then
 fi
 
 # Read the "tracks file"
-program="open(H,\"<$tracks\");while(<H>){print if \$_ !~ /^\\s*\$/ && \$_ !~ /^\\s*#.*\$/;};close(H);"
-perl -e "$program" > /tmp/rip-tracks.$$
-exec 3<> /tmp/rip-tracks.$$
+test -r "$tracks" || error "Can't read the tracks file \`$tracks'"
+list=$(mktemp) || error "Can't create a temporary file"
+trap 'rm -f "$list"' EXIT
+perl -lne 'print if $_ !~ /^\s*$/ && $_ !~ /^\s*#.*$/' < "$tracks" > "$list"
+exec 3<> "$list"
 OLDIFS="$IFS"
 IFS="	"
 while read -r -u 3 wav title track track_artist; do
-- 
2.43.0


From 2a5e712aa76033349ab79ae93c3fb4f51d2eac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:29 +0000
Subject: [PATCH 171/174] fix: find the ID3v1 tag when the track is short and
 what precedes it holds "TAG+"

---
 scribbu/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 6540846..e981622 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -170,7 +170,7 @@ scribbu::find_id3v1_tag(std::istream &is)
       std::streampos ext = is.tellg() - (std::streampos) 4;
       is.seekg(-128, std::ios_base::end);
       is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && here <= ext) {
         // ID3v1 extended tag at `tag'; stream ptr at `tag' + 230.
         tag = ext;
         tag_type = id3_v1_tag_type::v_1_extended;
-- 
2.43.0


From 217e587eff8739c40287f0d9756b0d1197ae7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:41 +0000
Subject: [PATCH 172/174] fix: make experimental tags from Scheme

---
 scheme/scribbu.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/scribbu.scm b/scheme/scribbu.scm
index 3765220..d0cb4b6 100644
--- a/scheme/scribbu.scm
+++ b/scheme/scribbu.scm
@@ -279,7 +279,7 @@ at `root'"
 
 (define-class <id3v2-tag> ()
   (experimental #:init-value '() #:accessor experimental
-                #:init-keyword experimental)
+                #:init-keyword #:experimental)
   (frames       #:init-value '() #:accessor frames  #:init-keyword #:frames)
   (padding      #:init-value   0 #:accessor padding #:init-keyword #:padding))
 
-- 
2.43.0


From a916b2cfbb869f91d4fac051b18cac21ab19381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:57 +0000
Subject: [PATCH 173/174] fix: close a file whose tags cannot be read in Scheme

---
 scribbu/scheme.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 8f8e903..14f1190 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -33,6 +33,7 @@
 #include "scheme-serde.hh"
 #include "tagset.hh"
 
+#include <cstring>
 #include <string>
 
 #include <filesystem>
@@ -404,17 +405,28 @@ extern "C" {
 
       dynwind_context ctx;
 
-      ifstream ifs = open_ifstream(ctx.free_locale_string(scm_pth), ifstream::binary);
+      const char *c_pth = ctx.free_locale_string(scm_pth);
 
       // I'm going to do this in three steps:
 
-      // 1. read each tag into an id3v2_tag
+      // 1. read each tag into an id3v2_tag. `scm_error' won't run destructors,
+      // so close the file (& let go of the tags) before reporting a bad one.
       vector<unique_ptr<id3v2_tag>> v2;
-      try {
-        read_all_id3v2(ifs, back_inserter(v2));
-      } catch (const exception &ex) {
+      SCM bad_tag = SCM_BOOL_F;
+      {
+        ifstream ifs = open_ifstream(c_pth, ifstream::binary);
+        try {
+          read_all_id3v2(ifs, back_inserter(v2));
+        } catch (const exception &ex) {
+          bad_tag = scm_from_stringn(ex.what(), strlen(ex.what()), "UTF-8",
+                                     SCM_FAILED_CONVERSION_QUESTION_MARK);
+        }
+      }
+
+      if (scm_is_true(bad_tag)) {
+        vector<unique_ptr<id3v2_tag>>().swap(v2);
         scm_error(sym_for_utf8("invalid-tag"), "read-tagset", "found bad tag: ~s",
-                  scm_list_1(scm_from_utf8_string(ex.what())), SCM_BOOL_F);
+                  scm_list_1(bad_tag), SCM_BOOL_F);
       }
 
       // 2. transform that collection of C++ id3v2_tag instances into a collection
-- 
2.43.0


From 356a2a9ad3b0c4753fcf0eabbbb30bd0211311b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:26:53 +0000
Subject: [PATCH 174/174] fix: keep the identifiers of unknown frames in Scheme
 whole

---
 scribbu/scheme-serde.cc | 42 +++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 378ba13..e3da2fb 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -299,6 +299,36 @@ namespace {
     }
   }
 
+  /// Express a frame identifier (any octets at all, in a damaged tag) as a
+  /// Scheme string
+  SCM
+  scm_from_frame_id(const std::string &id)
+  {
+    return scm_from_latin1_stringn(id.data(), id.length());
+  }
+
+  /// Retrieve the identifier of the unknown frame  scm; throw if it isn't
+  ///  cb octets in length
+  std::string
+  unknown_frame_id(SCM scm, std::size_t cb)
+  {
+    SCM scm_id = SCM_SLOT(scm, 5);
+    if (!scm_is_string(scm_id) || cb != scm_c_string_length(scm_id)) {
+      throw std::logic_error("bad frame identifier");
+    }
+
+    std::string id;
+    for (std::size_t i = 0; i < cb; ++i) {
+      scm_t_wchar c = SCM_CHAR(scm_c_string_ref(scm_id, i));
+      if (0xff < c) {
+        throw std::logic_error("bad frame identifier");
+      }
+      id += (char) c;
+    }
+
+    return id;
+  }
+
   /// Return true if \a txt, encoded as UTF-8, cannot be written as
   /// ISO-8859-1
   bool
@@ -1904,7 +1934,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_2(const scribbu::id3v2_2_fr
   SCM x = scm_make(args);
 
   SCM_SET_SLOT(x, 0, sym_unknown_frame);
-  SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
+  SCM_SET_SLOT(x, 5, scm_from_frame_id(f.id().as_string()));
 
   std::string s = frame_data(f, 6);
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1937,7 +1967,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_3(const scribbu::id3v2_3_fr
                file_alter_preservation::preserve ? SCM_BOOL_T : SCM_BOOL_F);
   SCM_SET_SLOT(x, 3, f.readonly() == read_only::set ?
                SCM_BOOL_T : SCM_BOOL_F);
-  SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
+  SCM_SET_SLOT(x, 5, scm_from_frame_id(f.id().as_string()));
 
   std::string s = frame_data(f, 10);
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1971,7 +2001,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   SCM_SET_SLOT(x, 3, f.readonly() == read_only::set ?
                SCM_BOOL_T : SCM_BOOL_F);
   SCM_SET_SLOT(x, 4, f.unsynchronised() ? SCM_BOOL_T : SCM_BOOL_F);
-  SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
+  SCM_SET_SLOT(x, 5, scm_from_frame_id(f.id().as_string()));
 
   std::string s = frame_data(f, 10);
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1992,7 +2022,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id3 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  frame_id3 id(unknown_frame_id(scm, 3).c_str());
 
   SCM scm_bv = SCM_SLOT(scm, 6);
 
@@ -2024,7 +2054,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  frame_id4 id(unknown_frame_id(scm, 4).c_str());
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
   if (SCM_BOOL_F == SCM_SLOT(scm, 1)) {
@@ -2073,7 +2103,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
 
   dynwind_context ctx;
 
-  frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
+  frame_id4 id(unknown_frame_id(scm, 4).c_str());
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
   if (SCM_BOOL_F == SCM_SLOT(scm, 1)) {
-- 
2.43.0

