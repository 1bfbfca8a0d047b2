From 9a6126714875fe97a665680f1982dc6c3e3086dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:50 +0000
Subject: [PATCH 01/10] fix: similarity of zone proportions divided by zero for
 two empty shares

---
 src/ppocr/strategies/proportionality_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..ef6de6e 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,7 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) { return (a+b) ? a*100/(a+b) : 50u; }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From fddd1635068f040e46de0433ac249a25ea2cf725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:21 +0000
Subject: [PATCH 02/10] fix: a tolerance query near the top of the value range
 must not wrap around

---
 src/ppocr/ocr2/data_indexes_ordered.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/data_indexes_ordered.hpp b/src/ppocr/ocr2/data_indexes_ordered.hpp
index ca633dc..c1fcaf5 100644
--- a/src/ppocr/ocr2/data_indexes_ordered.hpp
+++ b/src/ppocr/ocr2/data_indexes_ordered.hpp
@@ -45,7 +45,7 @@ struct DataIndexesOrdered
             data,
             this->indexes_ordered,
             x > d ? x-d : 0u,
-            x + d
+            d > ~0u - x ? ~0u : x + d
         );
     }
 
-- 
2.43.0


From 65b59fe9035a39fae1b86a1c011aec14be4755c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:33 +0000
Subject: [PATCH 03/10] fix: compare whole stored words in
 Glyphs::word_index_of

A stored word longer than the one asked for and starting with it was
returned as a match, and a stored word shorter than the one asked for was
read past its end.
---
 src/ppocr/ocr2/glyphs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..c05a379 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -21,6 +21,7 @@
 
 #include <map>
 #include <string>
+#include <string_view>
 #include <memory>
 #include <vector>
 #include <istream>
@@ -67,7 +68,8 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto const & word = this->get_word_(i);
+            auto r = s.compare(std::string_view(word.data(), word.size()));
             if (r <= 0) {
                 if (r == 0) {
                     return i;
-- 
2.43.0


From 2ff9823d402d9417387f15bad359c517f6d97d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 04/10] fix: keep room for the terminator of every word in the
 word table

The terminating NUL of a stored word was overwritten by the size of the next
word, or written past the end of the table after the last one, when the size
of the word is a multiple of sizeof(unsigned); the disambiguation by
dictionary iterates the words up to their terminator.
---
 src/ppocr/ocr2/glyphs.cpp | 4 ++--
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..f525024 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            buf_word_sz += (p.first.size() + sizeof(unsigned)) / sizeof(unsigned) + 1;
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -84,7 +84,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++buf;
             std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
             reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            buf += (p.first.size() + sizeof(unsigned)) / sizeof(unsigned);
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c05a379..1997d6b 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -76,7 +76,7 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += (this->get_word_(i).size() + sizeof(unsigned) * 2) / sizeof(unsigned);
         }
         return no_index;
     }
-- 
2.43.0


From 2de9486ce08ca3673d93a506bfce43c4a7b5b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:12 +0000
Subject: [PATCH 05/10] fix: an empty dictionary has no first node to refer to

---
 src/ppocr/container/trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/container/trie.hpp b/src/ppocr/container/trie.hpp
index 012ceb1..40a62d3 100644
--- a/src/ppocr/container/trie.hpp
+++ b/src/ppocr/container/trie.hpp
@@ -249,8 +249,8 @@ public:
     range childrens() const
     {
         return {
-            &this->elems_[0],
-            &this->elems_[0] + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
+            this->elems_.data(),
+            this->elems_.data() + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
         };
     }
 
-- 
2.43.0


From 316d705175cb0dae4649fe475686063bfd926ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:12 +0000
Subject: [PATCH 06/10] fix: leave empty words out of a dictionary

They have no first symbol, which trie::insert_after reads.
---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From afdd2f547a7cf4fc2f1f9aeaaccb2387484b27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:13 +0000
Subject: [PATCH 07/10] fix: do not pass a null pointer to memset when a glyph
 without background is analysed

---
 src/ppocr/strategies/utils/count_zone.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/utils/count_zone.hpp b/src/ppocr/strategies/utils/count_zone.hpp
index 5eba428..802bbee 100644
--- a/src/ppocr/strategies/utils/count_zone.hpp
+++ b/src/ppocr/strategies/utils/count_zone.hpp
@@ -38,7 +38,9 @@ namespace ppocr { namespace strategies { namespace utils
                 _buffer.reset(new T[n * 2]);
                 _capacity = n * 2;
             }
-            std::memset(data(), 0, n * sizeof(T));
+            if (n) {
+                std::memset(data(), 0, n * sizeof(T));
+            }
             return data();
         }
 
-- 
2.43.0


From 20cc65650e3b03274f126e4faeefae1d5d2f3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:21 +0000
Subject: [PATCH 08/10] fix: make_box_character keeps the last column of a
 character that touches the right edge

---
 src/ppocr/box_char/make_box_character.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/box_char/make_box_character.cpp b/src/ppocr/box_char/make_box_character.cpp
index a61c3e2..c30e2bb 100644
--- a/src/ppocr/box_char/make_box_character.cpp
+++ b/src/ppocr/box_char/make_box_character.cpp
@@ -57,9 +57,9 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 
     unsigned w = x;
 
-    while (w + 1 < bnd.width()) {
+    while (w < bnd.width()) {
         ++w;
-        if ([&image](Pixel const * d, unsigned w, unsigned h) -> bool {
+        if (w == bnd.width() || [&image](Pixel const * d, unsigned w, unsigned h) -> bool {
             for (auto e = d+w*h; d != e; d += w) {
                 if (is_pix_letter(*d) && (
                     (d+1 != e && is_pix_letter(*(d+1)))
-- 
2.43.0


From 0af7f3c9d06bfcc0cc595f133484a9a9524abe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:09 +0000
Subject: [PATCH 09/10] fix: the data size of a binary bitmap is computed in
 std::size_t

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..400af0e 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -239,7 +239,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (static_cast<std::size_t>(header.width) + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From 97d8b9c6fdef594fc893bb2fc4040821b0b1d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:09 +0000
Subject: [PATCH 10/10] fix: accept complete ASCII pictures and reject
 truncated ones

---
 src/ppocr/image/image_from_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 400af0e..1caa7ae 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -266,12 +266,14 @@ Image image_from_file(const char * filename, unsigned luminance)
             else if (*p == '0') {
                 *output++ = '-';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
             else if (*p == '1') {
                 *output++ = 'x';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
@@ -287,7 +289,7 @@ Image image_from_file(const char * filename, unsigned luminance)
         for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
-        if (p != end) {
+        if (p != end || compunt_counter != img_size) {
             throw std::runtime_error(invalid_data_len);
         }
     }
-- 
2.43.0

