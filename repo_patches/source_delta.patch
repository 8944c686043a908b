From 9682448de64c4992f4632c90ae96aaa7e5ac4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 01/37] fix: numbers longer than the requested width were cut

The output position was always advanced by the width, so "width{2} << 12345"
produced only "12".
---
 BufferedOut.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..2a752d0 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -52,8 +52,9 @@ void BufferedOut::addPadding(const char* p)
         {
             *(paddingPos++) = fillChar;
         }
+        realSize = integerWidth;
     }
-    pos += integerWidth;
+    pos += realSize;
 }
 
 BufferedOut &BufferedOut::operator<<(const char* str)
-- 
2.43.0


From 19c9c4501b90ea9e8e6a9c1ee19092a934aea369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 02/37] fix: padding a number could write behind the output
 buffer

A padded number that does not fit is now dropped as an unpadded one is.
---
 BufferedOut.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 2a752d0..3220ccb 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -45,6 +45,10 @@ void BufferedOut::addPadding(const char* p)
     auto realSize = p - pos;
     if (realSize < integerWidth)
     {
+        if (integerWidth > dataBuf.end() - pos)
+        {
+            return;
+        }
         memmove(pos + integerWidth - realSize, pos, realSize);
         auto paddingSize = integerWidth - realSize;
         auto paddingPos = pos;
-- 
2.43.0


From ab5386a875166f915b2f2da3f1e347bc04eea47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 03/37] fix: a byte could be written behind the end of the
 output buffer

---
 BufferedOut.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 3220ccb..8670fb5 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -160,6 +160,10 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
+    if (dataBuf.end() - pos < 2)
+    {
+        return *this;
+    }
     char digits[] = "0123456789ABCDEF";
     *(pos++) = digits[(b & 0xF0u) >> 4];
     *(pos++) = digits[b & 0xFu];
-- 
2.43.0


From bcc10b746db22c9ea08aa8a2839899dcf764143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 04/37] fix: a float that does not fit exposed the rest of the
 buffer as output

std::to_chars returns the end of the range on failure, so the whole remaining
buffer, whatever it held, became part of the output.
---
 BufferedOut.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 8670fb5..93e1e2e 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -10,7 +10,11 @@ char* toChars(char* first, char* last, float val, unsigned int precision) noexce
 {
     int n = int(val);
     auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    if (ec != std::errc {})
+    {
+        return first;
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From f3bdd6b586173b78afc8fccab078a7c19e9bad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 05/37] fix: floats between -1 and 0 were printed without their
 sign

---
 BufferedOut.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 93e1e2e..572d854 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -9,10 +9,16 @@ namespace
 char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
 {
     int n = int(val);
+    const auto start = first;
+    if (n == 0 && val < 0 && first != last)
+    {
+        // the integer part is zero and cannot carry the sign
+        *(first++) = '-';
+    }
     auto [pos, ec] = std::to_chars(first, last, n);
     if (ec != std::errc {})
     {
-        return first;
+        return start;
     }
     if (precision > 0 && pos < last)
     {
-- 
2.43.0


From 19f2f0c9dfa230861d274baabc394edd6354437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 06/37] fix: the byte view of an output longer than 65535 bytes
 was cut

---
 BufferedOut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
-- 
2.43.0


From 3468026d435ba2b537d22251d4faf0257af75ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 07/37] fix: names longer than four characters were stored cut

The store was reported as successful, but the value could not be loaded under
that name and appeared under the first four characters of it.
---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..f119cb3 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -50,6 +50,11 @@ public:
     template<typename T>
     bool set(std::string_view idx, const T &object)
     {
+        if (idx.size() > std::tuple_size<decltype(NodeDescriptor::idx)>::value)
+        {
+            // such a name cannot be stored
+            return false;
+        }
         if (const auto pos = getIdx<T>(idx); pos != wrongPos)
         {
             auto &node = getNode<T>(pos);
-- 
2.43.0


From 53709f4f208f1b0ceb4ab2fad01493b148d29906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 08/37] fix: values too large for a record descriptor corrupted
 the storage

The record size was cut to 16 bits, a cut size of 0 even let later lookups
loop forever.
---
 PersistentStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index f119cb3..ed4696c 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -62,7 +62,7 @@ public:
             return true;
         }
         constexpr auto recordSize = sizeof(Node<T>);
-        if (free_head_ + recordSize > buffer_.size())
+        if (recordSize > std::numeric_limits<decltype(NodeDescriptor::size)>::max() || free_head_ + recordSize > buffer_.size())
         {
             // no more free nodes
             return false;
-- 
2.43.0


From cb2b18a2a1e75d3bb025db58f6e66530a8a52f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 09/37] fix: records smaller than their descriptor were
 accepted when attaching

Later stores then overlapped or were not found by the lookup.
---
 PersistentStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..3ab10f3 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -10,7 +10,7 @@ embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
     else
     {
         while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
-              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size != 0
+              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)
               && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
         {
             free_head_ += getNodeDescriptor(free_head_).size;
-- 
2.43.0


From e869a6c4882139fe49e3269a5d9c43aecd2641f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 10/37] fix: stored values were read through a misaligned
 reference

---
 PersistentStorage.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index ed4696c..1a3247a 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -85,7 +85,15 @@ public:
         {
             if (const auto &node = getNode<T>(pos); node.idx == idx && node.size == sizeof(Node<T>))
             {
-                return node.data;
+                // the stored bytes may be not aligned as T requires
+                union Aligned
+                {
+                    Aligned() {}
+                    ~Aligned() {}
+                    T data;
+                } aligned;
+                std::memcpy(static_cast<void*>(&aligned.data), static_cast<const void*>(&node.data), sizeof(T));
+                return aligned.data;
             }
         }
         return std::nullopt;
-- 
2.43.0


From e96d9654fd3bda9294e68541e503c0e5119fcfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 11/37] fix: PersistentStorage::DescriptorSize was declared but
 not defined

---
 PersistentStorage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 3ab10f3..42d6add 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -1,5 +1,7 @@
 #include "PersistentStorage.h"
 
+const size_t embedded::PersistentStorage::DescriptorSize = sizeof(NodeDescriptor);
+
 embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
 : buffer_(storage), free_head_(0)
 {
-- 
2.43.0


From f737dd978c2790a8380aa8ab6ac54e09e2977e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 12/37] fix: the end of a glyph's bitmap was taken from the
 wrong place

For the last glyph the descriptor after the end of the table was read, all
others got everything up to the end of the font.
---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..c4f9c17 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -23,7 +23,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
-    const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
+    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                            fontDescriptor.bitmap.end() :
                            fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
-- 
2.43.0


From 127ec6a9f30108c564d19d61c47dc1a233815aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 13/37] fix: characters above 0x7F were not found where char is
 signed

---
 graphics/EmbeddedFont.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index c4f9c17..bac6e7b 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -4,11 +4,12 @@
 namespace embedded::fonts
 {
 
-EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
+EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char character) const
 {
+    const auto symbol = static_cast<uint8_t>(character);
     if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
     {
-        return getBitmap(fontDescriptor.first);
+        return getBitmap(static_cast<char>(fontDescriptor.first));
     }
     auto pos = symbol - fontDescriptor.first;
     if (symbol > '~')
@@ -18,7 +19,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 
     if (pos >= fontDescriptor.glyph.size())
     {
-        return getBitmap(fontDescriptor.first);
+        return getBitmap(static_cast<char>(fontDescriptor.first));
     }
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
-- 
2.43.0


From 4390baed35968094c94820087da9814946370c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 14/37] fix: codes without glyphs got the bitmaps of other
 characters

The codes between '~' and 0xA0 were looked up at or before the glyph of '~',
and in fonts starting at 0xA0 or later all glyphs were shifted by that gap.
---
 graphics/EmbeddedFont.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index bac6e7b..13d2ac9 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -7,12 +7,14 @@ namespace embedded::fonts
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char character) const
 {
     const auto symbol = static_cast<uint8_t>(character);
-    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
+    // Fonts have no glyphs for the codes between '~' and 0xA0
+    const auto isOmitted = [](int code) { return code > '~' && code < 0xA0; };
+    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last || isOmitted(symbol))
     {
         return getBitmap(static_cast<char>(fontDescriptor.first));
     }
     auto pos = symbol - fontDescriptor.first;
-    if (symbol > '~')
+    if (symbol > '~' && fontDescriptor.first <= '~')
     {
         pos -= (0xA0 - '~' - 1);
     }
-- 
2.43.0


From c52dfb8df0f45ac4bf25efbfa6bc2264c648b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 15/37] fix: frame buffers deeper than one bit were reported
 too wide

---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index e56f72c..24eb5dd 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -88,7 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
-    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8;
+    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8 / bitsPerPixel;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From 4f53287f63cd83da22773059b25133c915738293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 16/37] fix: pixels of two bits were stored in the wrong place

---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 24eb5dd..1d98d3e 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -55,7 +55,7 @@ public:
         {
             const auto mask = 0xC0 >> (posX % 4) * 2;
             buffer[pixelOffset] &= ~mask;
-            buffer[pixelOffset] |= (color & 3) << (2 - (posX % 4) * 2);
+            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);
         }
         else if constexpr (colorDepth == 4)
         {
-- 
2.43.0


From ad21513942aabead89964bac2c7a871e3e00b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 17/37] fix: frame buffers of 24 and 32 bits per pixel did not
 compile

---
 graphics/SimpleFrameBuffer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 1d98d3e..64cc6f4 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -9,8 +9,8 @@ public:
     explicit SimpleFrameBuffer() noexcept
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
-        static_assert(width * (1 << (colorDepth - 1)) % 8 == 0, "Width must be byte-aligned");
-        selectedColor = (1 << colorDepth) - 1;
+        static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
+        selectedColor = colorMask;
     }
     int getWidth() const override { return effectiveWidth; }
     int getHeight() const override { return height; }
@@ -33,7 +33,7 @@ public:
 
     void setColor(uint32_t color) override
     {
-        selectedColor = color & ((1 << colorDepth) - 1);
+        selectedColor = color & colorMask;
     }
 
     void drawPixel(int posX, int posY, uint32_t color)
@@ -88,6 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
+    static constexpr uint32_t colorMask = 0xFFFFFFFFu >> (32 - colorDepth);
     static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8 / bitsPerPixel;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
-- 
2.43.0


From d7348c9847ab48c1d108e6f1986c3b4450ffba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 18/37] fix: the border of an empty rectangle was drawn

---
 graphics/Canvas.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphics/Canvas.cpp b/graphics/Canvas.cpp
index 7d9e604..a760b75 100644
--- a/graphics/Canvas.cpp
+++ b/graphics/Canvas.cpp
@@ -97,6 +97,10 @@ void Canvas::drawVerticalLine(Point startPos, const int line_height)
 
 void Canvas::drawRectangle(Rect rect)
 {
+    if (rect.size.width <= 0 || rect.size.height <= 0)
+    {
+        return;
+    }
     rect = transformCoords(rect);
     drawHorizontalLine(rect.topLeft, rect.size.width);
     drawHorizontalLine(rect.bottomLeft(), rect.size.width);
-- 
2.43.0


From 86d453d4e6e55aa8008e6d6c5afcad7e6a086df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 19/37] fix: text bounds did not contain the text

The width was added up without the advance of the first character and without
the offsets of the characters.
---
 graphics/EmbeddedFont.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 13d2ac9..e05d16c 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -42,21 +42,22 @@ Rect<int> EmbeddedFont::getTextBounds(std::string_view view) const
     {
         int maxBottom = -255;
         int minTop = 0;
+        int minLeft = 0;
+        int maxRight = 0;
+        int pen = 0;
         for (std::size_t i = 0; i < view.size(); ++i)
         {
             const auto& bitmap = getBitmap(view[i]);
-            if (i == 0)
-            {
-                result.topLeft.x = - bitmap.offset.width;
-                result.size.width = bitmap.effectiveSize.width;
-            }
-            else
-            {
-                result.size.width += (i < view.size() - 1) ? bitmap.width : bitmap.effectiveSize.width;
-            }
+            const int left = pen + bitmap.offset.width;
+            const int right = left + bitmap.effectiveSize.width;
+            minLeft = (i == 0) ? left : std::min(minLeft, left);
+            maxRight = (i == 0) ? right : std::max(maxRight, right);
+            pen += bitmap.width;
             maxBottom = std::max(maxBottom, (int)bitmap.offset.height + bitmap.effectiveSize.height);
             minTop = std::min(minTop, (int)bitmap.offset.height);
         }
+        result.topLeft.x = - minLeft;
+        result.size.width = maxRight - minLeft;
         result.size.height = maxBottom - minTop;
         result.topLeft.y = - minTop;
     }
-- 
2.43.0


From 86a8faffa842dde07632a01779bc3675063ca831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 20/37] fix: letters of code pages with combining characters
 were converted late

The converter holds back letters that could be combined with the next
character, so they were taken for undefined and attached to the next one.
---
 gfx-font-converter/EncodingConverter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index b3f435a..a4da452 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -27,6 +27,7 @@ std::string EncodingConverter::convert(char symbol) {
     size_t outBytesLeft = sizeof(outBuf);
     char *inptr = &buf[0];
     char *outptr = &outBuf[0];
+    iconv(descriptor, nullptr, nullptr, nullptr, nullptr);
     if(iconv(descriptor, &inptr, &inBufSize, &outptr, &outBytesLeft) == (size_t) -1)
     {
         if (errno == EINVAL)
@@ -39,6 +40,8 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    // get the characters held back until the next one is known
+    iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -52,6 +55,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
     size_t outBytesLeft = sizeof(outBuf);
     char *inptr = &buf[0];
     char *outptr = &outBuf.buf[0];
+    iconv(descriptor, nullptr, nullptr, nullptr, nullptr);
     if(iconv(descriptor, &inptr, &inBufSize, &outptr, &outBytesLeft) == (size_t) -1)
     {
         if (errno == EINVAL)
@@ -64,5 +68,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    // get the characters held back until the next one is known
+    iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
     return outBuf.result;
 }
-- 
2.43.0


From e41b75f0b8b170923301cd742e18624b09b75149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 21/37] fix: fonts too large for the output format were written
 with cut numbers

Glyph sizes, advances, offsets, bitmap offsets and the line height are now
checked against the types they are stored in.
---
 gfx-font-converter/main.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 195ff2c..bea64ee 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -3,6 +3,7 @@
 #include <filesystem>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <vector>
 #include <optional>
 
@@ -182,6 +183,17 @@ private:
     size_t bitmapOffset = 0;
 };
 
+// The value as it is stored in the font; values that can't be stored are an error
+template<typename T>
+T checkedCast(long long value, const char* name)
+{
+    if (value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max())
+    {
+        throw std::runtime_error(std::string(name) + " " + std::to_string(value) + " does not fit the font format");
+    }
+    return static_cast<T>(value);
+}
+
 struct GlyphData
 {
     GlyphDescriptor descriptor;
@@ -288,6 +300,7 @@ int main(int argc, char* argv[])
             std::vector<uint8_t> bitmapData;
             VectorStream vectorStream(bitmapData);
             BitStream bitStream(vectorStream);
+            size_t bitmapOffset = 0;
             EncodingConverter iconvHolder(config.getEncoding().c_str(), "UCS-4LE");
             for (auto i = first, j = 0; i <= last; i = (i == '~') ? 0xA0 : i + 1, ++j)
             {
@@ -306,11 +319,13 @@ int main(int argc, char* argv[])
                     }
                 }
                 bitStream.flush();
+                checkedCast<uint16_t>(bitmapOffset, "Bitmap offset");
                 const auto bitmapSize = bitmapData.size();
-                table.emplace_back(GlyphData { { static_cast<uint16_t>(bitmapSize), {
-                        static_cast<unsigned char>(bitmap.width), static_cast<unsigned char>(bitmap.rows) }
-                                            , static_cast<uint8_t>(bitmapGlyphRec.root.advance.x >> 16), {
-                        static_cast<char>(bitmapGlyphRec.left), static_cast<char>((1 - bitmapGlyphRec.top)) } }
+                bitmapOffset += bitmapSize;
+                table.emplace_back(GlyphData { { checkedCast<uint16_t>(bitmapSize, "Bitmap size"), {
+                        checkedCast<uint8_t>(bitmap.width, "Glyph width"), checkedCast<uint8_t>(bitmap.rows, "Glyph height") }
+                                            , checkedCast<uint8_t>(bitmapGlyphRec.root.advance.x >> 16, "Glyph advance"), {
+                        checkedCast<int8_t>(bitmapGlyphRec.left, "Glyph left offset"), checkedCast<int8_t>(1 - bitmapGlyphRec.top, "Glyph top offset") } }
                                             , std::move(bitmapData) });
 
             }
@@ -358,7 +373,7 @@ int main(int argc, char* argv[])
         else if (config.getFormat() == FontConverterConfig::Format::Header)
         {
             writeHeaderFile(fontName, outputDir, config.getEncoding(), table, first, last,
-                            ftFace.getSizeMetricHeihgt());
+                            checkedCast<uint8_t>(static_cast<int>(ftFace.getSizeMetricHeihgt()), "Line height"));
         }
         else
         {
-- 
2.43.0


From 1191fcf948f6ece88e37a31f46dfe29cfd6bb137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 22/37] fix: bitmaps with several bits per pixel were taken for
 monochrome ones

---
 gfx-font-converter/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index bea64ee..374a59e 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -308,6 +308,10 @@ int main(int argc, char* argv[])
 
                 const auto &bitmapGlyphRec = glyph.getBitmapGlyph();
                 const auto &bitmap = bitmapGlyphRec.bitmap;
+                if (bitmap.pixel_mode != FT_PIXEL_MODE_MONO)
+                {
+                    throw std::runtime_error("FreeType bitmap is not monochrome");
+                }
 
                 for (unsigned y = 0; y < bitmap.rows; ++y)
                 {
-- 
2.43.0


From 8ce10ea113740d71dfff81407f5ed4605babba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 23/37] fix: failures to write the output files were reported
 as success

---
 gfx-font-converter/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 374a59e..cf96c4b 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -218,6 +218,15 @@ private:
     std::vector<uint8_t> &vector;
 };
 
+void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileName)
+{
+    outputFile.close();
+    if (!outputFile)
+    {
+        throw std::runtime_error("output file " + outputFileName + " was not written");
+    }
+}
+
 void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
@@ -262,6 +271,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
     const auto view = bufferedOut.asStringView();
     outputFile.write(view.data(), view.end() - view.begin());
+    closeOutputFile(outputFile, outputFileName);
 }
 
 int main(int argc, char* argv[])
@@ -349,6 +359,7 @@ int main(int argc, char* argv[])
                 {
                     outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());
                 }
+                closeOutputFile(outputFile, bitmapsFileName);
             }
             {
                 std::ofstream outputFile;
@@ -372,6 +383,7 @@ int main(int argc, char* argv[])
                     offset += glyph.bitmapData.size();
                     outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());
                 }
+                closeOutputFile(outputFile, glyphsFileName);
             }
         }
         else if (config.getFormat() == FontConverterConfig::Format::Header)
-- 
2.43.0


From 48fa89b4f03c6264816e94cf4b129bd58cd8f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 24/37] fix: the generated header was not valid C++ for most
 font file names

---
 gfx-font-converter/main.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index cf96c4b..912c94e 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -1,5 +1,6 @@
 #include "graphics/GFXFontsAdapter.h"
 
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iomanip>
@@ -227,12 +228,27 @@ void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileNam
     }
 }
 
-void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
+// The font file can have any name
+std::string makeIdentifier(const std::string &name)
+{
+    std::string result = name;
+    for (auto &c : result)
+    {
+        if (!std::isalnum(static_cast<unsigned char>(c)))
+        {
+            c = '_';
+        }
+    }
+    return std::isdigit(static_cast<unsigned char>(result.front())) ? "Font" + result : result;
+}
+
+void writeHeaderFile(const std::string &fileName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
 {
     std::ofstream outputFile;
-    const auto outputFileName = (outputDir / (fontName + ".h")).string();
+    const auto outputFileName = (outputDir / (fileName + ".h")).string();
+    const auto fontName = makeIdentifier(fileName);
     outputFile.open(outputFileName, std::ios::out);
     if (!outputFile.is_open())
     {
-- 
2.43.0


From 1b01ec6ecae274b421602179a5ec2cfbf9f2b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 25/37] fix: very large font sizes overflowed and selected
 another size

---
 gfx-font-converter/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 912c94e..b142420 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -313,7 +313,7 @@ int main(int argc, char* argv[])
                          std::filesystem::path(config.getOutputDirectory()) : std::filesystem::path(argv[0]).parent_path();
 
         const auto dpi = config.getDPI();
-        const FT_F26Dot6 fontSize = config.getFontSize() << 6;
+        const auto fontSize = static_cast<FT_F26Dot6>(config.getFontSize()) * 64;
         const auto first = config.getFirstChar();
         const auto last = config.getLastChar();
         std::vector<GlyphData> table;
-- 
2.43.0


From 6d236a00c47ec07d982b5ca4cf3791435ef80f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 26/37] fix: arguments that are not numbers terminated the font
 converter

---
 gfx-font-converter/FontConverterConfig.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index 0b5e7a3..42147c7 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -2,8 +2,21 @@
 
 #include <getopt.h>
 #include <cctype>
+#include <charconv>
+#include <cstring>
+#include <system_error>
 #include <algorithm>
 
+namespace
+{
+bool parseNumber(const char* text, int& value)
+{
+    const auto end = text + std::strlen(text);
+    const auto result = std::from_chars(text, end, value);
+    return result.ec == std::errc() && result.ptr == end;
+}
+}
+
 FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
     int opt;
@@ -19,10 +32,10 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
                 outputDirectory = optarg;
                 break;
             case 'd':
-                DPI = std::stoi(optarg);
+                printHelp |= !parseNumber(optarg, DPI);
                 break;
             case 's':
-                fontSize = std::stoi(optarg);
+                printHelp |= !parseNumber(optarg, fontSize);
                 break;
             case 'e':
                 encoding = optarg;
-- 
2.43.0


From c174688d357d07d496d4227da0dff3a448b85310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 27/37] fix: the font converter crashed on every FreeType error

FT_Error_String returns a null pointer unless FreeType is built with the error
texts, as it usually is not.
---
 gfx-font-converter/FreeTypeError.h     | 11 +++++++++++
 gfx-font-converter/FreeTypeFace.cpp    |  7 ++++---
 gfx-font-converter/FreeTypeLibrary.cpp |  5 +++--
 3 files changed, 18 insertions(+), 5 deletions(-)
 create mode 100644 gfx-font-converter/FreeTypeError.h

diff --git a/gfx-font-converter/FreeTypeError.h b/gfx-font-converter/FreeTypeError.h
new file mode 100644
index 0000000..395f42d
--- /dev/null
+++ b/gfx-font-converter/FreeTypeError.h
@@ -0,0 +1,11 @@
+#pragma once
+
+#include <string>
+#include <freetype/freetype.h>
+
+// FreeType can be built without the error texts
+inline std::string getFreeTypeErrorText(FT_Error errorCode)
+{
+    const auto* text = FT_Error_String(errorCode);
+    return text != nullptr ? text : "FreeType error " + std::to_string(errorCode);
+}
diff --git a/gfx-font-converter/FreeTypeFace.cpp b/gfx-font-converter/FreeTypeFace.cpp
index 1095e75..829924f 100644
--- a/gfx-font-converter/FreeTypeFace.cpp
+++ b/gfx-font-converter/FreeTypeFace.cpp
@@ -1,5 +1,6 @@
 #include "FreeTypeFace.h"
 
+#include "FreeTypeError.h"
 #include "FreeTypeGlyph.h"
 
 #include <string>
@@ -11,7 +12,7 @@ void FreeTypeFace::setCharSize(FT_F26Dot6 width, FT_F26Dot6 height, int horzReso
     if (const auto errorCode = FT_Set_Char_Size(ftFace.get(), width, height, horzResolution, vertResolution);
             errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + getFreeTypeErrorText(errorCode));
     }
 }
 
@@ -19,11 +20,11 @@ FreeTypeGlyph FreeTypeFace::renderGlyph(uint32_t symbol, int loadFlags, FT_Rende
 {
     if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
     if (const auto errorCode = FT_Render_Glyph(ftFace->glyph, renderMode); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
 
     if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0)
diff --git a/gfx-font-converter/FreeTypeLibrary.cpp b/gfx-font-converter/FreeTypeLibrary.cpp
index 5b144df..9ea4eb5 100644
--- a/gfx-font-converter/FreeTypeLibrary.cpp
+++ b/gfx-font-converter/FreeTypeLibrary.cpp
@@ -1,5 +1,6 @@
 #include "FreeTypeLibrary.h"
 
+#include "FreeTypeError.h"
 #include "FreeTypeFace.h"
 
 #include <freetype/ftdriver.h>
@@ -13,7 +14,7 @@ FreeTypeLibrary::FreeTypeLibrary()
     FT_Library ftLibraryRaw;
     if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + getFreeTypeErrorText(errorCode));
     }
     ftLibrary.reset(ftLibraryRaw);
     FT_UInt interpreter_version = TT_INTERPRETER_VERSION_35;
@@ -26,7 +27,7 @@ FreeTypeFace FreeTypeLibrary::createFace(const std::string& fontPath, int faceIn
     FT_Face ftFaceRaw;
     if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to create FreeType face: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to create FreeType face: ") + getFreeTypeErrorText(errorCode));
     }
     return FreeTypeFace(ftFaceRaw);
 }
\ No newline at end of file
-- 
2.43.0


From 059e0c8b45b3d5fa02d6173a76f5d66cc209e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 28/37] fix: the Arduino UART made up end bytes and wrote
 outside small buffers

ReceiveUntil and ReceiveBetween appended the end byte even when it was not
received (timeout, buffer full, in which case the real byte stayed in the
stream) and computed a negative room for buffers of 0 or 1 bytes.
---
 arduino/PacketUart.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..07fba3e 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -49,8 +49,13 @@ uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
+    while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+    {
+        if (buffer[currentPos++] == endByte)
+        {
+            break;
+        }
+    }
     uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
@@ -61,6 +66,10 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
+    if (bufferSize < 2)
+    {
+        return 0;
+    }
     uint16_t currentPos = 0;
     auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
@@ -75,8 +84,13 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+            {
+                if (buffer[currentPos++] == endByte)
+                {
+                    break;
+                }
+            }
             break;
         }
     }
-- 
2.43.0


From c0091e0ae63ac2bee0c0bd51c70b6a55b4b52ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 29/37] fix: the ESP UART reported 65535 bytes on a driver
 error

The driver's -1 was converted to uint16_t by Receive and Send.
---
 esp32-esp-idf/PacketUart.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..6afe03e 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,12 +9,12 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return static_cast<uint16_t>(std::max(uartDevice.receiveBlocking(buffer, bufferSize, timeout), 0));
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    return static_cast<uint16_t>(std::max(uartDevice.sendBlocking(buffer, bufferSize), 0));
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
-- 
2.43.0


From 4319558c2076cd0f68c18c2dfbfa3663b16ddacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 30/37] fix: Arduino UART reception failed around the wrap of
 the millisecond counter

The end time wrapped around before the counter did, so the calls returned
at once; compare the elapsed time instead.
---
 arduino/PacketUart.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 07fba3e..4f73d48 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -11,9 +11,8 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
     auto startTime = millis();
-    auto maxTime = startTime + timeout;
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (millis() - startTime < timeout && currentPos < bufferSize)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
@@ -77,8 +76,7 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         uartDevice.setTimeout(timeoutMilliseconds);
     }
     auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    while (timeoutMilliseconds == 0 || millis() - startTime < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
-- 
2.43.0


From 56cf926e16b04f8b83228d60da08993758644e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 31/37] fix: ESP UART timeouts did not hold with noise or
 around the counter wrap

ReceiveBetween did not look at the clock while unwanted bytes came in before
the start byte, gave up early when a tick-rounded wait ran out, and both
marker functions compared wrapped end times; compare the elapsed time.
---
 esp32-esp-idf/PacketUart.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index 6afe03e..2f2f285 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -20,12 +20,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
     while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -46,26 +46,20 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    while (currentPos == 0)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
-        {
-            if (buffer[currentPos] == startByte)
-                break;
-        }
-        else
-        {
+        if ((elapsed = embedded::getMillisecondTicks() - startTime) > timeoutMilliseconds)
             return 0;
-        }
+        if(uartDevice.receiveBlocking(buffer, 1, timeoutMilliseconds - elapsed) == 1 && buffer[0] == startByte)
+            ++currentPos;
     }
-    ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From 4449163d3e516b09ca11560878c914fba45cc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 32/37] fix: releasing an ESP SPI bus never freed it

The result of spi_bus_remove_device was taken the wrong way round, so a
successful removal kept the stale device handle and the bus. The state of the
bus is kept apart from the device's, so that a failed release can be repeated.
---
 esp32-esp-idf/SpiBus.cpp | 16 ++++++++++++----
 esp32-esp-idf/SpiBus.h   |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..25fd904 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -61,6 +61,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
     {
         return false;
     }
+    busInitialized = true;
 
     spi_device_interface_config_t devcfg={};
     devcfg.mode=0;
@@ -79,12 +80,19 @@ bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) != ESP_OK)
         {
-            spiDevice = nullptr;
-            return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
+            return false;
         }
-        return false;
+        spiDevice = nullptr;
+    }
+    if (busInitialized)
+    {
+        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
+        {
+            return false;
+        }
+        busInitialized = false;
     }
     return true;
 }
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index ee9905e..a30ebfe 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -27,6 +27,7 @@ public:
 private:
     int spiBusNumber;
     spi_device_t* spiDevice = nullptr;
+    bool busInitialized = false;
     uint32_t maxTransferSize = 0;
 };
 
-- 
2.43.0


From 8307957c8165391027fb2e7e32e29930176120a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 33/37] fix: a failed initialisation of an ESP SPI bus kept the
 bus allocated

---
 esp32-esp-idf/SpiBus.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 25fd904..6e3e8e7 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -73,7 +73,13 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        spiDevice = nullptr;
+        release();
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
-- 
2.43.0


From 0038dae1229cf4669c6cf9920b4629b347514381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 34/37] fix: ESP analog pins could be read only once

The converter unit was never deleted, so it could not be allocated for the
next read of a pin of the same unit.
---
 esp32-esp-idf/AnalogPin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..2d146b0 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -49,9 +49,10 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
         {
             if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
             {
-                return -1;
+                result = -1;
             }
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From d33999192f9a8e07acbb03fdbe5a1f75634d4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 35/37] fix: light sleep could last 71 minutes too long or end
 at once

The remaining time was computed from a second clock read, which wraps when
the end has passed in between, did not fit 32 bits in microseconds from 72
minutes up, and the end time wrapped with the millisecond counter.
---
 esp32-esp-idf/SleepFunctions.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/esp32-esp-idf/SleepFunctions.h b/esp32-esp-idf/SleepFunctions.h
index 0612df6..fa51596 100644
--- a/esp32-esp-idf/SleepFunctions.h
+++ b/esp32-esp-idf/SleepFunctions.h
@@ -8,18 +8,17 @@ namespace embedded
 
 void ligntSleep(uint32_t milliseconds)
 {
-    uint32_t tickstart = getMillisecondTicks();
-    uint32_t wait = tickstart + milliseconds;
+    const uint64_t end = getMicrosecondTicks() + milliseconds * 1000ull;
 
-    while ((getMillisecondTicks() < wait))
+    for (uint64_t current = getMicrosecondTicks(); current < end; current = getMicrosecondTicks())
     {
-        esp_sleep_enable_timer_wakeup((wait - getMillisecondTicks()) * 1000);
+        esp_sleep_enable_timer_wakeup(end - current);
         if (esp_light_sleep_start() != ESP_OK)
         {
-            auto current = getMillisecondTicks();
-            if (wait > current)
+            current = getMicrosecondTicks();
+            if (end > current)
             {
-                delay(wait - current);
+                delay((end - current) / 1000);
             }
         }
     }
-- 
2.43.0


From 8911588bc4c0dda95892827080fc1323be1133b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 36/37] fix: log messages longer than 65535 bytes were sent cut

The packet size is 16 bits wide; longer messages are sent in several packets.
---
 arduino/SerialOut.cpp       | 8 ++++++++
 esp32-esp-idf/SerialOut.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/arduino/SerialOut.cpp b/arduino/SerialOut.cpp
index 1d434ea..7d72656 100644
--- a/arduino/SerialOut.cpp
+++ b/arduino/SerialOut.cpp
@@ -1,9 +1,17 @@
 #include "../SerialOut.h"
 #include "PacketUartImpl.h"
 
+#include <limits>
+
 void embedded::SerialOut::flush()
 {
+    constexpr size_t maxSendSize = std::numeric_limits<uint16_t>::max();
     auto dataView = bufferedOut.data();
+    while (dataView.size() > maxSendSize)
+    {
+        uartDevice.Send(dataView.begin(), maxSendSize, 100);
+        dataView = dataView.subspan(maxSendSize);
+    }
     uartDevice.Send(dataView.begin(), dataView.size(), 100);
     bufferedOut.clear();
 }
diff --git a/esp32-esp-idf/SerialOut.cpp b/esp32-esp-idf/SerialOut.cpp
index 1d434ea..7d72656 100644
--- a/esp32-esp-idf/SerialOut.cpp
+++ b/esp32-esp-idf/SerialOut.cpp
@@ -1,9 +1,17 @@
 #include "../SerialOut.h"
 #include "PacketUartImpl.h"
 
+#include <limits>
+
 void embedded::SerialOut::flush()
 {
+    constexpr size_t maxSendSize = std::numeric_limits<uint16_t>::max();
     auto dataView = bufferedOut.data();
+    while (dataView.size() > maxSendSize)
+    {
+        uartDevice.Send(dataView.begin(), maxSendSize, 100);
+        dataView = dataView.subspan(maxSendSize);
+    }
     uartDevice.Send(dataView.begin(), dataView.size(), 100);
     bufferedOut.clear();
 }
-- 
2.43.0


From bb41da49fcefbd87dcda84cd77d188d950141ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 37/37] fix: receiving always failed on full-duplex ESP SPI
 buses

---
 esp32-esp-idf/SpiBus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 6e3e8e7..650932c 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -13,10 +13,10 @@ bool embedded::SpiBus::transfer(const uint8_t *sendBytes, uint8_t *receiveBytes,
     while (length > 0)
     {
         const auto effectiveLength = std::min(length , maxTransferSize);
+        transaction.length = 8 * effectiveLength;
         if (sendBytes != nullptr)
         {
             transaction.tx_buffer = sendBytes;
-            transaction.length = 8 * effectiveLength;
         }
         if (receiveBytes != nullptr)
         {
-- 
2.43.0

