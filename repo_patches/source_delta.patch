From 517d25c7b82419b0890acb7186364a08f1c50906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 01/96] fix: Bytes::operator< compared the wrong way around
 after the first difference

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..2e120b6 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -961,7 +961,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
-- 
2.43.0


From b08e43d761e18c7c24c2568b10171d12e0cd7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 02/96] fix: Bytes::pop_front of everything underflowed the
 size

---
 src/pystd2026.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..4dcdb6a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -242,8 +242,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
-- 
2.43.0


From d1bfa3993f7bfadad475445194f046441a789c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 03/96] fix: Bytes::back returned the last byte of the
 allocation

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 4dcdb6a..730533e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -338,7 +338,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
+    auto result = buf[bufsize - 1];
     return result;
 }
 
-- 
2.43.0


From 9b74cc169a7be02a6d8c70edc296832209c9a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 04/96] fix: Bytes::remove did not check the end of the range

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 730533e..63b9c3a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -343,7 +343,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
-- 
2.43.0


From 6b7e582206281be75a7d7d9f8b9c3f00401f42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 05/96] fix: Bytes::operator[] checked against the allocation
 instead of the contents

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2e120b6..5161836 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -925,7 +925,12 @@ public:
 
     void pop_front(size_t num = 1);
 
-    char operator[](size_t i) const { return buf[i]; }
+    char operator[](size_t i) const {
+        if(i >= bufsize) {
+            bootstrap_throw("Bytes index out of bounds.");
+        }
+        return buf[i];
+    }
 
     char unsafe_at(size_t i) const { return buf.unsafe_at(i); }
 
-- 
2.43.0


From 18e449340d602e8a0f9b99ee671cbc9ca9023fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 06/96] fix: appending or assigning a part of a Bytes to itself
 used freed memory

---
 src/pystd2026.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 63b9c3a..d1cc999 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -208,6 +208,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        const Bytes tmp(buf_in, in_size);
+        assign(tmp.data(), in_size);
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -277,6 +282,11 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(begin != end && is_ptr_within(begin)) {
+        const Bytes tmp(begin, end);
+        append(tmp.data(), tmp.data() + tmp.size());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
-- 
2.43.0


From 8dc561619fdbba6523f3d412dd554f74fd9ae7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 07/96] fix: CString copy assignment was declared but not
 defined

---
 src/pystd2026.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index d1cc999..e020f0b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -765,6 +765,12 @@ CString &CString::operator+=(const char *str) {
     return *this;
 }
 
+void CString::operator=(const CString &o) noexcept {
+    if(this != &o) {
+        bytes = o.bytes;
+    }
+}
+
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
     clear();
-- 
2.43.0


From a4973199a599d23054adf012524f694e6c566bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 08/96] fix: CString::clear dropped the null terminator

---
 include/pystd2026.hpp | 5 ++++-
 src/pystd2026.cpp     | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5161836..5a1c145 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1720,7 +1720,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e020f0b..c7da0ea 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -772,8 +772,9 @@ void CString::operator=(const CString &o) noexcept {
 }
 
 CString &CString::operator=(const char *str) {
+    // The text to assign might be a part of this string, so
+    // it must not be cleared first.
     CStringView tmp(str);
-    clear();
     (*this) = tmp;
     return *this;
 }
-- 
2.43.0


From 21d77c285e2bdfea0f1c34224892789f398f4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 09/96] fix: CString::resize left the string without a null
 terminator

---
 include/pystd2026.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5a1c145..418ee25 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1789,7 +1789,15 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    // There can be no embedded nulls, so grown strings are padded with spaces.
+    void resize(size_t new_size) noexcept {
+        const size_t old_size = size();
+        bytes.resize(new_size + 1);
+        if(new_size > old_size) {
+            memset(bytes.data() + old_size, ' ', new_size - old_size);
+        }
+        bytes.data()[new_size] = '\0';
+    }
 
     void remove(size_t from, size_t to) { bytes.remove(from, to); }
 
-- 
2.43.0


From 835a608937641fdebe618fcbb9cbff352afc697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 10/96] fix: CString::remove could remove the null terminator

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 418ee25..d0215f8 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1799,7 +1799,12 @@ public:
         bytes.data()[new_size] = '\0';
     }
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to) {
+        if(to > size()) {
+            bootstrap_throw("Invalid sequence to remove.");
+        }
+        bytes.remove(from, to);
+    }
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
-- 
2.43.0


From 70b67cdc391cfbcda334129aa476e6f1dd2abe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 11/96] fix: out of bounds CString::insert terminated the
 process

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index d0215f8..5078f3a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1781,7 +1781,7 @@ public:
     void pop_back() noexcept;
     void push_back(const char c) noexcept { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c7da0ea..f3e2fa6 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -824,7 +824,7 @@ void CString::pop_back() noexcept {
     bytes.append('\0');
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
-- 
2.43.0


From d210b7ee7fba213b18a0c263587413354ae8ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 12/96] fix: CString::substr did not validate its range

---
 src/pystd2026.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f3e2fa6..5a2e54f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -685,10 +685,15 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
+    if(offset > size()) {
+        throw PyException("CString substring out of bounds.");
+    }
     if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+        return CString(c_str() + offset, size() - offset);
+    }
+    if(length > size() - offset) {
+        throw PyException("CString substring out of bounds.");
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
-- 
2.43.0


From e2c2da87ee8fca9524972d0eaeb5c60cc7e9591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 13/96] fix: CString += accepted a null byte

---
 src/pystd2026.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5a2e54f..0f98260 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -758,9 +758,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
-- 
2.43.0


From 3a83eaab618f232399144aad2789e0a04d55f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 14/96] fix: appending a part of a CString to itself used freed
 memory

---
 src/pystd2026.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 0f98260..63fe551 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -795,6 +795,11 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        const Bytes tmp(str, strsize);
+        append(tmp.data(), strsize);
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
-- 
2.43.0


From 08aa0502563be01897ddf29107e3b90ab5c62ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 15/96] fix: ZStringView constructed without a size had a bogus
 size

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 63fe551..e7b695b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -613,7 +613,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
-- 
2.43.0


From 0360e85b7ab306b24bc0328ae03132aae24b8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 16/96] fix: CStringView index checks allowed reading one past
 the end

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5078f3a..7e4a6b7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1632,7 +1632,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
-- 
2.43.0


From bf8912a9fcba4de95b30f594df058e488edcd40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 17/96] fix: CStringView::front threw a raw string instead of a
 PyException

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e7b695b..eead8ae 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -415,7 +415,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
-- 
2.43.0


From c2c557cfb59e7d47cdf4f5c809b012201d4aed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 18/96] fix: CStringView::starts_with compared too many
 characters

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index eead8ae..f2bfedc 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -436,7 +436,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
-- 
2.43.0


From 2f58b53475538532fe58148684056346081e30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 19/96] fix: CStringView::find missed matches at the end of the
 string

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f2bfedc..63d3588 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -470,7 +470,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 9962995dcf376c21953efa29bb0f8e888b295ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 20/96] fix: CStringView::substr range computation could
 overflow, and empty tails were refused

---
 src/pystd2026.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 63d3588..32d3b1f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -454,13 +454,11 @@ size_t CStringView::find(char c) const {
 }
 
 CStringView CStringView::substr(size_t pos, size_t count) const {
-    if(pos >= bufsize) {
+    if(pos > bufsize) {
         throw PyException("CStringView index out of bounds.");
     }
     size_t actual_count = count;
-    if(count == (size_t)-1) {
-        actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From 3f0440ec7f076c78757891bede0a93c244f4c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 21/96] fix: adjacent string views were reported as overlapping

---
 src/pystd2026.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 32d3b1f..1b64820 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -501,10 +501,10 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(e2 <= s1) {
         return false;
     }
-    if(e1 < s2) {
+    if(e1 <= s2) {
         return false;
     }
     return true;
-- 
2.43.0


From 75203426f446f21b045ece3fd564038ab626dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 22/96] fix: FixedCString constructor with a length did not
 null terminate

---
 include/pystd2026.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 7e4a6b7..a232079 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1849,10 +1849,11 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
         strsize = length_in;
+        buf[strsize] = '\0';
     }
 
     FixedCString &operator=(FixedCString &&o) noexcept {
-- 
2.43.0


From dda6cb8d5080c81257c8de6b63bf3f3431f4069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 23/96] fix: assigning a prefix of a FixedCString to itself did
 nothing

---
 include/pystd2026.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a232079..1e8d9c7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1880,12 +1880,14 @@ public:
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
-            return *this;
-        }
         if(o.size() > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
+        if(o.data() == buf) {
+            strsize = o.size();
+            buf[strsize] = '\0';
+            return *this;
+        }
         if(o.data() > buf && o.data() < (buf + BUF_SIZE)) {
             bootstrap_throw("Self sub-assignment not yet supported.");
         }
-- 
2.43.0


From f9c4a646d60be7d9631a8df97a5c1d2a77d35df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 24/96] fix: overlong, surrogate and out of range UTF-8
 sequences were accepted

---
 src/pystd2026.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 1b64820..0c43df0 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,7 +57,15 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Overlong forms, surrogates and values past the last code point are not valid.
+    const uint32_t smallest_values[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_values[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
+    return unpacked <= 0x10FFFF;
 }
 
 bool is_valid_utf8(const char *input, size_t input_size) {
-- 
2.43.0


From 9f77a3102ab23e765c52ae1a259cde261a9f47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 25/96] fix: U8String::append_codepoint accepted surrogates

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 0c43df0..1c0430e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1162,6 +1162,9 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates are not valid code points.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From f88be3c263129653c90c8e3206ffcec3671b77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 26/96] fix: U8StringView never compared equal to non-ASCII C
 strings

---
 src/pystd2026.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 1c0430e..0e0e12c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -993,7 +993,10 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
+            return false;
+        }
+        if(txt[i] == '\0') {
             return false;
         }
         ++i;
-- 
2.43.0


From fdbcb3ad74a1df9fb69a689a10e9e88a57b5a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 27/96] fix: U8String::substr did not validate its range

---
 src/pystd2026.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 0e0e12c..067032c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1084,7 +1084,15 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > cstring.size()) {
+        throw PyException("U8String::substr out of bounds.");
+    }
+    if(length == (size_t)-1) {
+        length = cstring.size() - offset;
+    }
+    if(length > cstring.size() - offset) {
+        throw PyException("U8String::substr out of bounds.");
+    }
     return U8String(cstring.data() + offset, length);
 }
 
-- 
2.43.0


From 9fadc610013eab7f4ba9924121c6dbce406d6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 28/96] fix: assigning a view with an embedded NUL to U8String
 terminated the program

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 1e8d9c7..594b8cc 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2086,7 +2086,7 @@ public:
         }
     }
 
-    void operator=(const U8StringView &o) noexcept { cstring = CString(o.data(), o.size_bytes()); }
+    void operator=(const U8StringView &o) { cstring = CString(o.data(), o.size_bytes()); }
 
     // FIXME. These currently do ASCIIbetical sorting. Fix to do codepoints instead.
     bool operator==(const U8String &o) const { return cstring == o.cstring; }
-- 
2.43.0


From 778d8599bf114ad668c064760e2111e67c21ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 29/96] fix: U8StringView of a NUL terminated string had a
 bogus end

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 067032c..947385d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -964,6 +964,9 @@ void ValidU8ReverseIterator::compute_char_info() {
 
 U8StringView::U8StringView(const char *buf_, size_t bufsize) {
     const unsigned char *buf = (const unsigned char *)buf_;
+    if(bufsize == (size_t)-1) {
+        bufsize = strlen(buf_);
+    }
     if(!is_valid_utf8(buf_, bufsize)) {
         throw PyException("String is not valid UTF-8.");
     }
-- 
2.43.0


From a4ff84fa4f081b9b21133eec05b61fd6093cfc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 30/96] fix: CString::insert let embedded NUL characters in

---
 src/pystd2026.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 947385d..88a6ef9 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -839,6 +839,11 @@ void CString::pop_back() noexcept {
 }
 
 void CString::insert(size_t i, const CStringView &v) {
+    for(const char c : v) {
+        if(c == '\0') {
+            throw PyException("Tried to add a null byte to a CString.");
+        }
+    }
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
-- 
2.43.0


From 5b74f706a3f1f7907e601782db44a11a380cd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 31/96] fix: HashMap::remove did not destroy the key

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..636f565 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -75,6 +75,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
                     if(data.md[previous_slot].state == SlotState::Empty &&
-- 
2.43.0


From 26ec7fd0c222fd6b3322ea6db6a2c9a50dd298b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 32/96] fix: move assigning to a HashMap leaked its earlier
 contents

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 636f565..465dda9 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -153,6 +153,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
-- 
2.43.0


From 37337132d0bd547ad9f23f9876158075c0f89aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 33/96] fix: HashMap::insert could add a key twice if the chain
 had a tombstone

---
 include/pystd2026_hashtable.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 465dda9..ceca2eb 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -212,8 +212,18 @@ private:
 
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
+        const size_t no_slot = (size_t)-1;
+        size_t first_tombstone = no_slot;
         while(true) {
-            if(data.md[slot].state != SlotState::HasValue) {
+            if(data.md[slot].state == SlotState::Tombstone) {
+                // The key may still be further along the chain.
+                if(first_tombstone == no_slot) {
+                    first_tombstone = slot;
+                }
+            } else if(data.md[slot].state == SlotState::Empty) {
+                if(first_tombstone != no_slot) {
+                    slot = first_tombstone;
+                }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
                 new(key_loc) Key(key);
@@ -221,8 +231,7 @@ private:
                 data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
                 ++num_entries;
                 return *value_loc;
-            }
-            if(data.md[slot].bloom_matches(hashval)) {
+            } else if(data.md[slot].bloom_matches(hashval)) {
                 auto *potential_key = data.keyptr(slot);
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
-- 
2.43.0


From fc5dbc11c562505a7143ad4790797adce82f4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 34/96] fix: a HashMap full of tombstones made lookups loop
 forever

---
 include/pystd2026_hashtable.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index ceca2eb..e923890 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -54,8 +54,10 @@ public:
     }
 
     Value &insert(const Key &key, Value v) {
-        if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
-            grow();
+        if(used_ratio() >= MAX_LOAD_PERCENTAGE) {
+            // If most slots in use are tombstones, getting rid of them is enough.
+            const bool needs_space = 2 * fill_ratio() >= MAX_LOAD_PERCENTAGE;
+            rehash(size_in_powers_of_two + (needs_space ? 1 : 0));
         }
 
         const auto hashval = hash_for(key);
@@ -83,6 +85,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -118,6 +121,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -223,6 +227,7 @@ private:
             } else if(data.md[slot].state == SlotState::Empty) {
                 if(first_tombstone != no_slot) {
                     slot = first_tombstone;
+                    --num_tombstones;
                 }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
@@ -243,9 +248,8 @@ private:
         }
     }
 
-    void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+    void rehash(uint32_t new_powers_of_two) {
+        const auto new_size = size_t{1} << new_powers_of_two;
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -257,6 +261,7 @@ private:
         data = move(grown);
         size_in_powers_of_two = new_powers_of_two;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
@@ -279,12 +284,14 @@ private:
     size_t table_size() const { return data.md.size(); }
 
     size_t fill_ratio() const { return (num_entries * 100) / table_size(); }
+    size_t used_ratio() const { return ((num_entries + num_tombstones) * 100) / table_size(); }
     static constexpr size_t MAX_LOAD_PERCENTAGE = 77;
     // static constexpr size_t MIN_LOAD_PERCENTAGE = 25;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones = 0;
     uint32_t size_in_powers_of_two;
 };
 
-- 
2.43.0


From aa780e6e2a5b6a922322183d86a97731b905e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 35/96] fix: HashMap::insert used a freed key if it referred to
 the map's own contents

---
 include/pystd2026_hashtable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index e923890..dfc2016 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -57,7 +57,10 @@ public:
         if(used_ratio() >= MAX_LOAD_PERCENTAGE) {
             // If most slots in use are tombstones, getting rid of them is enough.
             const bool needs_space = 2 * fill_ratio() >= MAX_LOAD_PERCENTAGE;
+            // The argument may point to data inside the map.
+            const Key key_copy(key);
             rehash(size_in_powers_of_two + (needs_space ? 1 : 0));
+            return insert_internal(hash_for(key_copy), key_copy, ::pystd2026::move(v));
         }
 
         const auto hashval = hash_for(key);
-- 
2.43.0


From d2ba3899239140499f125f4058dd3c7011fd5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 36/96] fix: HashSet and HashMap with a custom hash algorithm
 could not be iterated

---
 include/pystd2026_hashtable.hpp | 40 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index dfc2016..552e37c 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -5,7 +5,7 @@
 
 namespace pystd2026 {
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo = SimpleHash> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
@@ -15,7 +15,7 @@ public:
     static_assert(!::pystd2026::is_reference_v<Key>);
     static_assert(!::pystd2026::is_reference_v<Value>);
 
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -113,12 +113,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -303,9 +303,9 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -315,9 +315,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -330,25 +330,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -379,9 +379,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
-- 
2.43.0


From 97663ff4bbf2f558de7e1b52e6d1e10cf29310e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 37/96] fix: BTree::remove only compiled for values comparable
 with integers

---
 include/pystd2026_btree.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cac8ca4..8da0ab6 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,14 +34,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 39fda16284079d0bec77dc7d98dd0e1b7d6baa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 38/96] fix: values inserted to a BTree that had been emptied
 were lost

---
 include/pystd2026_btree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 8da0ab6..256990f 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -882,6 +882,10 @@ private:
 
     void root_fixup() {
         if(is_empty()) {
+            // Inserting to an empty tree creates a new root node.
+            leaves.clear();
+            internals.clear();
+            root = NodeReference::null_ref();
             return;
         }
         auto &root_ref = get_node_common(root);
-- 
2.43.0


From f961943545694047af2a31ec13dc8a974a642744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 39/96] fix: BTree used a stale root after the tree became
 shallower

---
 include/pystd2026_btree.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 256990f..97f5b8e 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -896,9 +896,12 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
-            swap_to_end_and_pop(root);
-            root = new_root;
+            const auto old_root = root;
+            // The last internal node gets moved to the place of the removed one.
+            const bool new_root_gets_moved =
+                !new_root.to_leaf && new_root.id == internals.size() - 1;
+            swap_to_end_and_pop(old_root);
+            root = new_root_gets_moved ? old_root : new_root;
             get_node_common(root).parent = NodeReference::null_ref();
         } else {
             abort();
-- 
2.43.0


From 158283598d0a5cdf30cdad96034395f4e426f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 40/96] fix: BTree continued a removal in the wrong node after
 a merge

---
 include/pystd2026_btree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 97f5b8e..62cb985 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -681,8 +681,8 @@ private:
             return return_value;
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            auto merged_node_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_node_id);
             assert(sub_value);
             return ::pystd2026::move(sub_value.value());
         }
-- 
2.43.0


From cb939f17c4671ed95988324c366828b9fd164a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 41/96] fix: removing a value from an inner BTree node could
 empty a leaf

---
 include/pystd2026_btree.hpp | 42 +++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 62cb985..d15a2d3 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -658,27 +658,11 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            Payload replacement(get_node_common(find_predecessor(lc_id)).values.back());
+            return replace_value(value, ::pystd2026::move(replacement), lc_id);
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            Payload replacement(get_node_common(find_successor(rc_id)).values.front());
+            return replace_value(value, ::pystd2026::move(replacement), rc_id);
         } else {
             debug_print("Before merge.");
             auto merged_node_id = merge_siblings_of_entry(node_id, node_loc);
@@ -689,6 +673,24 @@ private:
         abort();
     }
 
+    // Removes the replacement from the given subtree and stores it in place of the value.
+    Payload replace_value(const Payload &value, Payload replacement, NodeReference subtree_id) {
+        auto extracted = extract_value(replacement, subtree_id);
+        assert(extracted);
+        // Nodes might have been moved during extraction.
+        auto node_id = root;
+        while(true) {
+            auto search_result = search_node(value, node_id);
+            if(search_result.has_query_value) {
+                auto &slot = get_node_common(node_id).values[search_result.loc];
+                Payload return_value = ::pystd2026::move(slot);
+                slot = ::pystd2026::move(extracted.value());
+                return return_value;
+            }
+            node_id = get_internal(node_id).children[*search_result.child_loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
-- 
2.43.0


From 05f0d24d24996067323f1b2e347f99592636b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 42/96] fix: BTree::remove broke the tree if its argument was
 in the tree

---
 include/pystd2026_btree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index d15a2d3..b10f840 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,7 +34,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument may be a reference to a value in the tree.
+        const Payload value_copy(value);
+        auto v = extract_value(value_copy, root);
         if(v) {
             --num_values;
         }
-- 
2.43.0


From b3f72008dacc5dc80caf9eb8e89378f3d96c21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 43/96] fix: BTreeMap::lookup did not compile

---
 include/pystd2026_btree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index b10f840..bc474ca 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -1074,7 +1074,7 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            return const_cast<Value *>(&loc->value);
         }
         return nullptr;
     }
-- 
2.43.0


From 936f21ce1a5ddf32e39843bee44aed85b8d1c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 44/96] fix: BTreeMap::insert did not compile

---
 include/pystd2026_btree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index bc474ca..6638bb0 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -1056,6 +1056,9 @@ private:
         Value value;
         bool operator==(const MapEntry &o) const noexcept { return key == o.key; }
         bool operator<(const MapEntry &o) const noexcept { return key < o.key; }
+        int operator<=>(const MapEntry &o) const noexcept {
+            return DefaultComparator<Key>{}.compare(key, o.key);
+        }
 
         bool operator==(const Key &k) const noexcept { return k == key; }
         bool operator<(const Key &k) const noexcept { return k <= key; }
-- 
2.43.0


From a34630b48cb64318e58bf14db7f140f6baf0bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 45/96] fix: lower_bound of an empty range returned a null
 iterator

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 594b8cc..d513126 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2567,7 +2567,7 @@ It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
             count = step;
         }
     }
-    return it;
+    return first;
 }
 
 template<BasicIterator It, typename Value> It lower_bound(It first, It last, const Value &value) {
-- 
2.43.0


From 2bc9854f227ac219ab0828bb3492a3c973ac0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 46/96] fix: FloatIgnoreNanComparator said equal values are
 different

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index d513126..9d80a92 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2546,7 +2546,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From d530f9270d5650869b8c2fd65dfc4b0109dcd376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 47/96] fix: integer clamp returned too small values unchanged

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 88a6ef9..e94a4b2 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1379,7 +1379,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From dedae1746ac34a6d4bc8967d12b0d19d587c675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 48/96] fix: natural_order read outside its views and
 misordered strings with numbers

---
 src/pystd2026.cpp | 50 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e94a4b2..21a3f5b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -536,6 +536,36 @@ CString CStringView::lower() const noexcept {
     return result;
 }
 
+namespace {
+
+bool is_ascii_digit(char c) { return c >= '0' && c <= '9'; }
+
+// Splits off the digits at the given location without leading zeros.
+CStringView take_number(const CStringView &v, size_t &i) {
+    while(i < v.size() && v.unsafe_at(i) == '0') {
+        ++i;
+    }
+    const auto start = i;
+    while(i < v.size() && is_ascii_digit(v.unsafe_at(i))) {
+        ++i;
+    }
+    return CStringView{v.data() + start, i - start};
+}
+
+int compare_numbers(const CStringView &left, const CStringView &right) {
+    if(left.size() != right.size()) {
+        return left.size() < right.size() ? -1 : 1;
+    }
+    for(size_t i = 0; i < left.size(); ++i) {
+        if(left.unsafe_at(i) != right.unsafe_at(i)) {
+            return left.unsafe_at(i) < right.unsafe_at(i) ? -1 : 1;
+        }
+    }
+    return 0;
+}
+
+} // namespace
+
 int CStringView::natural_order(const CStringView &o) const {
     const char *left = buf;
     const char *right = o.buf;
@@ -553,23 +583,17 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
-        const bool left_has_num = (left + i_left) != left_end;
-        const bool right_has_num = (right + i_right) != right_end;
+        const bool left_has_num = is_ascii_digit(left[i_left]);
+        const bool right_has_num = is_ascii_digit(right[i_right]);
 
         if(left_has_num) {
             if(right_has_num) {
-                if(left_int < right_int) {
-                    return -1;
-                }
-                if(left_int > right_int) {
-                    return 1;
+                const auto left_num = take_number(*this, i_left);
+                const auto right_num = take_number(o, i_right);
+                const int rc = compare_numbers(left_num, right_num);
+                if(rc != 0) {
+                    return rc;
                 }
-                i_left += left_end - (left + i_left);
-                i_right += right_end - (right + i_right);
             } else {
                 return -1;
             }
-- 
2.43.0


From 9dc1ead10f20085a442dd85fbdbe8f6345f9e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 49/96] fix: Expected aborted when its value was accessed,
 copied its own garbage on assignment

---
 include/pystd2026.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9d80a92..37401ea 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -332,12 +332,8 @@ public:
     Expected(const E &e) noexcept : state{UnionState::Error} { new(content) E(e); }
     Expected(E &&e) noexcept : state{UnionState::Error} { new(content) E(::pystd2026::move(e)); }
 
-    Expected(Expected<V, E> &&o) noexcept : state{o.state} {
-        if(o.has_value()) {
-            new(content) V(::pystd2026::move(o.value()));
-        } else {
-            new(content) E(::pystd2026::move(o.error()));
-        }
+    Expected(Expected<V, E> &&o) noexcept : state{UnionState::Empty} {
+        *this = ::pystd2026::move(o);
     }
 
     ~Expected() { destroy(); }
@@ -352,7 +348,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
@@ -365,7 +361,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From a4e5a0db6627b418d8342ede1795b959ff1ce446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 50/96] fix: Unexpected::error of an rvalue did not compile

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 37401ea..f3a481b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -298,9 +298,9 @@ public:
     Unexpected(const E &e_) noexcept : e(e_) {}
 
     E &error() & noexcept { return e; }
-    E &&error() && noexcept { return e; }
+    E &&error() && noexcept { return ::pystd2026::move(e); }
     const E &error() const & noexcept { return e; }
-    const E &&error() const && noexcept { return e; }
+    const E &&error() const && noexcept { return ::pystd2026::move(e); }
 
     Unexpected &operator=(Unexpected &&o) = default;
 
-- 
2.43.0


From 3055eba4a0a10a3cb1a4c13f9d700fece9e823ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 51/96] fix: Span::subspan refused ranges that reach the end
 and its range check could overflow

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f3a481b..a5e75e3 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -865,13 +865,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             bootstrap_throw("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From 9f77da7cf0c59bb159dd047edb0442ef9a124777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 52/96] fix: a non-const Variant could not be copied

---
 include/pystd2026_variant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 367abe3..975109f 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -54,6 +54,8 @@ public:
         new(buf) T...[0]{};
     }
     Variant(const Variant<T...> &o) { copy_value_in(o, false); }
+    // Without this the constructor template taking a nonconst reference would be a better match.
+    Variant(Variant<T...> &o) { copy_value_in(o, false); }
     Variant(Variant<T...> &&o) noexcept { move_to_uninitialized_memory(::pystd2026::move(o)); }
 
     int8_t index() const noexcept { return type_id; }
-- 
2.43.0


From 0215e074f52d3171222049aad54171e65d8a2913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 53/96] fix: Vector::append_with_default created all objects in
 the same place

---
 include/pystd2026.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a5e75e3..b33abac 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1240,11 +1240,10 @@ public:
 
     void append_with_default(size_t num_copies) {
         reserve(size() + num_copies);
-        T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(objptr(num_entries)) T{};
+            ++num_entries;
         }
-        num_entries += num_copies;
     }
 
 private:
-- 
2.43.0


From 661419e52b0c747ac5f88345a4f969042b855382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 54/96] fix: Vector::append and assign dereferenced the start
 of an empty range

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b33abac..e411c9c 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1093,7 +1093,7 @@ public:
     }
 
     template<typename Iter1, typename Iter2> void append(Iter1 start, Iter2 end) {
-        if(is_ptr_within((T *)&(*start))) {
+        if(start != end && is_ptr_within((T *)&(*start))) {
             bootstrap_throw("FIXME, appending contents of vector not handled yet.");
         }
         while(start != end) {
@@ -1103,7 +1103,7 @@ public:
     }
 
     template<typename Iter1, typename Iter2> void assign(Iter1 start, Iter2 end) {
-        if(is_ptr_within(&(*start))) {
+        if(start != end && is_ptr_within(&(*start))) {
             bootstrap_throw("FIXME, assigning subset of vector itself is not supported.");
         }
         clear();
-- 
2.43.0


From 0522c22f337c268c23385160cae7f99eeda69a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 55/96] fix: Vector::emplace_back used freed memory if an
 argument referred to an element of the vector

---
 include/pystd2026.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e411c9c..75bfe0e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1084,8 +1084,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
             this->push_back(::pystd2026::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // Growing destroys the old objects and the arguments might refer to them.
+            T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(::pystd2026::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
             ++num_entries;
-- 
2.43.0


From 6893040c0720c413a710c62f4f8f1808c573200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 56/96] fix: emplace_back without arguments did not compile

---
 include/pystd2026.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 75bfe0e..e4c969b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1082,9 +1082,7 @@ public:
     }
 
     void emplace_back(auto &&...args) noexcept {
-        if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
-            this->push_back(::pystd2026::forward(args...[0]));
-        } else if(needs_to_grow_for(1)) {
+        if(needs_to_grow_for(1)) {
             // Growing destroys the old objects and the arguments might refer to them.
             T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
@@ -1380,13 +1378,9 @@ public:
         if(is_full()) {
             return false;
         }
-        if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
-            this->push_back(::pystd2026::forward(args...[0]));
-        } else {
-            auto obj_loc = objptr(num_entries);
-            new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
-            ++num_entries;
-        }
+        auto obj_loc = objptr(num_entries);
+        new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
+        ++num_entries;
         return true;
     }
 
-- 
2.43.0


From 03fea31574a1c57de71d7c8fb6abfadc79489408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 57/96] fix: introsort accessed memory outside the range if
 nothing sorted after the pivot

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e4c969b..f5d07f5 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2706,6 +2706,9 @@ constexpr size_t insertion_sort_limit =
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
+    if(begin == end) {
+        return;
+    }
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
     // ::pystd2026::is_integral_v<ValueType> || ::pystd2026::is_floating_point_v<ValueType>;
-- 
2.43.0


From b708f0bacb4cdad38e335ebdb090a57ba051c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 58/96] fix: introsort mixed up elements that are == but that
 the comparator orders

---
 include/pystd2026_introsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..3c0d1f6 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && cmp.compare(*right_begin, *last_value_point) == 0) {
         ++right_begin;
     }
 
-- 
2.43.0


From bcffa528f6c602af0b77aae3d1ede0228b58b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 59/96] fix: shell_sort ignored the comparator

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..23c4907 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && cmp.compare(*(begin + j - gap), scratch) > 0; j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From e4ed4f0c338fd60bb9d28daa055533a3f01d4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 60/96] fix: radix_sort shifted out of range with 64 bit values
 and recursed forever with equal values

---
 include/pystd2026_radixsort.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..7b0f0d4 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -9,7 +9,11 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+    if(round >= num_bits) {
+        // Every bit has been looked at, thus all remaining values are identical.
+        return;
+    }
+    const ValueType sort_bit = ((ValueType)1) << (num_bits - 1 - round);
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
-- 
2.43.0


From bed6678d81af0e6bff985e8ab8c7ba9258512acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 61/96] fix: bucketsort item counts overflowed with small
 integer types

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 0e474a25d04dc5f8cdb0f7e214a111e2b47b7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 62/96] fix: nth_element shifted out of range with large
 objects

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..774055b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -64,7 +64,7 @@ It nth_element(It begin, It end, size_t nth, const Comparator &cmp) {
         }
         ++round;
         size_t random_number = (size_t)&(*begin);
-        random_number >>= sizeof(ValueType);
+        random_number /= sizeof(ValueType);
         size_t pivot_offset = (random_number + round) % buf_size;
         if(pivot_offset != 0) {
             ::pystd2026::swap(*begin, *(begin + pivot_offset), scratch);
-- 
2.43.0


From e8325e6d6c9fe5845da73a13f0585b92669da1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 63/96] fix: nth_element with a Span and no comparator did not
 compile

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 774055b..4d05aa2 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -102,7 +102,7 @@ size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth, const Co
 
 template<WellBehaved ValueType>
 size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth) {
-    return ::pystd2026::nth_element(span, span, nth, DefaultComparator<ValueType>{});
+    return ::pystd2026::nth_element(span, nth, DefaultComparator<ValueType>{});
 }
 
 } // namespace pystd2026
-- 
2.43.0


From 4e8ff0f62c4ff2666f509b84419c92ad91ff0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 64/96] fix: stable_partition with a Span could not be called

---
 include/pystd2026_stablepartition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_stablepartition.hpp b/include/pystd2026_stablepartition.hpp
index b1fed0c..2e7c5b6 100644
--- a/include/pystd2026_stablepartition.hpp
+++ b/include/pystd2026_stablepartition.hpp
@@ -31,7 +31,7 @@ It stable_partition(It begin, It end, const Predicate &pred) {
     }
 }
 
-template<BasicIterator It, WellBehaved ValueType, typename Predicate>
+template<WellBehaved ValueType, typename Predicate>
 size_t stable_partition(::pystd2026::Span<ValueType> span, const Predicate &pred) {
     return stable_partition(span.begin(), span.end(), pred) - span.begin();
 }
-- 
2.43.0


From c1f55f0b11abb920b56660aeb6386b8ee487762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 65/96] fix: rotate could overflow the stack

---
 include/pystd2026_rotate.hpp | 41 ++++++++++++++----------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/include/pystd2026_rotate.hpp b/include/pystd2026_rotate.hpp
index 7669008..ce8aa5a 100644
--- a/include/pystd2026_rotate.hpp
+++ b/include/pystd2026_rotate.hpp
@@ -10,32 +10,23 @@ namespace pystd2026 {
 template<BasicIterator It> It rotate(It begin, It middle, It end) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
     ValueType scratch;
-    const auto LEFT_SIZE = middle - begin;
-    const auto RIGHT_SIZE = end - middle;
-
-    if(LEFT_SIZE == 0) {
-        return end;
-    }
-    if(RIGHT_SIZE == 0) {
-        return begin;
-    }
-
-    const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
-    for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
-        ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
-    }
-    if(LEFT_SIZE < RIGHT_SIZE) {
-        auto new_begin = begin + LEFT_SIZE;
-        auto new_middle = new_begin + LEFT_SIZE;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
-    } else if(RIGHT_SIZE < LEFT_SIZE) {
-        auto new_begin = begin + RIGHT_SIZE;
-        auto new_middle = middle;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
+    const auto result = begin + (end - middle);
+
+    // The number of rounds can be as big as the number of elements,
+    // so recursion can not be used.
+    while(begin != middle && middle != end) {
+        const auto LEFT_SIZE = middle - begin;
+        const auto RIGHT_SIZE = end - middle;
+        const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
+        for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
+            ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
+        }
+        begin += NUM_SWAPS;
+        if(LEFT_SIZE <= RIGHT_SIZE) {
+            middle += NUM_SWAPS;
+        }
     }
-    return begin + RIGHT_SIZE;
+    return result;
 }
 
 template<WellBehaved T>
-- 
2.43.0


From 3d17d275e5037cb46274cee214e91b63523c921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 66/96] fix: four 2026 headers lacked an include guard,
 partial_sort and nth_element could not be used together

---
 include/pystd2026_argparse.hpp    | 2 ++
 include/pystd2026_hashtable.hpp   | 2 ++
 include/pystd2026_nth_element.hpp | 2 ++
 include/pystd2026_radixsort.hpp   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/pystd2026_argparse.hpp b/include/pystd2026_argparse.hpp
index 13a07ec..0af3903 100644
--- a/include/pystd2026_argparse.hpp
+++ b/include/pystd2026_argparse.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026_variant.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 552e37c..d929220 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2022-2026 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 4d05aa2..3a21a94 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 7b0f0d4..07e0d39 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
-- 
2.43.0


From 651e615a444863093d16c9aaceccd8b182878ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 67/96] fix: signed char was not an integral type, int8_t could
 not be sorted

---
 include/pystd2026.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f5d07f5..061d123 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -128,6 +128,7 @@ template<class T> constexpr bool is_floating_point_v = is_floating_point<T>::val
 template<class T> struct is_integral_base : ::pystd2026::false_type {};
 template<> struct is_integral_base<bool> : ::pystd2026::true_type {};
 template<> struct is_integral_base<char> : ::pystd2026::true_type {};
+template<> struct is_integral_base<signed char> : ::pystd2026::true_type {};
 template<> struct is_integral_base<short> : ::pystd2026::true_type {};
 template<> struct is_integral_base<int> : ::pystd2026::true_type {};
 template<> struct is_integral_base<long> : ::pystd2026::true_type {};
-- 
2.43.0


From 165f9c86728f2a511e1490ba804074a482d0d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 68/96] fix: argparse read past argv when the last short option
 lacked its value

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..56585b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -247,6 +247,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From 9c9e8af30b58e9d6026faf4b3319cd378189400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 69/96] fix: argparse silently accepted malformed integers

---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 56585b7..16068b8 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *number_end = nullptr;
+            int64_t intval = strtol(tmp.data(), &number_end, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(number_end == tmp.data() || *number_end != '\0') {
+                throw PyException("Argument value is not an integer.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0


From 45a124ec70625d35af456e0616492bad66c78b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 70/96] fix: argparse silently dropped a value given to a flag

---
 src/pystd2026_argparse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 16068b8..67b9e65 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -228,6 +228,9 @@ int ArgParse::process_long_argument(
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         }
+    } else if(splitpoint != (size_t)-1) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
@@ -261,7 +264,9 @@ int ArgParse::process_short_argument(
             // FIXME, check for "-x=something".
             valuepart = current.substr(2);
         }
-    } else {
+    } else if(current.size() != 2) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
-- 
2.43.0


From 3f557f7899f5ed341e04d195d76ccd631a4bfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 71/96] fix: the path / lost its only slash

---
 src/pystd2026_filesystem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..02eae67 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -92,13 +92,13 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -130,9 +130,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') { // The root directory.
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
-- 
2.43.0


From b0f1244292668e3d5524bb6646f969051ed637dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 72/96] fix: Path extensions were looked for in the directory
 names

---
 src/pystd2026_filesystem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 02eae67..a74f7dd 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -147,7 +147,8 @@ Path Path::operator/(const CString &str) const noexcept { return *this / str.c_s
 
 CString Path::extension() const {
     auto loc = buf.rfind('.');
-    if(loc == (size_t)-1) {
+    const auto dirsep = buf.rfind('/');
+    if(loc == (size_t)-1 || (dirsep != (size_t)-1 && loc < dirsep)) {
         return CString();
     }
     return buf.substr(loc);
@@ -199,10 +200,9 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
     auto extpoint = buf.rfind('.');
-    if(extpoint == (size_t)-1) {
+    const auto dirsep = buf.rfind('/');
+    if(extpoint == (size_t)-1 || (dirsep != (size_t)-1 && extpoint < dirsep)) {
         buf += new_extension;
     } else {
         while(buf.size() > extpoint) {
-- 
2.43.0


From b2cad8c966ebdc3496f109cc73eb9da25f96c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 73/96] fix: load_bytes trusted the size of files that have
 none, like directories

---
 src/pystd2026_filesystem.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index a74f7dd..5bffdb2 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -169,18 +169,17 @@ Optional<Bytes> Path::load_bytes() {
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
-    const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    // Things like directories, pipes and the files in /proc do not
+    // have a usable size.
     Bytes contents;
-    contents.resize_to(file_size);
-    auto bytes_read = fread(contents.data(), 1, file_size, f);
-    if(ferror(f) != 0) {
-        fclose(f);
-        return Optional<Bytes>();
+    char chunk[4096];
+    size_t bytes_read;
+    while((bytes_read = fread(chunk, 1, sizeof(chunk), f)) > 0) {
+        contents.append(chunk, chunk + bytes_read);
     }
+    const bool had_error = ferror(f) != 0;
     fclose(f);
-    if(bytes_read != (size_t)file_size) {
+    if(had_error) {
         return Optional<Bytes>();
     }
     return Optional<Bytes>(move(contents));
-- 
2.43.0


From 63d4054aec9a6a7f3ba9ebeebbc21f31b8ee019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 74/96] fix: glob stars after the first character compared the
 wrong text and could not match nothing

---
 src/pystd2026_filesystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 5bffdb2..96770c7 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -26,7 +26,9 @@ bool glob_matches(const char *text,
         if(pattern_char == '\0') {
             return true;
         }
-        return false;
+        // A star also matches the empty string.
+        return pattern_char == '*' &&
+               glob_matches(text, text_offset, pattern, pattern_offset + 1);
     }
     if(pattern_char == '\0') {
         return false;
@@ -43,7 +45,7 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
-- 
2.43.0


From 7ad920859eb6ce0491a7ffc233d6353d15abee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 75/96] fix: glob lost parent directories, returned duplicates,
 used freed memory and ran out of file descriptors

---
 src/pystd2026_filesystem.cpp | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 96770c7..16327e1 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -244,7 +244,7 @@ public:
                 }
             }
         }
-        enter_subdir(Path(), root_dir.c_str());
+        enter_subdir(root_dir, 0);
     }
 
     Optional<Path> next() {
@@ -252,7 +252,22 @@ public:
             if(dir_stack.is_empty()) {
                 return {};
             }
-            const bool is_last_part = dir_stack.back().part_number == parts.size() - 1;
+            const auto part_number = dir_stack.back().part_number;
+            const bool is_last_part = part_number == parts.size() - 1;
+            if(!dir_stack.back().d) {
+                // Opened only when needed, because there is a limit on how many
+                // directories can be open at the same time.
+                const auto &path = dir_stack.back().path;
+                DIR *d = path.is_empty() ? opendir(".") : opendir(path.c_str());
+                if(!d) {
+                    // Dir can not be accessed, so ignore it. Happens e.g. when
+                    // you don't have access rights or the directory was deleted
+                    // before we could access it.
+                    dir_stack.pop_back();
+                    continue;
+                }
+                dir_stack.back().d = unique_ptr<DIR, DirCloser>(d);
+            }
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
                 dir_stack.pop_back();
@@ -266,12 +281,12 @@ public:
                     continue;
                 }
             }
-            if(glob_matches(entry->d_name, parts[dir_stack.back().part_number].c_str())) {
+            if(glob_matches(entry->d_name, parts[part_number].c_str())) {
                 if(is_last_part) {
                     return dir_stack.back().path / entry->d_name;
                 } else {
                     if(entry->d_type == DT_DIR) {
-                        enter_subdir(dir_stack.back().path, entry->d_name);
+                        enter_subdir(dir_stack.back().path / entry->d_name, part_number + 1);
                     }
                 }
             }
@@ -279,34 +294,17 @@ public:
     }
 
 private:
-    void enter_subdir(const Path &parent_dir, const char *subdir_name) {
-        Path full_path = parent_dir / subdir_name;
-        auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
-        const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
-        if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
-            const bool do_starstar = parts[new_depth] == "**";
-            if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
-                for(auto &sdir : sstar_dirs) {
-                    auto *ssd = opendir(sdir.c_str());
-                    if(ssd) {
-                        dir_stack.emplace_back(
-                            new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
-                    }
-                }
-            } else {
+    void enter_subdir(const Path &dir, const size_t part_number) {
+        if(parts[part_number] == "**") {
+            auto sstar_dirs = glob_starstar_dirs(dir);
+            // ** may expand to empty.
+            dir_stack.emplace_back(part_number + 1, dir, unique_ptr<DIR, DirCloser>());
+            for(auto &sdir : sstar_dirs) {
+                dir_stack.emplace_back(
+                    part_number + 1, move(sdir), unique_ptr<DIR, DirCloser>());
             }
         } else {
-            // Dir can not be accessed, so ignore it. Happens e.g. when
-            // you don't have access rights or the directory was deleted
-            // before we could access it.
+            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>());
         }
     }
 
@@ -321,6 +319,8 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
 GlobResult::~GlobResult() = default;
-- 
2.43.0


From 4fc8c6d5dc32fa4f35f9a19e1f854cfe12cb43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 76/96] fix: assigning to an MMapping leaked the old mapping

---
 include/pystd2026.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 061d123..d654349 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2291,6 +2291,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping old(buf, bufsize);
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
-- 
2.43.0


From e909a02b411a03a6f48f2fda2491ce5e02bda021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 77/96] fix: Range with a negative step was empty and stepping
 past the limits overflowed

---
 src/pystd2026.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 21a3f5b..6a8f50e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1309,12 +1309,14 @@ Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step >= 0 ? i >= end : i <= end) {
         return {};
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        i = end;
+    }
     return result;
 }
 
-- 
2.43.0


From e1bfa2fde6a6ffeb87c91efb03780008847c0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 78/96] fix: formatting 1024 bytes or more always aborted

---
 src/pystd2026.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6a8f50e..e9c0c17 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1367,19 +1367,24 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
+    va_list ap2;
+    va_copy(ap2, ap);
     auto rc = vsnprintf(buf, bufsize, format, ap);
     if(rc < 0) {
+        va_end(ap2);
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        unique_arr<char> bigbuf(rc + 1);
+        rc = vsnprintf(bigbuf.get(), rc + 1, format, ap2);
+        va_end(ap2);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
+        va_end(ap2);
         cb(buf, rc, ctx);
     }
 }
-- 
2.43.0


From 474767216cb173232b03212d11c44c9d69e08563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 79/96] fix: reading lines added a NUL to an unterminated last
 line and an empty line to the end

---
 include/pystd2026.hpp |  2 ++
 src/pystd2026.cpp     | 13 +++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index d654349..67056e3 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2194,6 +2194,8 @@ public:
     bool eof() const { return feof(f); }
 
 private:
+    friend class FileLineIterator;
+
     FILE *f;
     EncodingPolicy policy;
 };
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e9c0c17..816faa3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1259,7 +1259,15 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    // The file can be at its end without having noticed it yet.
+    const int c = fgetc(f->f);
+    if(c == EOF) {
+        return false;
+    }
+    ungetc(c, f->f);
+    return true;
+}
 
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
@@ -1285,9 +1293,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
-- 
2.43.0


From b9e6cafe071039c0408750c11e2b3c94996e23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 80/96] fix: GlobResult could not be assigned or default
 constructed outside the library

---
 include/pystd2026.hpp        | 2 +-
 src/pystd2026_filesystem.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 67056e3..9c8a1f3 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2270,7 +2270,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 16327e1..3220c19 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -323,6 +323,8 @@ GlobResult::GlobResult() noexcept = default;
 
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
-- 
2.43.0


From 01fe6fae8054cc33717e9c82e5be0bf213e1a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 81/96] fix: regex groups past the end and unset groups read
 outside the match

---
 src/pystd2026_regex.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..ae6d123 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -48,6 +48,9 @@ U8String U8Match::get_submatch(size_t i) {
         throw PyException("Submatch does not exist.");
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
+    if(ovector[2 * i] == PCRE2_UNSET) {
+        throw PyException("Regex group is not set.");
+    }
     auto match_start = ovector[2 * i];
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
@@ -60,10 +63,13 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
+    if(group_vector[2 * group_num] == PCRE2_UNSET) {
+        throw PyException("Regex group is not set.");
+    }
 
     const size_t match_start = group_vector[2 * group_num];
     const size_t match_end = group_vector[2 * group_num + 1];
-- 
2.43.0


From 1e66cff296371a094b7c8522d631cb15cf2cfdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 82/96] fix: joining or detaching a thread twice used a
 finished pthread handle

---
 src/pystd2026_threading.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026_threading.cpp b/src/pystd2026_threading.cpp
index 20095b7..24f7dcf 100644
--- a/src/pystd2026_threading.cpp
+++ b/src/pystd2026_threading.cpp
@@ -59,11 +59,17 @@ Thread::~Thread() {
 }
 
 void Thread::join() {
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
     pthread_join(thread, nullptr);
     thread_is_finalized = true;
 }
 
 void Thread::detach() {
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
     pthread_detach(thread);
     thread_is_finalized = true;
 }
-- 
2.43.0


From 4e28f79020c2e4f58f090195154a13bb3bb8d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 83/96] fix: a question mark in a glob matched the leading dot
 of hidden files

---
 src/pystd2026_filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 3220c19..9b526ea 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -34,6 +34,10 @@ bool glob_matches(const char *text,
         return false;
     }
     if(pattern_char == '?') {
+        if(text_offset == 0 && text_char == '.') {
+            // Nor do they match question marks.
+            return false;
+        }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else if(pattern_char == '*') {
         if(text_offset == 0 && text_char == '.') {
-- 
2.43.0


From 6be9d7d941dd102ac3861a1b958920acabaa2b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 84/96] fix: replacing an extension by a part of the same path
 broke the path

---
 src/pystd2026_filesystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 9b526ea..af0e966 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -205,15 +205,16 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
+    const CString added(new_extension); // The view may be to this path.
     auto extpoint = buf.rfind('.');
     const auto dirsep = buf.rfind('/');
     if(extpoint == (size_t)-1 || (dirsep != (size_t)-1 && extpoint < dirsep)) {
-        buf += new_extension;
+        buf += added;
     } else {
         while(buf.size() > extpoint) {
             buf.pop_back();
         }
-        buf += new_extension;
+        buf += added;
     }
 }
 
-- 
2.43.0


From 35fad2603263750c62a8c8d0343ed1863403cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 85/96] fix: a PyException could not be made from a message
 with bytes outside ASCII

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 816faa3..3e6a895 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1250,7 +1250,7 @@ PyException::PyException(const char *msg) : message("") {
     size_t offset = 0;
     while(msg[offset]) {
         auto c = msg[offset++];
-        if(c > 127) {
+        if((unsigned char)c > 127) {
             b.append('?');
         } else {
             b.append(c);
-- 
2.43.0


From 1ce699c91edd4f663d736fafe3aa87d4c8c51747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 86/96] fix: comparing a default constructed CStringView passed
 null pointers to strncmp

---
 src/pystd2026.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3e6a895..ccc66ed 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -493,7 +493,8 @@ size_t CStringView::find(CStringView substr) const {
 
 bool CStringView::operator<(const CStringView &o) const {
     const size_t common_size = o.size() < size() ? o.size() : size();
-    auto rc = strncmp(data(), o.data(), common_size);
+    // Empty views do not necessarily point to anything.
+    auto rc = common_size > 0 ? memcmp(data(), o.data(), common_size) : 0;
     if(rc < 0) {
         return true;
     }
-- 
2.43.0


From 3e3875b933def22e1673635be5ea6f90e4b7722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 87/96] fix: comparing a default constructed ZStringView passed
 a null pointer to strcmp

---
 src/pystd2026.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ccc66ed..1fa53f2 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -847,7 +847,10 @@ ZStringView CString::zview() const {
     return ZStringView{bytes.data()};
 }
 
-bool ZStringView::operator==(const char *text) const noexcept { return strcmp(buf, text) == 0; }
+bool ZStringView::operator==(const char *text) const noexcept {
+    // Empty views do not necessarily point to anything.
+    return strcmp(buf ? buf : "", text ? text : "") == 0;
+}
 
 char CString::back() const {
     if(bytes.size() < 2) {
-- 
2.43.0


From 8b70daa4d957d19fe4f040b467f631bc8bc2c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 88/96] fix: HashMap stored over-aligned keys and values at
 misaligned addresses

---
 include/pystd2026_hashtable.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index d929220..05d1b47 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -25,8 +25,8 @@ public:
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
         data.reset_hash_values();
-        data.keydata = Bytes(initial_table_size * sizeof(Key));
-        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+        data.keydata = unique_arr<typename MapData::template Storage<Key>>(initial_table_size);
+        data.valuedata = unique_arr<typename MapData::template Storage<Value>>(initial_table_size);
     }
 
     Value *lookup(const Key &key) const {
@@ -149,9 +149,12 @@ private:
     // This is neither fast, memory efficient nor elegant.
     // At this point in the project life cycle it does not need to be.
     struct MapData {
+        template<typename T> struct Storage {
+            alignas(T) char bytes[sizeof(T)];
+        };
         unique_arr<SlotMetadata> md;
-        Bytes keydata;
-        Bytes valuedata;
+        unique_arr<Storage<Key>> keydata;
+        unique_arr<Storage<Value>> valuedata;
 
         MapData() = default;
         MapData(MapData &&o) noexcept {
@@ -171,16 +174,12 @@ private:
 
         ~MapData() { deallocate_contents(); }
 
-        Key *keyptr(size_t i) noexcept { return (Key *)(keydata.data() + i * sizeof(Key)); }
-        const Key *keyptr(size_t i) const noexcept {
-            return (const Key *)(keydata.data() + i * sizeof(Key));
-        }
+        Key *keyptr(size_t i) noexcept { return (Key *)(keydata.get() + i); }
+        const Key *keyptr(size_t i) const noexcept { return (const Key *)(keydata.get() + i); }
 
-        Value *valueptr(size_t i) noexcept {
-            return (Value *)(valuedata.data() + i * sizeof(Value));
-        }
+        Value *valueptr(size_t i) noexcept { return (Value *)(valuedata.get() + i); }
         const Value *valueptr(size_t i) const noexcept {
-            return (const Value *)(valuedata.data() + i * sizeof(Value));
+            return (const Value *)(valuedata.get() + i);
         }
 
         void reset_hash_values() noexcept { memset(md.get(), 0, md.size_bytes()); }
@@ -258,8 +257,8 @@ private:
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
-        grown.keydata = Bytes(new_size * sizeof(Key));
-        grown.valuedata = Bytes(new_size * sizeof(Value));
+        grown.keydata = unique_arr<typename MapData::template Storage<Key>>(new_size);
+        grown.valuedata = unique_arr<typename MapData::template Storage<Value>>(new_size);
 
         grown.reset_hash_values();
         MapData old = move(data);
-- 
2.43.0


From 7b73f608d631f24a17801cc5c9618aa5aacaef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 89/96] fix: glob skipped directories on file systems that do
 not tell the types of their entries

---
 src/pystd2026_filesystem.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index af0e966..62ebaf0 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -67,6 +67,16 @@ bool glob_matches(const char *text, const char *pattern) {
     return glob_matches(text, 0, pattern, 0);
 }
 
+bool is_directory(const Path &parent, const dirent *entry) {
+    if(entry->d_type != DT_UNKNOWN) {
+        return entry->d_type == DT_DIR;
+    }
+    // Not all file systems tell the types of their entries.
+    const Path full_path = parent / entry->d_name;
+    struct stat sb;
+    return lstat(full_path.c_str(), &sb) == 0 && (sb.st_mode & S_IFMT) == S_IFDIR;
+}
+
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     Path root(root_); // Make a copy, because root_ may be in the vector and it may grow.
     DIR *d = root.is_empty() ? opendir(".") : opendir(root.c_str());
@@ -77,7 +87,7 @@ void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     unique_ptr<DIR, DirCloser> dc(d);
     while(entry) {
         // Entries with a leading dot do not match globs.
-        if(entry->d_type == DT_DIR && entry->d_name[0] != '.') {
+        if(entry->d_name[0] != '.' && is_directory(root, entry)) {
             dirs.push_back(root / entry->d_name);
         }
         entry = readdir(d);
@@ -290,7 +300,7 @@ public:
                 if(is_last_part) {
                     return dir_stack.back().path / entry->d_name;
                 } else {
-                    if(entry->d_type == DT_DIR) {
+                    if(is_directory(dir_stack.back().path, entry)) {
                         enter_subdir(dir_stack.back().path / entry->d_name, part_number + 1);
                     }
                 }
-- 
2.43.0


From b8dd5818ae86affd556c87b11b21f3cdacd7a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 90/96] fix: Case mapping of ASCII letters does not depend on
 the locale

---
 src/pystd2026.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 1fa53f2..e892338 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1447,7 +1447,9 @@ UnicodeConversionResult uppercase_unicode(uint32_t codepoint) {
     if(codepoint < 128) {
         UnicodeConversionResult r;
         memset(&r, 0, sizeof(UnicodeConversionResult));
-        r.codepoints[0] = toupper(codepoint);
+        // Not toupper, as its result depends on the locale.
+        r.codepoints[0] =
+            codepoint >= 'a' && codepoint <= 'z' ? codepoint - 'a' + 'A' : codepoint;
         return r;
     }
     auto mit = lower_bound(uppercasing_multi,
@@ -1481,7 +1483,9 @@ UnicodeConversionResult lowercase_unicode(uint32_t codepoint) {
     if(codepoint < 128) {
         UnicodeConversionResult r;
         memset(&r, 0, sizeof(UnicodeConversionResult));
-        r.codepoints[0] = tolower(codepoint);
+        // Not tolower, as its result depends on the locale.
+        r.codepoints[0] =
+            codepoint >= 'A' && codepoint <= 'Z' ? codepoint - 'A' + 'a' : codepoint;
         return r;
     }
 
-- 
2.43.0


From 895f86d50533c92cc47c7845dd8ec8368225bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 91/96] fix: Vector capacities that overflow or can not be
 allocated are refused

---
 include/pystd2026.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9c8a1f3..7af6ced 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1244,6 +1244,9 @@ public:
     }
 
     void append_with_default(size_t num_copies) {
+        if(num_copies > (size_t)-1 - size()) {
+            bootstrap_throw("Vector size too large.");
+        }
         reserve(size() + num_copies);
         for(size_t i = 0; i < num_copies; ++i) {
             new(objptr(num_entries)) T{};
@@ -1279,6 +1282,9 @@ private:
             // To avoid multiple small allocations at the beginning.
             new_capacity = MIN_CAPACITY;
         }
+        if(new_capacity > ((size_t)-1 - alignof(T)) / sizeof(T)) {
+            bootstrap_throw("Vector capacity too large.");
+        }
         const size_t buffer_size = new_capacity * sizeof(T);
         const size_t end_padding_size = (alignof(T) - (buffer_size % alignof(T))) % alignof(T);
         const size_t allocation_size = buffer_size + end_padding_size;
@@ -1290,6 +1296,9 @@ private:
         const size_t alignment = alignof(T);
 #endif
         char *new_buf = (char *)allocate_aligned_native(alignment, allocation_size);
+        if(!new_buf) {
+            bootstrap_throw("Vector memory allocation failed.");
+        }
         for(size_t i = 0; i < num_entries; ++i) {
             T *obj = objptr(i);
             new(new_buf + i * sizeof(T)) T(::pystd2026::move(*obj));
-- 
2.43.0


From af3ee7895dd478e17ccb41f5607613617e1309ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 92/96] fix: Extending Bytes by a size that overflows made it
 smaller

---
 src/pystd2026.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e892338..c2ab4fa 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -303,6 +303,7 @@ void Bytes::append(const char *begin, const char *end) {
 
 void Bytes::extend(size_t num_bytes) noexcept {
     const size_t target_size = bufsize + num_bytes;
+    assert(target_size >= bufsize);
     grow_to(target_size);
     bufsize += num_bytes;
 }
-- 
2.43.0


From d22673145193e1e7061afc0203509276143d3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 93/96] fix: CString::resize to the largest size wrote outside
 the buffer

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 7af6ced..ccb3953 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1797,6 +1797,9 @@ public:
     // There can be no embedded nulls, so grown strings are padded with spaces.
     void resize(size_t new_size) noexcept {
         const size_t old_size = size();
+        if(new_size == (size_t)-1) {
+            internal_failure("No room for the null terminator.");
+        }
         bytes.resize(new_size + 1);
         if(new_size > old_size) {
             memset(bytes.data() + old_size, ' ', new_size - old_size);
-- 
2.43.0


From 3497a5f882c8f77f95259efac6d25f71d2f1c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 94/96] fix: Vector made from a range leaked its contents when
 an element could not be created

---
 include/pystd2026.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index ccb3953..67ad7da 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1028,7 +1028,8 @@ public:
         }
     }
 
-    template<typename Iter1, typename Iter2> Vector(Iter1 start, Iter2 end) {
+    // Delegating so that the destructor runs if creating an element throws.
+    template<typename Iter1, typename Iter2> Vector(Iter1 start, Iter2 end) : Vector() {
         reserve(end - start);
         while(start != end) {
             push_back(*start);
-- 
2.43.0


From 13231060eae27a63bd370c12597934200a573b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 95/96] fix: A failed insert to a HashMap lost count of the
 removed slots

---
 include/pystd2026_hashtable.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 05d1b47..e6a6b75 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -231,12 +231,14 @@ private:
             } else if(data.md[slot].state == SlotState::Empty) {
                 if(first_tombstone != no_slot) {
                     slot = first_tombstone;
-                    --num_tombstones;
                 }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
                 new(key_loc) Key(key);
                 new(value_loc) Value{::pystd2026::move(v)};
+                if(first_tombstone != no_slot) {
+                    --num_tombstones;
+                }
                 data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
                 ++num_entries;
                 return *value_loc;
-- 
2.43.0


From b04ea35e74c7d96a5a0512b0a91cf5476c664394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 96/96] fix: format_append to a CString dropped everything
 after an embedded zero

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 67ad7da..bc5a71d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2357,7 +2357,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            *s += CString(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
-- 
2.43.0

