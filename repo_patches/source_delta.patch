From 3de918e892f1915ada810cab5d980fb7ff6c19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:06 +0000
Subject: [PATCH 01/51] fix: insert at the front of a non-empty array must not
 replace its contents

---
 src/ReferenceCountedArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1c512bd..bcf4a87 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1065,8 +1065,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just replace ours with a reference of theirs */
+      if (isEmpty() && slen > length() && n == slen) {
         *this = rca;
         return;
       }
@@ -1093,8 +1093,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just replace ours with a reference of theirs */
+      if (isEmpty() && slen > length()) {
         *this = rca;
         return;
       }
@@ -1120,8 +1120,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just move theirs */
+      if (isEmpty() && slen > length() && n == slen) {
         *this = std::move(rca);
         return;
       }
@@ -1148,8 +1148,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just move theirs */
+      if (isEmpty() && slen > length()) {
         *this = std::move(rca);
         return;
       }
-- 
2.43.0


From 2161436f3fe5250df0a11ffe43c96fe1a3fa5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 02/51] fix: reserve() must not reallocate storage shared with
 other objects

---
 src/ReferenceCountedArray.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index bcf4a87..a60f303 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -605,6 +605,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     virtual void reserve(const size_t newSize,
         double scaling_factor = 1) const {
+      /* Others are using this buffer too, leave theirs alone */
+      if (isShared()) {
+        COW(std::max(newSize, length()));
+        return;
+      }
       if (!Ref) {
         Ref = new ArrayRef<value_type, Allocator>(alloc);
       }
-- 
2.43.0


From 34be15fccefbc518e3ba2ef3e1457abe3cd9e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 03/51] fix: String::reserve() must not overwrite the last
 character of a full buffer

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 762f842..42b5db7 100755
--- a/src/String.h
+++ b/src/String.h
@@ -138,7 +138,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             double scaling_factor = 1) const override {
           const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
-          if (constBuf() != nullptr) {
+          if (constBuf() != nullptr && capacity() > offset + length()) {
             *Buf(capacity() - offset - 1) = '\0';
           }
         }
-- 
2.43.0


From 5a3f679fa418cb8ea8f05eb642a5cccb07830750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:37 +0000
Subject: [PATCH 04/51] fix: writing through front()/back() must not change
 other objects or keep a stale hash

---
 src/Array.h                 |  4 +++-
 src/ReferenceCountedArray.h | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2dfb472..5901e4a 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -127,7 +127,9 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline value_type pop() & {
       assert(!this->isEmpty());
-      value_type temp(this->isShared() ? this->back() : std::move(this->back()));
+      pointer item{this->Buf(this->length() - 1)};
+
+      value_type temp(this->isShared() ? *item : std::move(*item));
       this->pop_back();
       return temp;
     }
diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index a60f303..06db8b1 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -996,7 +996,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline void push_back(const_reference item) { append(item); };
     inline void push_back(value_type&& item) { append(std::move(item)); };
 
-    inline reference front() noexcept __attribute__((pure)) {
+    /**
+     * @post The Array is detached
+     */
+    inline reference front() {
+      getOwnCopy();
       return *Buf(0);
     }
 
@@ -1004,7 +1008,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       return *constBuf(0);
     }
 
-    inline reference back() noexcept __attribute__((pure)) {
+    /**
+     * @post The Array is detached
+     */
+    inline reference back() {
+      getOwnCopy();
       return *Buf(length() - 1);
     }
 
-- 
2.43.0


From a2d061497694a95dbd159891b93b15bc0357cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 05/51] fix: the reference from a non-const read() must not
 write into shared storage

---
 src/ReferenceCountedArray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 06db8b1..29403ea 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -836,7 +836,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @sa at()
      * Unlike at() this is unchecked.
      */
-    inline reference read(size_t pos) noexcept __attribute__((pure)) {
+    inline reference read(size_t pos) {
+      getOwnCopy();
       return *(Buf(pos));
     };
     inline const_reference read(size_t pos) const noexcept __attribute__((pure)) {
@@ -896,7 +897,6 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element but does a COW since it may be written to.
          */
         inline reference mget(void) {
-          rca.getOwnCopy();
           return rca.read(start);
         }
 
@@ -904,7 +904,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element without a COW.
          */
         inline const_reference get(void) const noexcept __attribute__((pure)) {
-          return rca.read(start);
+          return *(rca.constBuf(start));
         }
 
         /**
@@ -920,7 +920,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         };
 
 #ifdef CPPUNIT_VERSION
-        inline size_t rcount() const noexcept { return rca.read(start).rcount(); }
+        inline size_t rcount() const noexcept { return get().rcount(); }
         inline intptr_t rptr() const noexcept __attribute__((pure)) { return get().rptr(); }
 #endif
     };
-- 
2.43.0


From 03d7344e53790cb7b1fd7ecbc238af6017e9d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:59 +0000
Subject: [PATCH 06/51] fix: resize() with a value must not construct over live
 elements

---
 src/ReferenceCountedArray.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 29403ea..3410d30 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -652,14 +652,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         setLength(len);
       } else {
         AboutToModify(len);
-        /*
-         * Use constructing for objects but allow memset
-         * for simple types via std::fill.
-         */
-        if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-          std::uninitialized_fill(Buf(length()), Buf(len), value);
-        else
-          std::fill(Buf(length()), Buf(len), value);
+        /* The whole buffer is always constructed, assign over it. */
+        std::fill(Buf(length()), Buf(len), value);
         sublen = len;
       }
     }
-- 
2.43.0


From 30453dc5dd3df45ef13811aa5cc9104bdf632ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:33 +0000
Subject: [PATCH 07/51] fix: copy-on-write and clear() must keep shared storage
 alive and free it exactly once across threads

---
 src/ReferenceCountedArray.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 3410d30..1ede47e 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -254,10 +254,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * @brief Detach from the shared reference.
      * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
-     * @note This does not free the old reference, as it is still in use
+     * @note The old reference is free'd if every other user dropped it meanwhile.
      */
     void doDetach() const noexcept {
-      decRef();
+      CheckDeallocRef();
       Ref = nullptr;
       sublen = 0;
       offset = 0;
@@ -360,7 +360,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * This is only called in ~Array() and operator=(Array&).
      * It checks whether of not this Array was the last reference to the buffer, and if it was, it removes it.
      */
-    inline void CheckDeallocRef() noexcept {
+    inline void CheckDeallocRef() const noexcept {
       if (Ref && decRef() < 1) {
         delete Ref;
         Ref = nullptr;
@@ -384,7 +384,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       const_pointer oldBuf = constBuf();
       const size_t oldLength = length();
 
-      assert(isShared());
+      assert(Ref != nullptr);
+      // Hold on to the shared reference until its contents have been copied
+      const ReferenceCountedArray old(*this);
       doDetach(); //Detach from the shared reference
       reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
       sublen = std::min(oldLength, n);
-- 
2.43.0


From e83787b786a386acc8c1d4c2f3ecf31231aa2448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:08 +0000
Subject: [PATCH 08/51] fix: destroying unrelated Strings in two threads must
 not race on the cleanse counter

---
 src/String.cpp | 2 +-
 src/String.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index bb4ca5c..c65e57f 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -36,7 +36,7 @@
 
 BDLIB_NS_BEGIN
 
-unsigned char String::cleanse_ctr = 0;
+thread_local unsigned char String::cleanse_ctr = 0;
 
 /* Accessors */
 int String::compare(const String& str) const noexcept
diff --git a/src/String.h b/src/String.h
index 42b5db7..577cf29 100755
--- a/src/String.h
+++ b/src/String.h
@@ -65,7 +65,7 @@ typedef char String_Array_Type;
 class String : public ReferenceCountedArray<String_Array_Type> {
   private:
         typedef std::allocator<String_Array_Type> Allocator;
-        static unsigned char cleanse_ctr;
+        static thread_local unsigned char cleanse_ctr;
 
         /* Cleanse our buffer using OPENSSL_cleanse() */
         void cleanse() noexcept {
-- 
2.43.0


From ab6e95e70fbb28d136b84df391c5cb564817d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:27 +0000
Subject: [PATCH 09/51] fix: c_str() must not read past a buffer that is
 exactly full

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 577cf29..de1a5c3 100755
--- a/src/String.h
+++ b/src/String.h
@@ -234,7 +234,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             return "";
           assert(constBuf() != nullptr);
           assert(length() > 0);
-          if (*constBuf(length()) != '\0') {
+          if (offset + length() >= capacity() || *constBuf(length()) != '\0') {
             assert(sublen > 0);
             AboutToModify(length() + 1);
             *(Buf(length())) = '\0';
-- 
2.43.0


From 483707ccd6297491c68486fb563d4d55babc713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 10/51] fix: a moved-from array must be empty rather than keep
 a length without a buffer

---
 src/ReferenceCountedArray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1ede47e..dab9c10 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -445,11 +445,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       Ref(rca.Ref), offset(rca.offset),
       sublen(rca.sublen), my_hash(rca.my_hash) {
       rca.Ref = nullptr;
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
     }
   public:
     /**
@@ -551,11 +549,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       my_hash = rca.my_hash;
       Ref = rca.Ref;
 
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
       rca.Ref = nullptr;
 
       return *this;
-- 
2.43.0


From faa358daf774aba700af1677e6f98e5f34567d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 11/51] fix: slice() with a negative or huge length must stay
 within the array

---
 src/ReferenceCountedArray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index dab9c10..646e901 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -951,7 +951,6 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * The returned slice is a reference to the original array until modified.
      */
     void slice(ssize_t start, ssize_t len = -1) noexcept {
-      if (len == -1) len = int(length()) - start;
       // Start is after the end, set us to an empty array
       if (start >= static_cast<signed>(length())) {
         offset = length();
@@ -968,11 +967,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       offset += start;
       //If the length of the subarray exceeds the end of the array, truncate to the end of the array
-      if (start + len >= static_cast<signed>(length()))
-        len = length() - start;
+      const ssize_t remaining = length() - start;
+      if (len == -1 || len >= remaining)
+        len = remaining;
       // If the length is negative, stop from counting backwards from the end
       else if (len < 0)
-        len = length() - start + len;
+        len = std::max<ssize_t>(remaining + len, 0);
       setLength(len);
     }
 
-- 
2.43.0


From e9f8d8831c697e70a2d469ca8d3f226044dda497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:24 +0000
Subject: [PATCH 12/51] fix: split() and sub() with an empty search string must
 terminate

---
 src/String.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index c65e57f..0159c03 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -191,7 +191,7 @@ std::istream& getline(std::istream& is, String& string) {
  */
 Array<String> String::split(const String& delim, size_t limit) const {
   if (!length()) return Array<String>();
-  if (limit == 1) {
+  if (limit == 1 || !delim.length()) {
     return Array<String>({*this});
   }
 
@@ -317,6 +317,7 @@ size_t String::rfind(const String& str, const size_t lpos) const noexcept {
 }
 
 String String::sub(const String& search, const String& replacement, int limit) const {
+  if (!search.length()) return *this;
   String newStr(length()), search_str(*this);
   size_type pos = 0;
   auto cnt = 0;
-- 
2.43.0


From dd163157fb96297e6d390815eba1ffcd75d18917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:26 +0000
Subject: [PATCH 13/51] fix: rifind() must honour lpos

---
 src/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 0159c03..9827c0e 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -300,7 +300,7 @@ size_t String::rifind(const String& str, const size_t lpos) const {
   String str_upper(str.length()), this_upper(length());
   std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
   std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
-  return this_upper.rfind(str_upper);
+  return this_upper.rfind(str_upper, lpos);
 }
 
 size_t String::rfind(const String& str, const size_t lpos) const noexcept {
-- 
2.43.0


From 2f52056c709487bb267f0b0bbced4a445a539e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:53 +0000
Subject: [PATCH 14/51] fix: comparing with a cstring must not read past its
 terminator

---
 src/String.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 9827c0e..544fbb3 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -80,6 +80,9 @@ int String::compare(const char* str) const noexcept
   for (size_t pos = 0; pos < length(); ++pos) {
     if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    /* The cstring ended while we still have an embedded '\0' */
+    if (*constBuf(pos) == '\0')
+      return 1;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
@@ -89,8 +92,13 @@ int String::compare(const char* str, size_t n) const noexcept
   if (n == 0)
     return 0;
   for (size_t pos = 0; pos < length(); ++pos) {
-    if (*constBuf(pos) != *str++ || --n == 0)
+    if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    /* The cstring ended while we still have an embedded '\0' */
+    if (*constBuf(pos) == '\0')
+      return 1;
+    if (--n == 0)
+      return 0;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
-- 
2.43.0


From 3fb40cb189b9d39255d5f057ff4a9f820bac6598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 15/51] fix: String::printf() must not read past its buffer
 when the result is longer than it

---
 src/String.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 544fbb3..87ede99 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -258,7 +258,19 @@ String String::printf(const char* format, ...) {
   const auto len = vsnprintf(va_out, sizeof(va_out), format, va);
   va_end(va);
 
-  return String(va_out, len);
+  if (len < 0)
+    return String();
+  if (size_t(len) < sizeof(va_out))
+    return String(va_out, len);
+
+  /* Did not fit, format again straight into a large enough String */
+  String string;
+  string.resize(len);
+  va_start(va, format);
+  vsnprintf(string.mdata(), len + 1, format, va);
+  va_end(va);
+
+  return string;
 }
 
 String& String::chomp() noexcept {
-- 
2.43.0


From 818e45138310a671014e16d0fabeedb9c5bc2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:44 +0000
Subject: [PATCH 16/51] fix: join() of empty strings with an empty delimiter
 must not underflow its size

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 5901e4a..a0831e4 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -157,7 +157,7 @@ class Array : public ReferenceCountedArray<T> {
       size_t str_size = 0, i;
 
       // Preallocate a fully sized String to avoid frequent resizing
-      str_size += (this->length() * delim.length()) - 1;
+      str_size += (this->length() - 1) * delim.length();
       if (quoted)
 	str_size += this->length() * 2;
       for (i = 0; i < this->length(); ++i)
-- 
2.43.0


From 7a30a7f43a54b6448e2b54bb781c6f8a1a927090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:45 +0000
Subject: [PATCH 17/51] fix: base64 decoding with a custom charset must not
 index with a signed char

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index f1d1d5d..d07acbb 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -156,7 +156,7 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
     char charset_index[256];
     memset(charset_index, -1, sizeof(charset_index));
     for (size_t i = 0; i < 64; ++i)
-      charset_index[int(charset[i])] = i;
+      charset_index[static_cast<unsigned char>(charset[i])] = i;
     b64dec_buf(data, len, dest, charset_index);
   }  else
     b64dec_buf(data, len, dest);
-- 
2.43.0


From 14c2f260e46cb88dff33c7c1190cb21f485968f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:16 +0000
Subject: [PATCH 18/51] fix: strlcat() must not read past an unterminated
 destination

---
 src/Cstrings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index a768dfe..18dba8d 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -75,7 +75,7 @@ strlcat(char *dst, const char *src, size_t siz)
   size_t dlen;
 
   /* Find the end of dst and adjust bytes left but don't go past end */
-  while (*d != '\0' && n-- != 0)
+  while (n-- != 0 && *d != '\0')
     d++;
   dlen = d - dst;
   n = siz - dlen;
-- 
2.43.0


From 0fbb3741c003e385ce03961bf7263cc9f1380e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:17 +0000
Subject: [PATCH 19/51] fix: base64 decoding must not read past input whose
 length is not a multiple of 4

---
 src/base64.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index d07acbb..fba8674 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -25,6 +25,7 @@
 /* base64.c
  */
 
+#include <algorithm> // min()
 #include <cstdlib>
 #include <cstring>
 #include "base64.h"
@@ -122,26 +123,27 @@ char *b64enc(const unsigned char *src, size_t *len, const char* charset)
 void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char* charset_index)
 {
   char *buf = dest;
-  size_t blocks = (*len / NUM_ENCODED_BYTES) + ((*len % NUM_ENCODED_BYTES) ? 1 : 0);
+  size_t left = *len;
 
   if (!charset_index) {
     charset_index = b64_indexes;
   }
 
   /* Convert the encoded base64 character back into our base255 ASCII character */
-  while (blocks > 0) {
+  /* A lone trailing character does not encode anything */
+  while (left > 1) {
     /* buf[0] is the 6 bits from data[0] + left-most 2 bits of data[1] */
     *buf++ = (charset_index[data[0]] << 2) + ((charset_index[data[1]] & 0x30) >> 4);  /* 0x30 not required but to be clear. */
-    if (data[2] != PADDING_CHAR) {
+    if (left > 2 && data[2] != PADDING_CHAR) {
       /* buf[1] is the right-most 4 bits of data[1] + left-most 4 bits of data[2] */
       *buf++ = ((charset_index[data[1]] & 0x0f) << 4) + ((charset_index[data[2]] & 0x3c) >> 2);
-      if (data[3] != PADDING_CHAR) {
+      if (left > 3 && data[3] != PADDING_CHAR) {
         /* buf[2] is the right-most 2 bits of data[2] + data[3] */
         *buf++ = ((charset_index[data[2]] & 0x03) << 6) + charset_index[data[3]];
       }
     }
     data += NUM_ENCODED_BYTES;
-    --blocks;
+    left -= std::min<size_t>(left, NUM_ENCODED_BYTES);
   }
 
   *len = (buf - dest);
-- 
2.43.0


From a704cc53a7d7a60d05fea16feda73f5cd997cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:19 +0000
Subject: [PATCH 20/51] fix: reading from a Stream positioned past its data
 must return nothing

---
 src/Stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 58a750c..d4f1f18 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -72,7 +72,8 @@ int Stream::seek(int offset, int whence) {
 }
 
 String Stream::read(size_t maxSize, char delim) {
-  size_t toRead = std::min(maxSize, length() - pos);
+  /* The position may have been seeked past the end of the data */
+  size_t toRead = pos < length() ? std::min(maxSize, length() - pos) : 0;
 
   /* No need to split the string, return a substring */
   if (!delim) {
-- 
2.43.0


From c3e45eed6ac9b1af05093fa55e5e546ca0f30228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:21 +0000
Subject: [PATCH 21/51] fix: loading an empty file into a Stream is not an
 error

---
 src/Stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index d4f1f18..4fc5427 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -114,6 +114,9 @@ int Stream::loadFile(const int fd)
   if (size < 0) {
     return 1;
   }
+  /* Nothing to map */
+  if (size == 0)
+    return 0;
   reserve(size);
   void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
   if (map == MAP_FAILED) {
-- 
2.43.0


From 15b538c28a7482a59f71c449219c0fb90d5aec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:23 +0000
Subject: [PATCH 22/51] fix: AtomicFile must close its descriptor when commit()
 fails or the file is reopened

---
 src/AtomicFile.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index e675837..7e1231c 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -38,6 +38,11 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   size_t slash_pos;
   String dir;
 
+  /* Do not leak a file that was never committed */
+  if (is_open()) {
+    abort();
+  }
+
   _fname = fname;
   _mode = mode;
 
@@ -75,7 +80,11 @@ bool AtomicFile::abort() {
 
 bool AtomicFile::commit() {
   bool result, remove_temp;
+  int fd;
 
+  if (!is_open()) {
+    return false;
+  }
   result = false;
   remove_temp = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
@@ -84,7 +93,9 @@ bool AtomicFile::commit() {
   if (::fsync(_fd) != 0) {
     goto cleanup;
   }
-  if (::close(_fd) != 0) {
+  fd = _fd;
+  _fd = -1;
+  if (::close(fd) != 0) {
     goto cleanup;
   }
   if (std::rename(_tmpname.c_str(), _fname.c_str()) != 0) {
@@ -98,7 +109,10 @@ cleanup:
   if (remove_temp) {
     ::unlink(_tmpname.c_str());
   }
-  _fd = -1;
+  if (is_open()) {
+    ::close(_fd);
+    _fd = -1;
+  }
   return result;
 }
 BDLIB_NS_END
-- 
2.43.0


From 5a969852e5fa387e2f650ba020569e1109d275df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:45 +0000
Subject: [PATCH 23/51] fix: assigning an initializer list to a HashTable must
 compile and replace its contents

---
 src/HashTable.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/HashTable.h b/src/HashTable.h
index 9bd6788..750fb20 100644
--- a/src/HashTable.h
+++ b/src/HashTable.h
@@ -116,9 +116,7 @@ class HashTable {
      * @param list An initializer_list
      */
     HashTable& operator=(std::initializer_list<value_type> list) & {
-      for (const auto& item : list) {
-        (*this)[item.key()] = item.value();
-      }
+      map = list;
       return *this;
     }
 
-- 
2.43.0


From b10abcc3118b118a9b74bc73c142906682087252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:09 +0000
Subject: [PATCH 24/51] fix: appending a temporary Array with += must compile

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index a0831e4..b98dc4d 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -322,7 +322,7 @@ class Array : public ReferenceCountedArray<T> {
     }
 
     inline Array& operator+=(Array&& array) & {
-      append(std::move(array));
+      this->append(std::move(array));
       return *this;
     }
 
-- 
2.43.0


From 076144d753cb1354f29958c1c7d99437c3a9d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:03 +0000
Subject: [PATCH 25/51] fix: replacing the item just past the end must extend
 the array rather than write out of bounds

---
 src/ReferenceCountedArray.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 646e901..a4c30c6 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1215,11 +1215,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post COW is done if needed.
      */
     void replace(size_t pos, const_reference item) {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      replace(pos, value_type(item));
     }
 
     /**
@@ -1233,8 +1229,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
+      const auto newlen = std::max(pos + 1, length());
+      AboutToModify(newlen);
       *(Buf(pos)) = std::move(item);
+      sublen = newlen;
     }
 
     /**
-- 
2.43.0


From 64c6a599e14ea4a1e2f52a89dcbf04114ef98b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:27 +0000
Subject: [PATCH 26/51] fix: inserting or replacing with an array's own
 contents must not use moved or freed memory

---
 src/ReferenceCountedArray.h | 29 +++++++++++++++++++----------
 src/String.cpp              | 16 ++++++++++++++++
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index a4c30c6..3b004d8 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -840,8 +840,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @brief Write an item to the given index
      */
     inline void write(size_t pos, const_reference item) {
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      /* item may be one of our own */
+      write(pos, value_type(item));
     };
     inline void write(size_t pos, value_type&& item) {
       getOwnCopy();
@@ -1065,6 +1065,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const ReferenceCountedArray& rca, size_t n) {
       if (n == 0) return;
+      if (&rca == this) {
+        const ReferenceCountedArray copy(rca);
+        insert(pos, copy, n);
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1093,6 +1098,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains all items from rca inserted at index pos.
      */
     void insert(size_t pos, const ReferenceCountedArray& rca) {
+      if (&rca == this) {
+        const ReferenceCountedArray copy(rca);
+        insert(pos, copy);
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1177,14 +1187,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const_reference item)
     {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      AboutToModify(length() + 1);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = item;
-      ++sublen;
+      /* item may be one of our own */
+      insert(pos, value_type(item));
     }
 
     /**
@@ -1243,6 +1247,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void replace(size_t pos, const ReferenceCountedArray& rca, size_t n = npos) {
       if (n == 0) return;
+      if (&rca == this) {
+        const ReferenceCountedArray copy(rca);
+        replace(pos, copy, n);
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
diff --git a/src/String.cpp b/src/String.cpp
index 87ede99..f75a929 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -130,6 +130,14 @@ void String::insert(size_t pos, const char *string, size_t n)
   
   const auto slen = (n == npos) ? std::strlen(string) : n;
 
+  /* The cstring may be our own buffer, which is about to be moved. */
+  if (std::less_equal<const char*>()(real_begin(), string) &&
+      std::less<const char*>()(string, real_begin() + capacity())) {
+    const String copy(string, slen);
+    insert(pos, copy);
+    return;
+  }
+
   AboutToModify(length() + slen);
   /* Shift right */
   std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
@@ -152,6 +160,14 @@ void String::replace(size_t pos, const char *string, size_t n)
   const auto slen = (n == npos) ? std::strlen(string) : n;
   auto newlen = pos + slen;
 
+  /* The cstring may be our own buffer, which is about to be moved. */
+  if (std::less_equal<const char*>()(real_begin(), string) &&
+      std::less<const char*>()(string, real_begin() + capacity())) {
+    const String copy(string, slen);
+    replace(pos, copy);
+    return;
+  }
+
   if (newlen < length())
     newlen = length();
   AboutToModify(newlen);
-- 
2.43.0


From 65769782ba9e516f2c56cc36745e72bd169b9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:09 +0000
Subject: [PATCH 27/51] fix: unsigned values must reach Tcl without changing
 sign

---
 src/ScriptInterpTCL.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 9c4e15e..95692e1 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -393,7 +393,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int8_t&>::from(const int8_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint8_t&>::from(const uint8_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int8_t&>::from(value, interp);
+  return c_to_tcl_cast<const int16_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
@@ -403,7 +403,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint16_t&>::from(const uint16_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int16_t&>::from(value, interp);
+  return c_to_tcl_cast<const int32_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
@@ -413,7 +413,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint32_t&>::from(const uint32_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int32_t&>::from(value, interp);
+  return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
@@ -423,6 +423,10 @@ inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint64_t&>::from(const uint64_t& value,
     Tcl_Interp* interp) {
+  /* Tcl has no unsigned type, hand it the digits if they don't fit. */
+  if (value > uint64_t(INT64_MAX))
+    return c_to_tcl_cast<const String&>::from(
+        String::printf("%llu", (unsigned long long)value), interp);
   return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
-- 
2.43.0


From 608ebc88fa1c6f162a3ca79da5cbd313ef4edfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:14 +0000
Subject: [PATCH 28/51] fix: converting a Tcl integer to uint64_t must yield
 its value

---
 src/ScriptInterpTCL.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5e1c6ca..09d1320 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -274,10 +274,16 @@ int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  double sign = 0;
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
     return 0;
     //return "Type Error";
   }
+  /* Values above INT64_MAX come back wrapped around */
+  if (v < 0 && (Tcl_GetDoubleFromObj(0, obj, &sign) != TCL_OK || sign < 0)) {
+    //return "OverflowError";
+    return 0;
+  }
   return v;
 }
 
-- 
2.43.0


From ce9726252da5fbc66ba3a489408bc896d073f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:22 +0000
Subject: [PATCH 29/51] fix: setting a linked char buffer must not read past
 the end of a short value

---
 src/ScriptInterpTCL.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 95692e1..34bf027 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -261,8 +261,8 @@ class ScriptInterpTCL : public ScriptInterp {
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
 
-          memmove(data->ptr, tcl_to_c_cast<T>::from(obj, nullptr),
-              data->size);
+          strncpy(static_cast<T>(data->ptr),
+              tcl_to_c_cast<T>::from(obj, nullptr), data->size);
           if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
               std::is_same<T, const char*>::value)
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
-- 
2.43.0


From 64d18feead439392bafacf61aa1772dffea2a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:05 +0000
Subject: [PATCH 30/51] fix: a command invoked as ::name or after being renamed
 must not crash

---
 src/ScriptInterpTCL.cpp | 12 +++++++++++-
 src/ScriptInterpTCL.h   | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 09d1320..c8243c9 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -59,6 +59,14 @@ ScriptInterp::LoadError ScriptInterpTCL::loadScript(const String& fileName,
   return SCRIPT_LOAD_OK;
 }
 
+/**
+ * @brief Callback handler for when TCL removes the command
+ */
+void ScriptInterpTCL::ScriptCmdTCL::_deleteCommand_callback(
+    ClientData clientData) {
+  static_cast<ScriptCmdTCL*>(clientData)->registered = false;
+}
+
 /**
  * @brief Callback handler for when a TCL->C function call is made
  */
@@ -66,7 +74,9 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
     ClientData clientData, Tcl_Interp *interp, int objc,
     Tcl_Obj *CONST objv[]) {
   String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-  ScriptCmdPtr ccd = CmdHandlerData[cmdName];
+  /* The script may be using any name for the command, ie ::cmd or renamed. */
+  ScriptCmdPtr ccd =
+    static_cast<ScriptCmdTCL*>(clientData)->shared_from_this();
 
   if ((size_t(objc) - 1) < ccd->callbackParamMin ||
       size_t(objc) - 1 > ccd->callbackParamMax) {
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 34bf027..6104bc7 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -145,7 +145,11 @@ class ScriptInterpTCL : public ScriptInterp {
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
 
-        struct ScriptCmdTCL : public ScriptCmd {
+        struct ScriptCmdTCL : public ScriptCmd,
+            public std::enable_shared_from_this<ScriptCmdTCL> {
+          Tcl_Command token = nullptr;
+
+          static void _deleteCommand_callback(ClientData clientData);
           static int _createCommand_callback(ClientData clientData,
               Tcl_Interp *interp, int objc, Tcl_Obj *CONST objv[]);
 
@@ -163,15 +167,17 @@ class ScriptInterpTCL : public ScriptInterp {
           virtual void registerCmd() {
             if (registered)
               return;
-            Tcl_CreateObjCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName, _createCommand_callback, nullptr, nullptr);
+            token = Tcl_CreateObjCommand(
+                static_cast<ScriptInterpTCL*>(si)->interp, *cmdName,
+                _createCommand_callback, this, _deleteCommand_callback);
             ScriptCmd::registerCmd();
           }
           virtual void unregisterCmd() {
             if (!registered)
               return;
-            Tcl_DeleteCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName);
+            /* The script may have renamed it. */
+            Tcl_DeleteCommandFromToken(
+                static_cast<ScriptInterpTCL*>(si)->interp, token);
             ScriptCmd::unregisterCmd();
           }
         };
-- 
2.43.0


From daec655e33b712d5f86b8a548eb463995a1e0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:14 +0000
Subject: [PATCH 31/51] fix: commands and variable hooks of one interpreter
 must not affect another

---
 src/ScriptInterpTCL.cpp |  9 +++++++--
 src/ScriptInterpTCL.h   | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index c8243c9..e053b3d 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,13 +10,13 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::ScriptCmdPtr>ScriptInterpTCL::CmdHandlerData;
-std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
+static const char assocKey[] = "bdlib::ScriptInterpTCL";
 
 int ScriptInterpTCL::init() {
   // create interp
   interp = Tcl_CreateInterp();
   //Tcl_FindExecutable(binname);
+  Tcl_SetAssocData(interp, assocKey, nullptr, this);
 
   if (Tcl_Init(interp) != TCL_OK) {
     Tcl_Obj* result = Tcl_GetObjResult(interp);
@@ -27,6 +27,11 @@ int ScriptInterpTCL::init() {
   return 0;
 }
 
+ScriptInterpTCL* ScriptInterpTCL::fromInterp(Tcl_Interp* interp) {
+  return static_cast<ScriptInterpTCL*>(
+      Tcl_GetAssocData(interp, assocKey, nullptr));
+}
+
 int ScriptInterpTCL::destroy() {
   if (interp && !Tcl_InterpDeleted(interp)) {
     Tcl_DeleteInterp(interp);
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 6104bc7..0c62638 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -139,8 +139,7 @@ class ScriptInterpTCL : public ScriptInterp {
       Tcl_Obj* obj, ScriptInterp* si);
   private:
         Tcl_Interp *interp;
-        static std::unordered_map<String, ScriptCmdPtr>
-          CmdHandlerData;
+        std::unordered_map<String, ScriptCmdPtr> CmdHandlerData;
 
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
@@ -243,6 +242,7 @@ class ScriptInterpTCL : public ScriptInterp {
 
           *static_cast<T*>(clientData) =
             std::move(tcl_to_c_cast<T>::from(obj, nullptr));
+          const auto& link_var_hooks = fromInterp(interp)->link_var_hooks;
           const auto link_var_hook = link_var_hooks.find(name1);
           if (link_var_hook != std::end(link_var_hooks))
             link_var_hook->second(
@@ -257,6 +257,7 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
+          const auto& link_var_hooks = fromInterp(interp)->link_var_hooks;
           const auto link_var_hook = link_var_hooks.find(name1);
           auto data = static_cast<const trace_ptr_data*>(clientData);
           /* Save oldval */
@@ -288,7 +289,11 @@ class ScriptInterpTCL : public ScriptInterp {
   protected:
         virtual int init();
         virtual int destroy();
-        static std::unordered_map<String, link_var_hook_t> link_var_hooks;
+        std::unordered_map<String, link_var_hook_t> link_var_hooks;
+        /**
+         * @brief Find the object which created the given interp
+         */
+        static ScriptInterpTCL* fromInterp(Tcl_Interp* interp);
 
   public:
         ScriptInterpTCL() : ScriptInterp(), interp(nullptr), trace_ptrs() {
-- 
2.43.0


From db7e85268bbc35f3f250e004f01260b4974d2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:18 +0000
Subject: [PATCH 32/51] fix: linking a variable name again must drop the link
 it replaces

---
 src/ScriptInterpTCL.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index e053b3d..9d0d9a1 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -112,6 +112,9 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
 
 void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
     Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+  /* Drop the traces and hook if the name was already linked */
+  Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
+  link_var_hooks.erase(varName);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-- 
2.43.0


From 199c370d70ea2f7d69b3b456aa5b0c9829c72483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:25 +0000
Subject: [PATCH 33/51] fix: script callback arguments must be passed verbatim

---
 src/ScriptInterpTCL.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 0c62638..daf56bd 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -126,8 +126,13 @@ class ScriptCallbackerTCL : public ScriptCallbacker {
       ScriptCallbacker(_si, _cmd) {};
     virtual ~ScriptCallbackerTCL() {};
     inline virtual String call(const Array<String>& params = Array<String>()) {
-      return si->eval(String::printf("%s %s", cmd.c_str(),
-            params.join(" ", true).c_str()));
+      /* A list quotes its elements so that they are not substituted. */
+      Tcl_Obj* list = c_to_tcl_cast<const Array<String>&>::from(params,
+          nullptr);
+      Tcl_IncrRefCount(list);
+      const String args(tcl_to_c_cast<String>::from(list, si));
+      Tcl_DecrRefCount(list);
+      return si->eval(cmd + " " + args);
     }
 
 };
-- 
2.43.0


From c1f81ef23fd71301850fd7ca5446f744252ee6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 34/51] fix: a variable hook must run however the script names
 the variable

---
 src/ScriptInterpTCL.cpp | 25 ++++++++----------
 src/ScriptInterpTCL.h   | 56 ++++++++++++++---------------------------
 2 files changed, 29 insertions(+), 52 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 9d0d9a1..596dc28 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,13 +10,10 @@
 
 BDLIB_NS_BEGIN
 
-static const char assocKey[] = "bdlib::ScriptInterpTCL";
-
 int ScriptInterpTCL::init() {
   // create interp
   interp = Tcl_CreateInterp();
   //Tcl_FindExecutable(binname);
-  Tcl_SetAssocData(interp, assocKey, nullptr, this);
 
   if (Tcl_Init(interp) != TCL_OK) {
     Tcl_Obj* result = Tcl_GetObjResult(interp);
@@ -27,11 +24,6 @@ int ScriptInterpTCL::init() {
   return 0;
 }
 
-ScriptInterpTCL* ScriptInterpTCL::fromInterp(Tcl_Interp* interp) {
-  return static_cast<ScriptInterpTCL*>(
-      Tcl_GetAssocData(interp, assocKey, nullptr));
-}
-
 int ScriptInterpTCL::destroy() {
   if (interp && !Tcl_InterpDeleted(interp)) {
     Tcl_DeleteInterp(interp);
@@ -110,16 +102,19 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
   return TCL_OK;
 }
 
-void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
-    Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+void ScriptInterpTCL::setupTraces(const String& varName, const void* var,
+    size_t size, Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
+    link_var_hook_t hook_func) {
   /* Drop the traces and hook if the name was already linked */
   Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
-  link_var_hooks.erase(varName);
+  auto& data = trace_ptrs[varName];
+  data = std::make_unique<trace_ptr_data>(const_cast<void*>(var), size,
+      hook_func);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-  if (hook_func != nullptr)
-    link_var_hooks[varName] = hook_func;
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get,
+      data.get());
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set,
+      data.get());
 }
 
 const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index daf56bd..a567a19 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -200,13 +200,15 @@ class ScriptInterpTCL : public ScriptInterp {
         struct trace_ptr_data {
           void* ptr;
           size_t size;
-          trace_ptr_data(void* _ptr, size_t _size) : ptr(_ptr), size(_size) {};
+          link_var_hook_t hook;
+          trace_ptr_data(void* _ptr, size_t _size, link_var_hook_t _hook) :
+            ptr(_ptr), size(_size), hook(_hook) {};
           trace_ptr_data(const trace_ptr_data&) = delete;
           trace_ptr_data& operator=(const trace_ptr_data&) = delete;
         };
         std::unordered_map<String, std::unique_ptr<trace_ptr_data>> trace_ptrs;
 
-        void setupTraces(const String& name, ClientData var,
+        void setupTraces(const String& name, const void* var, size_t size,
             Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
             link_var_hook_t hook_func);
 
@@ -216,8 +218,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template<typename T>
         static inline const char* tcl_traceGet(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
+          auto data = static_cast<const trace_ptr_data*>(clientData);
           return TraceGet(
-              c_to_tcl_cast<T&>::from(*static_cast<T*>(clientData), interp),
+              c_to_tcl_cast<T&>::from(*static_cast<T*>(data->ptr), interp),
               interp, name1, name2, flags);
         }
         template<typename T>
@@ -228,13 +231,6 @@ class ScriptInterpTCL : public ScriptInterp {
               c_to_tcl_cast<T>::from(static_cast<T>(data->ptr),
                 interp), interp, name1, name2, flags);
         }
-        template<typename T>
-        static inline const char* tcl_traceGetPtr(ClientData clientData,
-            Tcl_Interp* interp, char* name1, char* name2, int flags) {
-          return TraceGet(
-              c_to_tcl_cast<T>::from(static_cast<T>(clientData),
-                interp), interp, name1, name2, flags);
-        }
 
         template<typename T>
         static const char* tcl_traceSet(ClientData clientData,
@@ -243,15 +239,13 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto oldval(std::move(*static_cast<T*>(clientData)));
+          auto data = static_cast<const trace_ptr_data*>(clientData);
+          const auto oldval(std::move(*static_cast<T*>(data->ptr)));
 
-          *static_cast<T*>(clientData) =
+          *static_cast<T*>(data->ptr) =
             std::move(tcl_to_c_cast<T>::from(obj, nullptr));
-          const auto& link_var_hooks = fromInterp(interp)->link_var_hooks;
-          const auto link_var_hook = link_var_hooks.find(name1);
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)&oldval, (const void*)(clientData));
+          if (data->hook != nullptr)
+            data->hook((const void*)&oldval, (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -262,13 +256,11 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto& link_var_hooks = fromInterp(interp)->link_var_hooks;
-          const auto link_var_hook = link_var_hooks.find(name1);
           auto data = static_cast<const trace_ptr_data*>(clientData);
           /* Save oldval */
           typedef typename std::pointer_traits<T>::element_type T_name;
           std::unique_ptr<T_name[]> oldval;
-          if (link_var_hook != std::end(link_var_hooks)) {
+          if (data->hook != nullptr) {
             oldval = std::move(std::make_unique<T_name[]>(data->size));
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
@@ -278,9 +270,8 @@ class ScriptInterpTCL : public ScriptInterp {
           if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
               std::is_same<T, const char*>::value)
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)(oldval.get()), (const void*)(data->ptr));
+          if (data->hook != nullptr)
+            data->hook((const void*)(oldval.get()), (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -294,11 +285,6 @@ class ScriptInterpTCL : public ScriptInterp {
   protected:
         virtual int init();
         virtual int destroy();
-        std::unordered_map<String, link_var_hook_t> link_var_hooks;
-        /**
-         * @brief Find the object which created the given interp
-         */
-        static ScriptInterpTCL* fromInterp(Tcl_Interp* interp);
 
   public:
         ScriptInterpTCL() : ScriptInterp(), interp(nullptr), trace_ptrs() {
@@ -306,7 +292,6 @@ class ScriptInterpTCL : public ScriptInterp {
         }
         virtual ~ScriptInterpTCL() {
           CmdHandlerData.clear();
-          link_var_hooks.clear();
           trace_ptrs.clear();
           destroy();
         }
@@ -339,7 +324,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, &var, sizeof(var),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) tcl_traceSet<T>, hook_func);
         }
@@ -352,11 +337,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T* var, size_t size,
             link_var_hook_t hook_func = nullptr) {
-          auto data = std::make_unique<trace_ptr_data>(var, size);
-          setupTraces(varName, (ClientData) data.get(),
+          setupTraces(varName, var, size,
               (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
               (Tcl_VarTraceProc*) tcl_traceSetPtr<T*>, hook_func);
-          trace_ptrs[varName] = std::move(data);
         }
 
         /**
@@ -368,8 +351,8 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T* var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) var,
-              (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
+          setupTraces(varName, var, 0,
+              (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
 
@@ -382,7 +365,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, &var, sizeof(var),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
@@ -393,7 +376,6 @@ class ScriptInterpTCL : public ScriptInterp {
          */
         virtual void unlinkVar(const String& varName) {
           Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
-          link_var_hooks.erase(varName);
           trace_ptrs.erase(varName);
         }
 
-- 
2.43.0


From e7f37766064a13d432595cba1ba3900bd82e8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:54 +0000
Subject: [PATCH 35/51] fix: find() with a start position must work without
 memmem(3)

---
 src/String.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index f75a929..a5f8d3d 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -315,11 +315,11 @@ size_t String::_find(const String& str, size_t pos) const noexcept {
   return static_cast<const char*>(p) - constBuf(pos);
 #else
   if (mylen >= str.length()) {
-    const auto last_pos = mylen - str.length();
+    const auto last_pos = length() - str.length();
     for (auto i = pos; i <= last_pos; ++i)
       if (str[0] == (*this)[i] && !std::memcmp(cbegin() + i, str.cbegin(),
-            std::min(str.length(), mylen - i)))
-        return i;
+            str.length()))
+        return i - pos;
   }
   return npos;
 #endif
-- 
2.43.0


From e65bbd39331bea9161f0fa11b82653b2ae004fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:43 +0000
Subject: [PATCH 36/51] fix: Stream::loadFile reports failure for a directory
 instead of throwing

The size lseek(2) reports for a directory is not a file size; reserving it
before mapping threw std::bad_alloc and leaked the descriptor.
---
 src/Stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 4fc5427..7821b68 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -117,11 +117,12 @@ int Stream::loadFile(const int fd)
   /* Nothing to map */
   if (size == 0)
     return 0;
-  reserve(size);
   void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
   if (map == MAP_FAILED) {
     return 1;
   }
+  /* Only a mapped size is known to be real, a directory may report any */
+  reserve(size);
   loading = 1;
 
   puts(String(static_cast<const char*>(map), size));
-- 
2.43.0


From 3adb02fa56ed0cdc33f6452f7887db5de4fe2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:01 +0000
Subject: [PATCH 37/51] fix: Stream::loadFile without mmap reports read errors

Read errors ended the loop like an end of file and were reported as success;
a size ftell(3) could not determine was reserved.
---
 src/Stream.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 7821b68..74ab89e 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -139,11 +139,12 @@ int Stream::loadFile(const int fd)
     return 1;
   }
 
+  if (fseek(f, 0, SEEK_SET) != 0) {
+    fclose(f);
+    return 1;
+  }
+
   loading = 1;
-  fseek(f, 0, SEEK_END);
-  size_t size = ftell(f);
-  fseek(f, 0, SEEK_SET);
-  reserve(size);
 
   size_t len = 0;
   char buf[STREAM_BLOCKSIZE + 1];
@@ -151,6 +152,11 @@ int Stream::loadFile(const int fd)
   while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
     puts(String(buf, len));
   }
+  if (ferror(f)) {
+    fclose(f);
+    loading = 0;
+    return 1;
+  }
   fclose(f);
 #endif
   seek(0, SEEK_SET);
-- 
2.43.0


From 9085d9fce2e83ffc7e0c3752b9e8752bad695197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:39 +0000
Subject: [PATCH 38/51] fix: data race on the cached hash of elements of a
 shared array

---
 src/ReferenceCountedArray.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 3b004d8..24556aa 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -222,6 +222,24 @@ class ReferenceCountedArrayBase {
 };
 
 
+/**
+ * @class CachedHash
+ * @brief Cached hash() result. The elements of a shared buffer may be hashed from several threads.
+ */
+class CachedHash {
+  private:
+    std::atomic<size_t> value;
+  public:
+    CachedHash() noexcept : value(0) {};
+    CachedHash(const CachedHash& cached) noexcept : value(size_t(cached)) {};
+    CachedHash& operator=(const CachedHash& cached) noexcept { return *this = size_t(cached); }
+    CachedHash& operator=(const size_t newValue) noexcept {
+      value.store(newValue, std::memory_order_relaxed);
+      return *this;
+    }
+    operator size_t() const noexcept { return value.load(std::memory_order_relaxed); }
+};
+
 static constexpr double _rca_cow_scaling_factor = 1.5;
 
 template <class T, class Allocator = std::allocator<T> >
@@ -335,7 +353,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * Cache of current hash() result. 0 if stale
      */
-    mutable size_t my_hash = 0;
+    mutable CachedHash my_hash;
 
   private:
     /**
@@ -775,7 +793,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @note DJB's hash function
      */
     size_t hash() const noexcept {
-      if (my_hash != 0) return my_hash;
+      const size_t cached = my_hash;
+      if (cached != 0) return cached;
       std::hash<value_type> hasher;
       size_t _hash = 5381;
 
-- 
2.43.0


From 00ed3bfc476ca136f115b1f0d1bd3b11088b9a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:32 +0000
Subject: [PATCH 39/51] fix: script integers beyond the range of a long must
 not wrap around

---
 src/ScriptInterpTCL.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 596dc28..b53a844 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -192,9 +192,21 @@ const char* tcl_to_c_cast<const char*>::from(Tcl_Obj* obj, ScriptInterp* si) {
   return tcl_to_c_cast<char*>::from(obj, si);
 }
 
+/**
+ * @brief Tcl_GetLongFromObj() without the values that Tcl wraps around
+ */
+static int getLong(Tcl_Obj* obj, long& v) {
+  double sign = 0;
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &sign) != TCL_OK ||
+      (v < 0) != (sign < 0))
+    return TCL_ERROR;
+  return TCL_OK;
+}
+
 int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v) == TCL_OK) {
     if ((v < INT8_MIN || v > INT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -208,7 +220,7 @@ int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v) == TCL_OK) {
     if ((v < 0 || v > UINT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -222,7 +234,7 @@ uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v) == TCL_OK) {
     if ((v < INT16_MIN || v > INT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -236,7 +248,7 @@ int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v) == TCL_OK) {
     if ((v < 0 || v > UINT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -250,7 +262,7 @@ uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v) == TCL_OK) {
     if ((v < INT32_MIN || v > INT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -264,7 +276,7 @@ int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v) == TCL_OK) {
     if ((v < 0 || v > UINT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -278,7 +290,7 @@ uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  if (getLong(obj, v) != TCL_OK) {
     return 0;
     //return "Type Error";
   }
@@ -293,7 +305,7 @@ uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
     //return "Type Error";
   }
   /* Values above INT64_MAX come back wrapped around */
-  if (v < 0 && (Tcl_GetDoubleFromObj(0, obj, &sign) != TCL_OK || sign < 0)) {
+  if (Tcl_GetDoubleFromObj(0, obj, &sign) != TCL_OK || sign < 0) {
     //return "OverflowError";
     return 0;
   }
-- 
2.43.0


From 2b612f11f20c522ad0ae20abc6253adbd2b29ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 40/51] fix: reading a linked String must not stop at NUL

---
 src/ScriptInterpTCL.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index b53a844..9eae83c 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -126,8 +126,9 @@ const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
 const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
     char *name1, char *name2, int flags) {
   if (value) {
-    Tcl_SetVar2(interp,name1,name2,
-        tcl_to_c_cast<const char*>::from(value, nullptr), flags);
+    /* As an object, the value may contain NUL */
+    Tcl_IncrRefCount(value);
+    Tcl_SetVar2Ex(interp, name1, name2, value, flags);
     Tcl_DecrRefCount(value);
   }
   return nullptr;
-- 
2.43.0


From 9bcd3df0ac97273fe88c6c0bc024483c7f061483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:40 +0000
Subject: [PATCH 41/51] fix: writing a linked array element must store the
 value

---
 src/ScriptInterpTCL.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 9eae83c..28f6b1c 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -136,10 +136,7 @@ const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
 
 Tcl_Obj* ScriptInterpTCL::TraceSet(Tcl_Interp *interp, char *name1,
     char *name2, int flags) {
-  Tcl_Obj *name1o = c_to_tcl_cast<const char*>::from(name1, interp);
-  Tcl_Obj *value = Tcl_ObjGetVar2(interp, name1o, 0, flags);
-  Tcl_DecrRefCount(name1o);
-  return value;
+  return Tcl_GetVar2Ex(interp, name1, name2, flags);
 }
 
 Tcl_Obj* c_to_tcl_cast<const Array<String>&>::from(const Array<String>& array,
-- 
2.43.0


From 7846fc5139e3ff8ff0dd8ad5c9439ecf455461c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:48 +0000
Subject: [PATCH 42/51] fix: a command deleted or replaced by its own handler
 must not be callable

---
 src/ScriptInterpTCL.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index a567a19..a3418a3 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -193,6 +193,7 @@ class ScriptInterpTCL : public ScriptInterp {
           auto ccd = std::make_shared<ScriptCmdTCL>(this, cmdName,
               std::move(callback_proxy), usage, callbackParamMin,
               callbackParamMax);
+          deleteCommand(cmdName);
           CmdHandlerData[cmdName] = ccd;
           ccd->registerCmd();
         }
@@ -311,7 +312,13 @@ class ScriptInterpTCL : public ScriptInterp {
         }
 
         virtual void deleteCommand(const String& cmdName) {
-          CmdHandlerData.erase(cmdName);
+          auto it = CmdHandlerData.find(cmdName);
+          if (it == CmdHandlerData.end())
+            return;
+          /* It may be running, and must not be callable until it is done. */
+          const ScriptCmdPtr ccd = std::move(it->second);
+          CmdHandlerData.erase(it);
+          ccd->unregisterCmd();
         }
 
         /* Variable linking */
-- 
2.43.0


From 0f39b3850762eb1a701747775967761b0f937c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:27 +0000
Subject: [PATCH 43/51] fix: slice() of a container longer than 2GiB selects
 the requested range

---
 src/ReferenceCountedArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 24556aa..36f48ce 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -971,7 +971,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void slice(ssize_t start, ssize_t len = -1) noexcept {
       // Start is after the end, set us to an empty array
-      if (start >= static_cast<signed>(length())) {
+      if (start >= static_cast<ssize_t>(length())) {
         offset = length();
         setLength(0);
         return;
-- 
2.43.0


From 2c690f4ad47469ef6af84901309c2cdb6b84aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:27 +0000
Subject: [PATCH 44/51] fix: String::compare() orders by length when the
 lengths differ by more than INT_MAX

---
 src/String.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index a5f8d3d..e633535 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -52,7 +52,7 @@ int String::compare(const String& str) const noexcept
   if (diff)
     return diff;
   else
-    return mylen - slen;
+    return (mylen > slen) - (mylen < slen);
 }
 
 int String::compare(const String& str, size_t n) const noexcept
@@ -69,10 +69,8 @@ int String::compare(const String& str, size_t n) const noexcept
   const auto diff = std::memcmp(cbegin(), str.cbegin(), len);
   if (diff)
     return diff;
-  else if (n)
-    return std::min(mylen, n) - slen;
-  else
-    return mylen - slen;
+  const auto cmplen = std::min(mylen, n);
+  return (cmplen > slen) - (cmplen < slen);
 }
 
 int String::compare(const char* str) const noexcept
-- 
2.43.0


From dbd1531b40593deef4bfe2fbbeb5e17ab2f0990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:27 +0000
Subject: [PATCH 45/51] fix: Array += and -= of a count on an Array of more
 than INT_MAX elements

---
 src/Array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index b98dc4d..1ca08f8 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -329,7 +329,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator+=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (n > 0 && size_t(n) > this->length()) {
         this->offset = this->length();
         this->setLength(0);
       } else {
@@ -342,7 +342,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator-=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (n > 0 && size_t(n) > this->length()) {
         this->offset = this->length();
         this->setLength(0);
       } else
-- 
2.43.0


From 180e71e4bb45be059ffaaec8b59dc3161ab8f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:32 +0000
Subject: [PATCH 46/51] fix: shift() and pop() on a temporary that shares its
 elements took them from the other arrays

---
 src/Array.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 1ca08f8..2d94a72 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -115,10 +115,12 @@ class Array : public ReferenceCountedArray<T> {
       return temp;
     }
 
-    inline value_type shift() && noexcept {
+    inline value_type shift() && {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(0)));
+      pointer item{this->Buf(0)};
+
+      /* A temporary may still share its elements, ie subarray().shift() */
+      return this->isShared() ? *item : std::move(*item);
     }
 
     /**
@@ -134,10 +136,11 @@ class Array : public ReferenceCountedArray<T> {
       return temp;
     }
 
-    inline value_type pop() && noexcept {
+    inline value_type pop() && {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(this->back());
+      pointer item{this->Buf(this->length() - 1)};
+
+      return this->isShared() ? *item : std::move(*item);
     }
 
     /**
-- 
2.43.0


From f09c5dabde0cc7b88076aac8cdec8c186e67a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:38 +0000
Subject: [PATCH 47/51] fix: debug builds aborted when writing a temporary that
 shares its text to a stream

---
 src/String.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index de1a5c3..84509c3 100755
--- a/src/String.h
+++ b/src/String.h
@@ -608,7 +608,6 @@ inline std::ostream& operator<<(std::ostream& os, const String& string) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, String&& string) {
-  assert(!string.isShared());
   for (const char* c = string.cbegin(); c != string.cend(); ++c)
     os << std::move(*c);
   return os;
-- 
2.43.0


From cba920324803f704bb76d50fc43673ec8193b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:38 +0000
Subject: [PATCH 48/51] fix: debug builds asserted in split() on a reference
 count that other threads may change

---
 src/String.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index e633535..face707 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -217,9 +217,6 @@ Array<String> String::split(const String& delim, size_t limit) const {
     return Array<String>({*this});
   }
 
-#ifndef NDEBUG
-  auto ref = rcount();
-#endif
   const String space(' ');
   Array<String> array;
   auto it = cbegin();
@@ -236,7 +233,6 @@ Array<String> String::split(const String& delim, size_t limit) const {
     if ((pos = _find(delim, it - cbegin())) == npos)
       pos = cend() - it;
     array << (*this)(it - cbegin(), pos);
-    assert(++ref);
     it += pos + delim.length();
     assert(it - delim.length() <= cend());
   }
@@ -246,13 +242,7 @@ Array<String> String::split(const String& delim, size_t limit) const {
     // Trim out left whitespace
     if (delim == space) while (it < cend() && *it == ' ') ++it;
     array << (*this)(it - cbegin());
-    assert(++ref);
   }
-  /*
-   * Our String should not be modified.
-   * We should only be returning reference slices.
-   */
-  assert(ref == rcount());
 
   return array;
 }
-- 
2.43.0


From 4c9f369631d028f1a350eba3a1badf272de8ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:29 +0000
Subject: [PATCH 49/51] fix: inserting a single pass range lost all of its
 elements

Measuring the range with std::distance() consumed it before anything was
inserted. Only measure ranges that can be traversed again.
---
 src/ReferenceCountedArray.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 36f48ce..9e38da0 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -269,6 +269,25 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       typename std::iterator_traits<InputIt>::iterator_category,
       std::input_iterator_tag>;
 
+    /**
+     * @brief How many elements a range has, or 0 if it could only be counted by consuming it.
+     */
+    template <typename InputIt>
+    static inline size_t rangeLength(InputIt, InputIt,
+        std::input_iterator_tag) noexcept {
+      return 0;
+    }
+    template <typename ForwardIt>
+    static inline size_t rangeLength(ForwardIt first, ForwardIt last,
+        std::forward_iterator_tag) {
+      return std::distance(first, last);
+    }
+    template <typename InputIt>
+    static inline size_t rangeLength(InputIt first, InputIt last) {
+      return rangeLength(first, last,
+          typename std::iterator_traits<InputIt>::iterator_category());
+    }
+
     /**
      * @brief Detach from the shared reference.
      * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
@@ -582,7 +601,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         is_input_iterator<InputIt>::value,
         InputIt
         >::type last) :
-      ReferenceCountedArray(std::distance(first, last)) {
+      ReferenceCountedArray(rangeLength(first, last)) {
       insert(cbegin(), first, last);
     }
 
@@ -1069,7 +1088,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     insert(const_iterator pos, InputIt first, InputIt last) {
       auto index = pos - cbegin();
       const auto rindex = index;
-      AboutToModify(length() + std::distance(first, last));
+      AboutToModify(length() + rangeLength(first, last));
       while (first != last)
         insert(std::next(begin(), index++), *first++);
       return std::next(begin(), rindex);
-- 
2.43.0


From d81a32259b1312cad5d606cdab6dae818dcb9487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:18 +0000
Subject: [PATCH 50/51] fix: reading the last word or line of an input stream
 reports success

operator>> and getline left failbit set when the word or line was ended
by the end of the stream, so the usual read loops dropped it.
---
 src/String.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index face707..838fe91 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -190,6 +190,9 @@ std::istream& operator>>(std::istream& is, String& string) {
     {
       is.putback(ch);
     }
+    /* A word ended by the end of the stream was still read */
+    if (is.eof())
+      is.clear(is.rdstate() & ~std::ios_base::failbit);
   }
   return is;
 }
@@ -201,6 +204,9 @@ std::istream& getline(std::istream& is, String& string) {
  
   while (is.get(ch) && ch != '\n')
     string += ch;
+  /* A last line without a newline was still read */
+  if (is.eof() && string.length())
+    is.clear(is.rdstate() & ~std::ios_base::failbit);
   
   return is;
 }
-- 
2.43.0


From 932e3e7875bbb201839693da74d9d20a8787381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:45 +0000
Subject: [PATCH 51/51] fix: constructing an Array from a zero-terminated array
 did not compile

---
 src/Array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2d94a72..b8f7c6a 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -74,8 +74,8 @@ class Array : public ReferenceCountedArray<T> {
       if (carray == nullptr || *carray == '\0')
         return;
       while (*carray != '\0') {
-        reserve(ReferenceCountedArray<T>::sublen + 1, 4);
-        *(Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
+        this->reserve(ReferenceCountedArray<T>::sublen + 1, 4);
+        *(this->Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
       }
     };
 
-- 
2.43.0

