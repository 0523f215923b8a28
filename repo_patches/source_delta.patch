From 5c4b50acbdab3bd6088ed01c30a80666a81843dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 01/15] fix: keep the hash chain linked when erase moves the
 last node

UnorderedMap::erase moves the last node into the erased slot but left the
prev index of that node's successor pointing at the old slot, so a later
erase of the successor walked a stale or out-of-range index.
---
 include/coil/detail/UnorderedMap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index fa8a9c5..de984f0 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -208,6 +208,12 @@ namespace coil
                     m_buckets[lastNode.bucket] = nodeIndex;
                 }
 
+                if (lastNode.next != invalidIndex)
+                {
+                    COIL_ASSERT(lastNode.next < m_nodes.size());
+                    m_nodes[lastNode.next].prev = nodeIndex;
+                }
+
                 coil::exchange(erasedNode, lastNode);
             }
 
-- 
2.43.0


From 3d5afa6c7b6020e8fe794f9b3cd56b330acc9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 02/15] fix: never rehash a map to zero buckets

With a maximum load factor below one the first insertion rehashed to
size() * 2 == 0 buckets and then divided by zero; so did a map created
with zero buckets.
---
 include/coil/detail/UnorderedMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index de984f0..5081b20 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -304,6 +304,9 @@ namespace coil
 
         void rehash(size_t buckets)
         {
+            if (buckets == 0)
+                buckets = 1;
+
             m_buckets.resize(buckets);
             resetBuckets();
 
-- 
2.43.0


From 3f70e0a19d544d8d17ff9f6a728c3d25c438008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 03/15] fix: don't strip a lone quote character in a group
 twice

A group element consisting of a single quote character (e.g. "f (\")") was
treated as its own opening and closing quote, which produced a view of
length SIZE_MAX.
---
 src/DefaultLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index e8efbaf..eb656c8 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -111,7 +111,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
         }
 
         size_t stringEnd = i;
-        if (isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
+        if (stringEnd - stringBegin >= 2 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
         {
             stringBegin++;
             stringEnd--;
-- 
2.43.0


From 22d0ec22462a13cce9dc56e33d80de2e84c11299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 04/15] fix: let the lexer recognise configured characters
 above 0x7f

The character under test was an unsigned char and the configured ones plain
chars, so where char is signed they never compared equal.
---
 src/DefaultLexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index eb656c8..a7faa44 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -53,12 +53,12 @@ coil::Expected<coil::ExecutionInput, coil::String> coil::DefaultLexer::parse(Str
 
 bool coil::DefaultLexer::isGroupChar(unsigned char c) const
 {
-    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), c) != m_groupParentheses.end();
+    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), static_cast<char>(c)) != m_groupParentheses.end();
 }
 
 bool coil::DefaultLexer::isQuote(unsigned char c) const
 {
-    return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();
+    return coil::find(m_quotes.begin(), m_quotes.end(), static_cast<char>(c)) != m_quotes.end();
 }
 
 bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
@@ -66,12 +66,12 @@ bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
     if (isSpace(c))
         return true;
 
-    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), c) != m_groupSeparators.end();
+    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), static_cast<char>(c)) != m_groupSeparators.end();
 }
 
 bool coil::DefaultLexer::isSpace(unsigned char c) const
 {
-    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();
+    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), static_cast<char>(c)) != m_spaceCharacters.end();
 }
 
 coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(unsigned char c) const
-- 
2.43.0


From 22aba19051bf447048641803ea0a3a1c6a058924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 05/15] fix: reject negative values with leading whitespace for
 unsigned types

Only the first character was checked for a minus sign, but strtoul skips
whitespace before the sign, so " -1" was accepted and wrapped around.
---
 src/StringConv.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StringConv.cpp b/src/StringConv.cpp
index 6a0e214..ab9097c 100644
--- a/src/StringConv.cpp
+++ b/src/StringConv.cpp
@@ -49,8 +49,10 @@ namespace
         if (str.empty())
             return false;
 
-        if (str[0] == '-')
-            return false;
+        // strtoX functions accept a sign after the leading whitespace and negate the result
+        for (char c : str)
+            if (c == '-')
+                return false;
 
         coil::String strCopy = coil::String{str}; // make a C-string to avoid reimplementing strtoX functions
 
-- 
2.43.0


From dab461d5cda12dfa4a2bb5979dde4f84a3847082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 06/15] fix: allow appending a string (or a view of it) to
 itself

append() resized the buffer first and then copied from the freed one.
---
 src/String.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index b6da60a..5982fa6 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -101,7 +101,15 @@ void coil::String::append(char const* str, size_t length)
     validateIsNullTerminated();
 
     size_t oldSize = this->length();
+
+    // str may point into this string, and resizing may move the buffer
+    char const* oldData = m_buffer.data();
+    bool const isAliased = oldData && str >= oldData && str <= oldData + oldSize;
+    size_t const offset = isAliased ? static_cast<size_t>(str - oldData) : 0;
+
     resize(oldSize + length);
+    if (isAliased)
+        str = m_buffer.data() + offset;
     memcpy(m_buffer.data() + oldSize, str, length);
 
     validateIsNullTerminated();
-- 
2.43.0


From cb1011f660b5ad5ea295a830e73de636544f8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 07/15] fix: serialize a null char const* as "null"

A command returning a null C string crashed in strlen; every other null
pointer is already serialized as "null".
---
 src/Coil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index d8c2846..162bf2d 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -589,6 +589,9 @@ namespace coil
 
     String coil::TypeSerializer<char const*>::toString(char const* const& value)
     {
+        if (!value)
+            return "null";
+
         return String{value};
     }
 
-- 
2.43.0


From bfd7663b1d515d521ab33cb89aaef0a5d6ec0c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 08/15] fix: accept a default-constructed std::string_view

Its data pointer is null, which coil strings and views don't allow.
---
 include/coil/StdLibCompat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index 6490fd2..d7e6da5 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -198,10 +198,16 @@ inline std::string_view coil::toStdStringView(StringView str)
 
 inline coil::String coil::fromStdString(std::string_view str)
 {
+    if (str.empty())
+        return {};
+
     return {str.data(), str.length()};
 }
 
 inline coil::StringView coil::fromStdStringView(std::string_view str)
 {
+    if (str.empty())
+        return {};
+
     return {str.data(), str.length()};
 }
-- 
2.43.0


From 0b527f8c1a2cae79f81b7a4566cd06433f82ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 09/15] fix: convert all the subvalues of a std::optional
 argument

Only the first subvalue was converted and the rest were silently dropped, so
"(1 2)" was accepted as an optional<int> and optional<vector<T>> lost data.
---
 include/coil/StdLibCompat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index d7e6da5..c7b126e 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -95,10 +95,10 @@ namespace coil
     {
         static Expected<std::optional<T>, String> fromString(Value const& input)
         {
-            if (input.subvalues.empty() || input.subvalues[0].empty())
+            if (input.subvalues.empty() || (input.subvalues.size() == 1 && input.subvalues[0].empty()))
                 return std::optional<T>{};
 
-            auto innerValue = TypeSerializer<T>::fromString(input.subvalues[0]);
+            auto innerValue = TypeSerializer<T>::fromString(input);
             if (innerValue)
                 return std::optional<T>{coil::move(innerValue).value()};
 
-- 
2.43.0


From d639d2e085b515b6adfa57b8102cef1244ccf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 10/15] fix: keep a vector's elements alive while they are
 converted

---
 include/coil/StdLibCompat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index c7b126e..80b76ef 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -50,7 +50,8 @@ namespace coil
 
             for (StringView subvalue : input.subvalues)
             {
-                auto expectedArg = TypeSerializer<T>::fromString(subvalue);
+                Value const element{subvalue}; // the serializer may return a reference to its input
+                auto expectedArg = TypeSerializer<T>::fromString(element);
                 if (!expectedArg)
                     return errors::createGenericError<std::vector<T>>(input, coil::move(expectedArg).error());
                 result.push_back(*coil::move(expectedArg));
-- 
2.43.0


From 31c1ff2b3c5e7921b09a5dad5c7d31a205ba6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 11/15] fix: release the new elements when growing a vector
 throws

---
 include/coil/detail/Vector.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/coil/detail/Vector.h b/include/coil/detail/Vector.h
index 4debe69..cbcb9cd 100644
--- a/include/coil/detail/Vector.h
+++ b/include/coil/detail/Vector.h
@@ -262,17 +262,14 @@ bool coil::Vector<T>::operator==(Vector const& rhs) const
 template<typename T>
 void coil::Vector<T>::grow(size_t newCapacity)
 {
-    Buffer buffer{newCapacity, sizeof(T)};
+    Vector temp(newCapacity); // destroys the new elements if moving any of them throws
 
     for (size_t i = 0; i < m_buffer.size(); i++)
-        buffer.constructNext<T>(coil::move(*m_buffer.get<T>(i)));
+        temp.m_buffer.constructNext<T>(coil::move(*m_buffer.get<T>(i)));
 
-    COIL_ASSERT(m_buffer.size() == buffer.size());
+    COIL_ASSERT(m_buffer.size() == temp.m_buffer.size());
 
-    while (m_buffer.size() > 0)
-        m_buffer.destructLast<T>();
-
-    m_buffer = coil::move(buffer);
+    *this = coil::move(temp); // the old elements are destroyed together with temp
 
     COIL_ASSERT(m_buffer.capacity() == newCapacity);
 }
-- 
2.43.0


From 8b3504147a1facf42aef618d551e61408eb812a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 12/15] fix: don't corrupt a map when copying the nodes throws
 during assignment

---
 include/coil/detail/UnorderedMap.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index 5081b20..c92ebe6 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -120,6 +120,16 @@ namespace coil
             rehash(bucketsCount);
         }
 
+        UnorderedMap(UnorderedMap const& rhs) = default;
+        UnorderedMap(UnorderedMap&& rhs) = default;
+
+        UnorderedMap& operator=(UnorderedMap const& rhs)
+        {
+            UnorderedMap temp{rhs};
+            return (*this = coil::move(temp));
+        }
+        UnorderedMap& operator=(UnorderedMap&& rhs) = default;
+
         ConstIterator begin() const
         {
             return {m_nodes.begin()};
-- 
2.43.0


From fc6e76fd9512e4f473aec48e2ef55355d274a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 13/15] fix: include <stdint.h> for the integer alias names

---
 src/Coil.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 162bf2d..311f8f0 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -14,6 +14,7 @@
 
 #include <ctype.h>
 #include <stdarg.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #if COIL_CONFIG_CATCH_EXCEPTIONS
-- 
2.43.0


From a40a04dd4184ffc8462978dc278356bbf39fda72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 14/15] fix: compile with clang (nullptr_t is in std, dependent
 member template)

---
 include/coil/detail/Bindings.h | 2 +-
 include/coil/detail/Vector.h   | 2 +-
 src/Coil.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/coil/detail/Bindings.h b/include/coil/detail/Bindings.h
index fa62890..4cae4df 100644
--- a/include/coil/detail/Bindings.h
+++ b/include/coil/detail/Bindings.h
@@ -75,7 +75,7 @@ namespace coil
         }
         BindingProxy& operator=(AnyFunctor anyFunctor);
         BindingProxy& operator=(Vector<AnyFunctor> anyFunctors);
-        BindingProxy& operator=(nullptr_t);
+        BindingProxy& operator=(decltype(nullptr));
 
     private:
         Bindings& m_bindings;
diff --git a/include/coil/detail/Vector.h b/include/coil/detail/Vector.h
index cbcb9cd..e75b1c4 100644
--- a/include/coil/detail/Vector.h
+++ b/include/coil/detail/Vector.h
@@ -265,7 +265,7 @@ void coil::Vector<T>::grow(size_t newCapacity)
     Vector temp(newCapacity); // destroys the new elements if moving any of them throws
 
     for (size_t i = 0; i < m_buffer.size(); i++)
-        temp.m_buffer.constructNext<T>(coil::move(*m_buffer.get<T>(i)));
+        temp.m_buffer.template constructNext<T>(coil::move(*m_buffer.get<T>(i)));
 
     COIL_ASSERT(m_buffer.size() == temp.m_buffer.size());
 
diff --git a/src/Coil.cpp b/src/Coil.cpp
index 311f8f0..47e512d 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -328,7 +328,7 @@ namespace coil
         m_bindings.add(m_name, coil::move(anyFunctors));
         return *this;
     }
-    BindingProxy& BindingProxy::operator=(nullptr_t)
+    BindingProxy& BindingProxy::operator=(decltype(nullptr))
     {
         m_bindings.remove(m_name);
         return *this;
-- 
2.43.0


From ad78f3aad457c9c0e8ab4104b9c2f54c2ff45831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 15/15] fix: text that vsnprintf cannot produce made sprintf
 write outside its buffer

vsnprintf returns a negative number for e.g. a wide character without a
multibyte representation; it was taken for a size of SIZE_MAX.
---
 src/Coil.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 47e512d..8fc6ec6 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -611,11 +611,14 @@ namespace coil
     {
         va_list args2;
         va_copy(args2, args);
-        size_t stringSize = static_cast<size_t>(vsnprintf(nullptr, 0, format, args2));
+        int const stringSize = vsnprintf(nullptr, 0, format, args2);
         va_end(args2);
 
         String str;
-        str.resize(stringSize);
+        if (stringSize < 0) // e.g. a wide character without a multibyte representation
+            return str;
+
+        str.resize(static_cast<size_t>(stringSize));
 
         [[maybe_unused]] int result = vsnprintf(str.data(), str.length() + 1, format, args);
 
-- 
2.43.0

