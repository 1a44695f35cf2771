From 33951ec49c59d7943528b3aff1475695929912ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 001/205] fix: keep fm::string NULL-terminated when built from
 zero characters

---
 FCollada/FUtils/FUString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index ed0bb4a..66cbc2a 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -68,7 +68,7 @@ namespace fm
 				Use stringT::npos for copying full NULL-terminated strings. */
 		stringT(const CH* c, size_t length) : Parent()
 		{
-			if (c == NULL || length == 0) return;
+			if (c == NULL || length == 0) { Parent::push_back((CH) 0); return; }
 
 			if (length != npos)
 			{
-- 
2.43.0


From 3920ce1e0a8f8a4e3150d4999bf7b61fca929505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 002/205] fix: make find_first_of and find_last_of independent
 of the candidate list's length

---
 FCollada/FUtils/FUString.h | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index 66cbc2a..87c8d1d 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -367,7 +367,7 @@ namespace fm
 		size_t find_first_of(const CH* c, size_t offset=0) const
 		{
 			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			if (length > 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -386,22 +386,11 @@ namespace fm
 				If 'npos' is returned, none of the possible characters were found within the (sub)string. */
 		size_t find_last_of(const CH* c, size_t offset=0) const
 		{
-			size_t ret = length() - offset; // UNOPTIMIZE. Didn't feel like this is an important-enough function.
-			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			for (size_t ret = length() - min(offset, length()); ret > 0; --ret)
 			{
-				const CH* end = Parent::end() - (length + offset);
-				const CH* begin = Parent::begin();
-				for (const CH* it = end; it >= begin; --it)
-				{
-					d = c;
-					while (*d != 0)
-					{
-						if (*d == *it) return ret;
-						++d;
-					}
-					--ret;
-				}
+				const CH* d = c;
+				while (*d != 0 && *d != Parent::at(ret - 1)) { ++d; }
+				if (*d != 0) return ret - 1;
 			}
 			return npos;
 		}
-- 
2.43.0


From 6ee371e67e6ea2bf591e1fcc0c5fd085780bf944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 003/205] fix: destroy the old elements when fm::vector
 reallocates

---
 FCollada/FMath/FMArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 41c8859..9f7af13 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -337,6 +337,7 @@ namespace fm
 							for(size_t i = 0; i < sized; ++i)
 							{
 								fm::Construct(newValues + i, *(heapBuffer + i));
+								(*(heapBuffer + i)).~T();
 							}
 						}
 					}
-- 
2.43.0


From 765a92efcc2b372ce99a30f32073f596ca32fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 004/205] fix: clone the nodes when an fm::tree is
 copy-constructed, and survive self-assignment

---
 FCollada/FMath/FMTree.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FMath/FMTree.h b/FCollada/FMath/FMTree.h
index b55dbeb..d6f16b9 100644
--- a/FCollada/FMath/FMTree.h
+++ b/FCollada/FMath/FMTree.h
@@ -368,6 +368,15 @@ namespace fm
 			fm::Construct(root);
 		}
 
+		/** Copy constructor. Clones another tree into this one.
+			@param copy The tree to clone. */
+		tree(const tree<KEY,DATA>& copy) : root(NULL), sized(0)
+		{
+			root = (node*) fm::Allocate(sizeof(node));
+			fm::Construct(root);
+			operator=(copy);
+		}
+
 		/** Destructor. */
 		~tree()
 		{
@@ -623,6 +632,7 @@ namespace fm
 			@return This tree, cloned. */
 		inline tree<KEY,DATA>& operator= (const tree<KEY,DATA>& copy)
 		{
+			if (this == &copy) return *this;
 			clear();
 
 			// Function based on the iterator..
-- 
2.43.0


From f9dcc4cfd780a32e41673bad38321151c6c96180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 005/205] fix: parse INF as infinity and never read past the
 end of the text in ToFloat

---
 FCollada/FUtils/FUStringConversion.hpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 576bec5..b465b81 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -97,20 +97,8 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	float out = 0.0f;
 	if (infinity) // test for infinity
 	{
-		infinity = false;
-		c = *(s++);
-		if (c != 'I') infinity = false;
-		else
-		{
-			c = *(s++);
-			if (c != 'N') infinity = false;
-			else
-			{
-				c = *(s++);
-				if (c != 'F') infinity = false;
-				else out = std::numeric_limits<float>::infinity() * ((float) sign);
-			}
-		}
+		if (s[0] == 'I' && s[1] == 'N' && s[2] == 'F') out = std::numeric_limits<float>::infinity() * sign;
+		else infinity = false;
 	}
 	if (!infinity)
 	{
-- 
2.43.0


From f198ad016cf8aab7a6399394505a1fafb05c07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 006/205] fix: accept explicit plus signs, long fractions and
 the full exponent range when parsing numbers

---
 FCollada/FUtils/FUStringConversion.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index b465b81..df3d5bb 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -35,9 +35,10 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 	CH c;
 	while ((c = *s) != 0 && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) { ++s; }
 
-	int32 val = 0;
-	int32 sign = 1;
-	if (*s == '-') { ++s; sign = -1; }
+	uint32 val = 0;
+	bool negative = false;
+	if (*s == '-') { ++s; negative = true; }
+	else if (*s == '+') ++s;
 
 	while ((c = *s) != 0)
 	{
@@ -45,11 +46,11 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 		else break;
 		++s;
 	}
-	val *= sign;
+	if (negative) val = 0 - val;
 	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
 	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
 	*value = s;
-	return val;
+	return (int32) val;
 }
 
 // Convert a fstring to a float and advance the character pointer
@@ -67,7 +68,8 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	double val = 0.0;
 	float sign = 1.0;
 	if (*s == '-') { ++s; sign = -1.0; }
-	float decimals = 0.0;
+	else if (*s == '+') ++s;
+	double decimals = 0.0;
 	int32 exponent = 0;
 	bool infinity = false;
 	bool nonValidFound = false;
@@ -105,7 +107,7 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 		// Generate the value
 		if (decimals == 0.0) decimals = 1.0;
 		out = (float) (val * sign / decimals);
-		if (exponent != 0) out *= powf(10.0f, (float) exponent);
+		if (exponent != 0 && val != 0.0) out = (float) (val * sign / decimals * pow(10.0, (double) exponent));
 	}
 
 	// Find next whitespaces and Skip end whitespaces
@@ -128,6 +130,7 @@ FCOLLADA_EXPORT uint32 FUStringConversion::ToUInt32(const CH** value)
 	while ((c = *s) != 0 && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) { ++s; }
 
 	uint32 val = 0;
+	if (*s == '+') ++s;
 	while ((c = *s) != 0)
 	{
 		if (c >= '0' && c <= '9') val = val * 10 + c - '0';
-- 
2.43.0


From d33da6cb76762d848325cfe884413369f705edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 007/205] fix: treat carriage returns as separators after
 integers

---
 FCollada/FUtils/FUStringConversion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index df3d5bb..c2a589c 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -47,8 +47,8 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 		++s;
 	}
 	if (negative) val = 0 - val;
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
 	return (int32) val;
 }
@@ -138,8 +138,8 @@ FCOLLADA_EXPORT uint32 FUStringConversion::ToUInt32(const CH** value)
 		++s;
 	}
 
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
 	return val;
 }
-- 
2.43.0


From aeee03a1e699393d482eeaaa567eb983efd87018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 008/205] fix: search exactly the content of the string builder
 in index and rindex

---
 FCollada/FUtils/FUStringBuilder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index 2a21779..f6933e4 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -339,7 +339,7 @@ int32 FUStringBuilderT<Char>::index(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		const Char* end = buffer + size + 1;
+		const Char* end = buffer + size;
 		for (const Char* p = buffer; p != end; ++p)
 		{
 			if (*p == c) return (int32)(p - buffer);
@@ -353,9 +353,9 @@ int32 FUStringBuilderT<Char>::rindex(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		for (const Char* p = buffer + size - 1; p != buffer; --p)
+		for (const Char* p = buffer + size; p != buffer; --p)
 		{
-			if (*p == c) return (int32)(p - buffer);
+			if (*(p - 1) == c) return (int32)(p - 1 - buffer);
 		}
 	}
 	return -1;
-- 
2.43.0


From 17b93ac59be533e8d364096fd304cade1c54f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 009/205] fix: append all 64 bits of an unsigned integer to the
 string builder

---
 FCollada/FUtils/FUStringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.cpp b/FCollada/FUtils/FUStringBuilder.cpp
index 8904f5e..b677004 100644
--- a/FCollada/FUtils/FUStringBuilder.cpp
+++ b/FCollada/FUtils/FUStringBuilder.cpp
@@ -41,7 +41,7 @@ template<> void FUStringBuilder::append(uint32 i)
 template<> void FUStringBuilder::append(uint64 i)
 {
 	fchar sz[128];
-	fsnprintf(sz, 128, FC("%u"), (unsigned int) i);
+	fsnprintf(sz, 128, FC("%llu"), (unsigned long long) i);
 	append(sz);
 }
 
@@ -68,7 +68,7 @@ template<> void FUSStringBuilder::append(uint32 i)
 template<> void FUSStringBuilder::append(uint64 i)
 {
 	char sz[128];
-	snprintf(sz, 128, "%u", (unsigned int) i);
+	snprintf(sz, 128, "%llu", (unsigned long long) i);
 	append(sz);
 }
 
-- 
2.43.0


From deea9c0dd32b3aa153abd34c01a91b7fd9c6e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 010/205] fix: replace, rather than extend, the previous
 strings in ToStringList

---
 FCollada/FUtils/FUStringConversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.cpp b/FCollada/FUtils/FUStringConversion.cpp
index 0613f0e..64bcb4a 100644
--- a/FCollada/FUtils/FUStringConversion.cpp
+++ b/FCollada/FUtils/FUStringConversion.cpp
@@ -117,7 +117,7 @@ void FUStringConversion::ToFStringList(const fstring& value, FStringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fstring(word, s - word);
 		else { array.push_back(fstring(word, s - word)); ++index; }
 
 		// Skip all white spaces
@@ -140,7 +140,7 @@ void FUStringConversion::ToStringList(const char* s, StringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fm::string(word, s - word);
 		else { array.push_back(fm::string(word, s - word)); ++index; }
 
 		// Skip all white spaces
-- 
2.43.0


From 6308b60eb2723cdfdc35dd0381aef4816f559b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 011/205] fix: read no value from a list of white spaces and
 count values that start with a non-ASCII character

---
 FCollada/FUtils/FUStringConversion.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index c2a589c..2468bf0 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -17,6 +17,14 @@
 #define SPACE builder.append((CH) ' ')
 #define VAL(x) builder.append(x)
 
+// Skip the white spaces that precede the first value of a list
+template <class CH>
+static inline const CH* SkipWhiteSpaces(const CH* s)
+{
+	while (s != NULL && (*s == ' ' || *s == '\t' || *s == '\r' || *s == '\n')) ++s;
+	return s;
+}
+
 // Convert a fstring to a boolean value
 template<class CH>
 FCOLLADA_EXPORT bool FUStringConversion::ToBoolean(const CH* value)
@@ -275,7 +283,7 @@ template <class CH>
 FCOLLADA_EXPORT size_t FUStringConversion::CountValues(const CH* sz)
 {
 	size_t count = 0;
-	if (sz != NULL && *sz > 0)
+	if (sz != NULL && *sz != 0)
 	{
 		while (*sz != 0)
 		{
@@ -321,6 +329,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToInt32List(const CH* value, Int32List& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -340,6 +349,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToUInt32List(const CH* value, UInt32List& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -359,6 +369,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToFloatList(const CH* value, FloatList& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -379,6 +390,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 {
 	size_t stride = arrays.size();
 	size_t validCount = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
 		size_t length = arrays[0]->size();
@@ -428,6 +440,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 {
 	size_t stride = arrays.size();
 	size_t validCount = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
 		size_t length = arrays[0]->size();
@@ -477,6 +490,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToMatrixList(const CH* value, FMMatrix44List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -499,6 +513,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector2List(const CH* value, FMVector2List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -516,6 +531,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector3List(const CH* value, FMVector3List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -533,6 +549,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector4List(const CH* value, FMVector4List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
-- 
2.43.0


From 90f1e86ba46471d6d1b8da5a2b45e1ab40b084df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 012/205] fix: skip missing arrays and incomplete tuples when
 parsing interleaved lists

---
 FCollada/FUtils/FUStringConversion.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 2468bf0..5e4ce90 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -393,15 +393,18 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		size_t length = 0;
+		for (size_t i = 0; i < stride && length == 0; ++i) length = (arrays[i] != NULL) ? arrays[i]->size() : 0;
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
-			for (size_t i = 0; i < stride && *value != 0; ++i)
+			size_t i = 0;
+			for (; i < stride && *value != 0; ++i)
 			{
 				FloatList* array = arrays[i];
 				if (array != NULL) array->at(count) = ToFloat(&value);
 				else ToFloat(&value);
 			}
+			if (i < stride) break; // An incomplete tuple is not valid.
 		}
 
 		if (*value != 0)
@@ -443,15 +446,18 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		size_t length = 0;
+		for (size_t i = 0; i < stride && length == 0; ++i) length = (arrays[i] != NULL) ? arrays[i]->size() : 0;
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
-			for (size_t i = 0; i < stride && *value != 0; ++i)
+			size_t i = 0;
+			for (; i < stride && *value != 0; ++i)
 			{
 				UInt32List* array = arrays[i];
 				if (array != NULL) array->at(count) = ToUInt32(&value);
 				else ToUInt32(&value);
 			}
+			if (i < stride) break; // An incomplete tuple is not valid.
 		}
 
 		if (*value != 0)
-- 
2.43.0


From fe76fba044087e9add472a725dffe9f03f585685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 013/205] fix: keep a missing exponent from swallowing the next
 value of a float list

---
 FCollada/FUtils/FUStringConversion.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 5e4ce90..2e7d7ab 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -97,7 +97,10 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 		case '8': val = val * 10.0 + 8.0; decimals *= 10.0; break;
 		case '9': val = val * 10.0 + 9.0; decimals *= 10.0; break;
 		case 'e':
-		case 'E': ++s; exponent = ToInt32(&s); s -= 2; nonValidFound = true; break;
+		case 'E':
+			// The exponent belongs to this value: never look for it beyond a white space.
+			if (s[1] == '-' || s[1] == '+' || (s[1] >= '0' && s[1] <= '9')) { const CH* e = s + 1; exponent = ToInt32(&e); }
+			nonValidFound = true; --s; break;
 		case 'I': infinity = true; [[fallthrough]];
 		default: nonValidFound = true; --s; break;
 		}
-- 
2.43.0


From efb5b217a40c9486cc71954a8e48a2e9ce9ec32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 014/205] fix: erase exactly the matching handlers in
 FUEvent::ReleaseHandler

---
 FCollada/FUtils/FUEvent.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 27e5983..178d722 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -18,7 +18,9 @@
 #ifndef _FU_EVENT_H_
 #define _FU_EVENT_H_
 
+#include <algorithm>
 #include <functional>
+#include <tuple>
 #include <vector>
 
 /**
@@ -56,7 +58,7 @@ public:
 	void ReleaseHandler(void* object)
 	{
 		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](auto t){ return std::get<0>(t) == object; }));
+					[object](const auto& t){ return std::get<0>(t) == object; }), handlers.end());
 	}
 
 	/**
-- 
2.43.0


From 6bf4c9814bab7816d0e7328b95a783469477a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 015/205] fix: transfer ownership between object references and
 survive self-assignment

---
 FCollada/FUtils/FUObject.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 8f183bc..8aea72b 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -183,6 +183,7 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(ObjectClass* _ptr)
 	{
+		if (ptr == _ptr) return *this;
 		if (ptr != NULL) ((FUObject*) ptr)->Release();
 		FUAssert(ptr == NULL, return *this);
 		ptr = _ptr;
@@ -198,9 +199,11 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(FUObjectRef<ObjectClass>& _ptr)
 	{
-		operator=(_ptr.ptr);
+		if (this == &_ptr) return *this;
+		ObjectClass* object = _ptr.ptr;
+		if (object != NULL) _ptr.DetachObject((FUObject*) object);
 		_ptr.ptr = NULL;
-		return *this;
+		return operator=(object);
 	}
 
 	/** Accesses the tracked object.
-- 
2.43.0


From a7a3cc4025d9c0c336151378138f52c7e4b02676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 016/205] fix: track the objects of copied tracking pointers
 and lists

---
 FCollada/FUtils/FUTracker.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 4fdc8f8..5bdb777 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -121,6 +121,13 @@ public:
 		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
 	}
 
+	/** Copy constructor.
+		@param other Another tracking pointer, whose object will also be tracked by this one. */
+	FUTrackedPtr(const FUTrackedPtr& other) : FUTracker(), ptr(other.ptr)
+	{
+		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
+	}
+
 	/** Destructor.
 		Stops the tracking of the pointer. */
 	~FUTrackedPtr()
@@ -334,14 +341,25 @@ public:
 	virtual bool TracksObject(const FUTrackable* object) const { return Parent::contains((ObjectClass*) object); }
 
 	/** Copy constructor. @param other The FUTrackedList to clone. */
-	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList(const FUTrackedList<ObjectClass>& other) : Parent(), FUTracker()
+	{
+		insert(begin(), other.begin(), other.end());
+	}
 
 	/** Clones a list of tracked objects.
 		This list will stop tracking all its current tracked objects
 		and will start tracking the objects within the other list.
 		@param other A second list of tracked objects.
 		@return This list. */
-	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other)
+	{
+		if (this != &other)
+		{
+			clear();
+			insert(begin(), other.begin(), other.end());
+		}
+		return *this;
+	}
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-- 
2.43.0


From 9f60aee3b889dc485eba8a4071364cdc27ad1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 017/205] fix: end the query of a URI before its fragment

---
 FCollada/FUtils/FUUri.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 69d8b04..a937039 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -187,8 +187,9 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	// Find the path
 	size_t queryDelimiter = _uri.find(FC('?'));
 	size_t fragmentDelimiter = _uri.find(FC('#'));
+	if (queryDelimiter != fstring::npos && queryDelimiter > fragmentDelimiter) queryDelimiter = fstring::npos;
 
-	if (queryDelimiter != fstring::npos) query = _uri.substr(queryDelimiter + 1, fragmentDelimiter - queryDelimiter);
+	if (queryDelimiter != fstring::npos) query = _uri.substr(queryDelimiter + 1, (fragmentDelimiter == fstring::npos) ? fstring::npos : fragmentDelimiter - queryDelimiter - 1);
 	if (fragmentDelimiter != fstring::npos) fragment = _uri.substr(fragmentDelimiter + 1);
 
 	if (queryDelimiter == fstring::npos && fragmentDelimiter == fstring::npos)
-- 
2.43.0


From bf4278ede03db36dabd773303732831c80286214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 018/205] fix: do not append a second slash to a URI path that
 already ends with one

---
 FCollada/FUtils/FUUri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index a937039..a894023 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -208,7 +208,7 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	if (path.size() > 1 && path[1] == '|') path[1] = ':';
 	else if (path.size() > 2 && path[2] == '|') path[2] = ':';
 
-	if (!IsFile())
+	if (!IsFile() && (path.empty() || path.back() != '/'))
 	{
 		path.append(FC("/"));
 	}
-- 
2.43.0


From 224965504309c9133ba51e1b4e2fd42e4d2aff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 019/205] fix: do not take a colon in the path of a URI for the
 scheme delimiter

---
 FCollada/FUtils/FUUri.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index a894023..ec45717 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -48,8 +48,9 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	// Replace all '\\' characters by '/' so the path is only using them
 	_uri.replace(FC('\\'), FC('/'));
 
-	// Find the scheme from its ':' delimiter
+	// Find the scheme from its ':' delimiter: a ':' within the path, the query or the fragment is not one.
 	size_t schemeDelimiterIndex = _uri.find(FC(':'));
+	if (schemeDelimiterIndex != fstring::npos && schemeDelimiterIndex > _uri.find_first_of(FC("/?#"))) schemeDelimiterIndex = fstring::npos;
 	size_t hostIndex = 0;
 
 	if (schemeDelimiterIndex != fstring::npos && schemeDelimiterIndex > 1)
-- 
2.43.0


From 9128efdfcb2f6507e602a9b98b59e7170bf04259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 020/205] fix: parse and resolve the user information of a URI

---
 FCollada/FUtils/FUUri.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index ec45717..121113b 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -144,6 +144,20 @@ FUUri::FUUri(const fstring& uri, bool escape)
 		{
 			hostname = _uri.substr(hostIndex, hostDelimiterIndex - hostIndex);
 
+			// Check for user information
+			size_t userIndex = hostname.find(FC('@'));
+			if (userIndex != fstring::npos)
+			{
+				username = hostname.substr(0, userIndex);
+				hostname = hostname.substr(userIndex + 1);
+				size_t passwordIndex = username.find(FC(':'));
+				if (passwordIndex != fstring::npos)
+				{
+					password = username.substr(passwordIndex + 1);
+					username = username.substr(0, passwordIndex);
+				}
+			}
+
 			// Check for port
 			size_t portIndex = hostname.find(FC(':'));
 			if (portIndex != fstring::npos)
@@ -552,6 +566,8 @@ void FUUri::MakeAbsolute(FUUri& uri) const
 		// Since path is relative to this one
 		uri.scheme = this->scheme;
 		uri.schemeDelimiter = this->schemeDelimiter;
+		uri.username = this->username;
+		uri.password = this->password;
 		uri.hostname = this->hostname;
 		uri.port = this->port;
 	}
-- 
2.43.0


From fd9bc6297dc7f73ce7c592430fe30ed7b6037e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 021/205] fix: print the scheme delimiter of URIs that are
 built from their components

---
 FCollada/FUtils/FUUri.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 121113b..a938e11 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -239,6 +239,7 @@ FUUri::FUUri(Scheme _scheme, const fstring& _user, const fstring& _passwd, const
 		query(_query),
 		fragment(_fragment)
 {
+	if (scheme != FUUri::NONE) schemeDelimiter = FC("://");
 	path.replace(FC('\\'), FC('/'));
 	if (path.length() > 2 && path[1] == ':') path.push_front('/');
 }
@@ -250,6 +251,7 @@ FUUri::FUUri(Scheme _scheme, const fstring& _host, const fstring& _path, const f
 		path(_path),
 		fragment(_fragment)
 {
+	if (scheme != FUUri::NONE) schemeDelimiter = FC("://");
 	path.replace(FC('\\'), FC('/'));
 	if (path.length() > 2 && path[1] == ':') path.push_front('/');
 }
@@ -260,6 +262,7 @@ FUUri::FUUri(const fstring& _path, const fstring& _fragment)
 		path(_path),
 		fragment(_fragment)
 {
+	if (scheme != FUUri::NONE) schemeDelimiter = FC("://");
 	path.replace(FC('\\'), FC('/'));
 	if (path.length() > 2 && path[1] == ':') path.push_front('/');
 }
-- 
2.43.0


From 059c2a75177ee1d0787b4f3629f8c0e20a936236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 022/205] fix: do not make a path relative to a URI with
 another scheme, user or port

---
 FCollada/FUtils/FUUri.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index a938e11..99ed026 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -464,13 +464,12 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 		// First ensure that we have an absolute file path
 		filePath = MakeAbsolute(filePath);
 		FUUri uri(filePath);
-		uri.scheme = GetScheme();
 
 		filePath = uri.GetPath();
 
-		if (!IsEquivalent(GetHostname(), uri.GetHostname()))
+		if (GetScheme() != uri.GetScheme() || !IsEquivalent(GetAuthority(), uri.GetAuthority()))
 		{
-			// If it's not the same host so we use the absolute path
+			// If it's not the same scheme or host so we use the absolute path
 			return _path;
 		}
 
-- 
2.43.0


From 3e5685bcb00388800eab802680484545b82007f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 023/205] fix: survive root folders in FUUri::MakeRelative

---
 FCollada/FUtils/FUUri.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 99ed026..cbda225 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -480,7 +480,7 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 
 		if (GetHostname().empty() && GetScheme() == uri.GetScheme() && GetScheme() == FUUri::FILE)
 		{
-			if (!IsEquivalent(documentPaths.front(), localPaths.front()))
+			if (documentPaths.empty() || localPaths.empty() || !IsEquivalent(documentPaths.front(), localPaths.front()))
 			{
 				// We're not on the same drive, return absolute path
 				return _path;
@@ -499,6 +499,9 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 			}
 		}
 
+		// A root folder has no filename to make relative
+		if (localPaths.empty()) return _path;
+
 		// Extract the filename from the stack
 		fstring filename = localPaths.back();
 		localPaths.pop_back();
-- 
2.43.0


From 69b23023277055e17565043719ce959aab6a0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 024/205] fix: keep the host, query and fragment in
 FUUri::Resolve

---
 FCollada/FUtils/FUUri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index cbda225..b9f46fa 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -645,8 +645,9 @@ void FUUri::MakeAbsolute(FUUri& uri) const
 
 FUUri FUUri::Resolve(const fstring& relativePath) const
 {
-	fstring absolute = MakeAbsolute(relativePath);
-	return FUUri(absolute);
+	FUUri uri(relativePath);
+	if (!relativePath.empty()) MakeAbsolute(uri);
+	return uri;
 }
 
 bool FUUri::IsFile() const
-- 
2.43.0


From 6c32d6623d87cfb738cd90357267380c4b008387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 025/205] fix: handle file paths of any length in FUFileManager

---
 FCollada/FUtils/FUFileManager.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/FCollada/FUtils/FUFileManager.cpp b/FCollada/FUtils/FUFileManager.cpp
index 3e3955b..f95db5e 100644
--- a/FCollada/FUtils/FUFileManager.cpp
+++ b/FCollada/FUtils/FUFileManager.cpp
@@ -255,22 +255,18 @@ bool FUFileManager::FileExists(const fstring& filename)
 // Strip a full filename of its filename, returning the path
 fstring FUFileManager::StripFileFromPath(const fstring& filename)
 {
-	fchar fullPath[MAX_PATH + 1];
-	fstrncpy(fullPath, filename.c_str(), MAX_PATH);
-	fullPath[MAX_PATH] = 0;
-	fchar* lastSlash = fstrrchr(fullPath, FC('/'));
-	fchar* lastBackslash = fstrrchr(fullPath, FC('\\'));
+	const fchar* fullPath = filename.c_str();
+	const fchar* lastSlash = fstrrchr(fullPath, FC('/'));
+	const fchar* lastBackslash = fstrrchr(fullPath, FC('\\'));
 	lastSlash = max(lastSlash, lastBackslash);
-	if (lastSlash != NULL) *(lastSlash + 1) = 0;
-	return fstring(fullPath);
+	return (lastSlash != NULL) ? filename.substr(0, lastSlash + 1 - fullPath) : filename;
 }
 
 // Extract the file extension out of a filename
 fstring FUFileManager::GetFileExtension(const fstring& _filename)
 {
-	fchar filename[MAX_PATH];
-	fstrncpy(filename, _filename.c_str(), MAX_PATH);
-	filename[MAX_PATH - 1] = 0;
+	fstring filenameCopy = _filename;
+	fchar* filename = filenameCopy.begin();
 
 	fchar* lastPeriod = fstrrchr(filename, '.');
 	if (lastPeriod == NULL) return emptyFString;
-- 
2.43.0


From ce54e81cde25b37607e97f60c6d91a8b187638fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 026/205] fix: resolve a relative path that climbs up to the
 root folder to the root folder

---
 FCollada/FUtils/FUUri.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index b9f46fa..f1a7c4f 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -640,6 +640,7 @@ void FUUri::MakeAbsolute(FUUri& uri) const
 		outPath.append(*it);
 	}
 
+	if (outPath.empty()) outPath.append(FC('/'));
 	uri.path = outPath;
 }
 
-- 
2.43.0


From 31f0e66819e8e364d03acd2726805bfb35c4032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 027/205] fix: release one registered callback per call of
 FUEvent::ReleaseHandler

---
 FCollada/FUtils/FUEvent.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 178d722..ab64123 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -57,8 +57,9 @@ public:
 		@param function The address of the function callback to unregister. */
 	void ReleaseHandler(void* object)
 	{
-		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](const auto& t){ return std::get<0>(t) == object; }), handlers.end());
+		auto it = std::find_if(handlers.begin(), handlers.end(),
+					[object](const auto& t){ return std::get<0>(t) == object; });
+		if (it != handlers.end()) handlers.erase(it);
 	}
 
 	/**
-- 
2.43.0


From 4988bff2950a5c8ebc573fdf7837aadbafaf1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 028/205] fix: keep making paths relative to a URI without a
 scheme

---
 FCollada/FUtils/FUUri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index f1a7c4f..e161874 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -467,7 +467,7 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 
 		filePath = uri.GetPath();
 
-		if (GetScheme() != uri.GetScheme() || !IsEquivalent(GetAuthority(), uri.GetAuthority()))
+		if ((GetScheme() != FUUri::NONE && GetScheme() != uri.GetScheme()) || !IsEquivalent(GetAuthority(), uri.GetAuthority()))
 		{
 			// If it's not the same scheme or host so we use the absolute path
 			return _path;
-- 
2.43.0


From ccc0f163afc8c11622b09cdf20c04a770289fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 029/205] fix: recompose the rotations in the order in which
 FMMatrix44::Decompose extracts them

---
 FCollada/FMath/FMMatrix44.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 5632bea..9d8dd76 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -170,8 +170,8 @@ void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& tra
 
 void FMMatrix44::Recompose(const FMVector3& scale, const FMVector3& rotation, const FMVector3& translation, float inverted)
 {
-	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
-		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
 		* FMMatrix44::ScaleMatrix(inverted * scale);
 }
 
-- 
2.43.0


From e972a26af421375c19ca59c5ba393598901510af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 030/205] fix: extract the X angle of FMQuaternion::ToEuler
 with the right magnitude and sign

---
 FCollada/FMath/FMQuaternion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 75f03d2..f99f485 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -156,14 +156,14 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		angles.y = (float) -FMath::Pi / 2;
 
-		angles.x = -2 * atan2(x,w);
+		angles.x = 2 * atan2(x,w);
 		angles.z = 0;
 	}
 	else
 	{
 		// [GLaforte] Derived on 18-07-2007.
 		angles.y = asinf(siny);
-		angles.x = atan2f((x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
+		angles.x = atan2f(2.0f * (x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
 		angles.z = atan2f(2.0f * (z*w-x*y), 1.0f - 2.0f * (y*y+z*z));
 	}
 
-- 
2.43.0


From 2652e3b031d78524f83168ba7bc6f886c98fd693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 031/205] fix: extract a finite angle from quaternions whose
 scalar is rounded above one

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index f99f485..c54cbdf 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -123,7 +123,7 @@ FMQuaternion FMQuaternion::slerp(const FMQuaternion& other, float t) const
 
 void FMQuaternion::ToAngleAxis(FMVector3& axis, float& angle) const
 {
-	angle = 2.0f * acosf(w);
+	angle = 2.0f * acosf(max(-1.0f, min(1.0f, w)));
 	float s = sinf(angle / 2.0f);
 	if (!IsEquivalent(s, 0.0f))
 	{
-- 
2.43.0


From 81003931020a4b509f4327fec1f3aa88c6e81fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 032/205] fix: invert 3x3 matrices with a small scale

---
 FCollada/FMath/FMMatrix33.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMMatrix33.cpp b/FCollada/FMath/FMMatrix33.cpp
index 3a03f4b..23f3e2d 100644
--- a/FCollada/FMath/FMMatrix33.cpp
+++ b/FCollada/FMath/FMMatrix33.cpp
@@ -95,7 +95,7 @@ FMMatrix33 FMMatrix33::Inverted() const
 	float det = (m[0][0] * b.m[0][0]) + (m[1][0] * b.m[0][1]) + (m[2][0] * b.m[0][2]);
 
 	// We should consider throwing an exception if det < eps.
-	if (IsEquivalent(det, 0.0f)) det = 0.01f;
+	if (det == 0.0f) det = 0.01f;
 	float oodet = 1.0f / det;
 
 	b.m[0][0] *= oodet;
-- 
2.43.0


From bae3f5e8ec19ccbf4dbbf4816f377591c14ccd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 033/205] fix: extend both bounds when an empty bounding box
 includes its first point

---
 FCollada/FUtils/FUBoundingBox.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingBox.cpp b/FCollada/FUtils/FUBoundingBox.cpp
index 4813579..6326ab4 100644
--- a/FCollada/FUtils/FUBoundingBox.cpp
+++ b/FCollada/FUtils/FUBoundingBox.cpp
@@ -106,11 +106,11 @@ void FUBoundingBox::Include(const FUBoundingBox& boundingBox)
 void FUBoundingBox::Include(const FMVector3& point)
 {
 	if (point.x < minimum.x) minimum.x = point.x;
-	else if (point.x > maximum.x) maximum.x = point.x;
+	if (point.x > maximum.x) maximum.x = point.x;
 	if (point.y < minimum.y) minimum.y = point.y;
-	else if (point.y > maximum.y) maximum.y = point.y;
+	if (point.y > maximum.y) maximum.y = point.y;
 	if (point.z < minimum.z) minimum.z = point.z;
-	else if (point.z > maximum.z) maximum.z = point.z;
+	if (point.z > maximum.z) maximum.z = point.z;
 }
 
 FUBoundingBox FUBoundingBox::Transform(const FMMatrix44& transform) const
-- 
2.43.0


From 622237544ea2ec497fb77ce32661179389440966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 034/205] fix: enclose both spheres, and only valid ones, in
 FUBoundingSphere::Include

---
 FCollada/FUtils/FUBoundingSphere.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index ce373b0..51c1c10 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -130,13 +130,21 @@ void FUBoundingSphere::Include(const FMVector3& point)
 
 void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 {
+	if (!boundingSphere.IsValid()) return;
+
 	if (radius >= 0.0f)
 	{
 		float distance = (center - boundingSphere.center).Length();
-		if (distance + boundingSphere.radius > radius)
+		if (distance + radius <= boundingSphere.radius)
+		{
+			center = boundingSphere.center;
+			radius = boundingSphere.radius;
+		}
+		else if (distance + boundingSphere.radius > radius)
 		{
-			center = ((radius + distance / 2.0f) * center + (boundingSphere.radius + distance / 2.0f) * boundingSphere.center) / (radius + boundingSphere.radius + distance);
-			radius = (radius + boundingSphere.radius + distance) / 2.0f;
+			float newRadius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center += (boundingSphere.center - center) * ((newRadius - radius) / distance);
+			radius = newRadius;
 		}
 	}
 	else
-- 
2.43.0


From 77a9d0cce65a64d34599daf3c97c8ec208be848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 035/205] fix: ignore empty bounding boxes in
 FUBoundingSphere::Include

---
 FCollada/FUtils/FUBoundingSphere.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index 51c1c10..bece487 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -156,6 +156,8 @@ void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 
 void FUBoundingSphere::Include(const FUBoundingBox& boundingBox)
 {
+	if (!boundingBox.IsValid()) return;
+
 	if (radius >= 0.0f)
 	{
 		FUBOUNDINGBOX_COORDINATES(coordinates, boundingBox);
-- 
2.43.0


From fa0cd113bcfc821be0d03240af57a5ee583e1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 036/205] fix: tolerate rounding relatively to the radius in
 FUBoundingSphere::Contains

---
 FCollada/FUtils/FUBoundingSphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index bece487..5851cf4 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -62,7 +62,7 @@ bool FUBoundingSphere::Contains(const FMVector3& point) const
 	{
 		float a = (center-point).LengthSquared();
 		float b = (radius*radius);
-		return (a < b) || IsEquivalent(a, b);
+		return (a < b) || IsEquivalent(a, b, max(FLT_TOLERANCE, b * 1.0e-6f));
 	}
 	else return false;
 }
-- 
2.43.0


From 0c6a9629d81f64f2e861e6acd2bbf38e9ec24cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 037/205] fix: report a shared point as the center of
 overlapping bounding spheres, and no overlap with empty ones

---
 FCollada/FUtils/FUBoundingSphere.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index 5851cf4..68a24db 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -69,18 +69,18 @@ bool FUBoundingSphere::Contains(const FMVector3& point) const
 
 bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector3* overlapCenter) const
 {
-	if (radius >= 0.0f)
+	if (radius >= 0.0f && boundingSphere.radius >= 0.0f)
 	{
-		FMVector3 centerToCenter = center - boundingSphere.center;
+		FMVector3 centerToCenter = boundingSphere.center - center;
 		float distanceSquared = centerToCenter.LengthSquared();
-		bool overlaps = distanceSquared < (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
+		bool overlaps = distanceSquared <= (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
 		if (overlaps && overlapCenter != NULL)
 		{
 			float distance = sqrtf(distanceSquared);
-			float overlapDistance = (radius + boundingSphere.radius) - distance;
-			float smallerRadius = min(radius, boundingSphere.radius);
-			overlapDistance = min(2.0f * smallerRadius, overlapDistance);
-			(*overlapCenter) = center + centerToCenter / distance * (radius - overlapDistance / 2.0f);
+			float overlapStart = max(-radius, distance - boundingSphere.radius);
+			float overlapEnd = min(radius, distance + boundingSphere.radius);
+			(*overlapCenter) = center;
+			if (distance > 0.0f) (*overlapCenter) += centerToCenter * ((overlapStart + overlapEnd) / (2.0f * distance));
 		}
 		return overlaps;
 	}
@@ -101,7 +101,7 @@ bool FUBoundingSphere::Overlaps(const FUBoundingBox& boundingBox, FMVector3* ove
 		if (center.z > boundingBox.GetMax().z) rz = boundingBox.GetMax().z - center.z;
 		else if (center.z > boundingBox.GetMin().z) rz = 0.0f;
 		else rz = boundingBox.GetMin().z - center.z;
-		bool overlaps = (rx * rx + ry * ry + rz * rz) < (radius * radius);
+		bool overlaps = (rx * rx + ry * ry + rz * rz) <= (radius * radius);
 		if (overlaps && overlapCenter != NULL)
 		{
 			(*overlapCenter) = center + FMVector3(rx, ry, rz);
-- 
2.43.0


From e3a14d123e0378f7d75615cf33ac6927bd4da3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 038/205] fix: write the LINEAR texture filter function

---
 FCollada/FUtils/FUDaeEnum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUDaeEnum.cpp b/FCollada/FUtils/FUDaeEnum.cpp
index 49fd60a..b423991 100644
--- a/FCollada/FUtils/FUDaeEnum.cpp
+++ b/FCollada/FUtils/FUDaeEnum.cpp
@@ -163,6 +163,7 @@ namespace FUDaeTextureFilterFunction
 		{
 		case NONE: return DAE_TEXTURE_FILTER_NONE;
 		case NEAREST: return DAE_TEXTURE_FILTER_NEAREST;
+		case LINEAR: return DAE_TEXTURE_FILTER_LINEAR;
 		case NEAREST_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_NEAR_MIP_NEAR;
 		case LINEAR_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_LIN_MIP_NEAR;
 		case NEAREST_MIPMAP_LINEAR: return DAE_TEXTURE_FILTER_NEAR_MIP_LIN;
-- 
2.43.0


From aeb7fdb9f918764930ecd7483830f26c5e0847b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 039/205] fix: decode no more than the Base64 characters that
 are present

---
 FCollada/FUtils/FUBase64.cpp | 38 ++++++++++++------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/FCollada/FUtils/FUBase64.cpp b/FCollada/FUtils/FUBase64.cpp
index 7163083..0de5ae0 100644
--- a/FCollada/FUtils/FUBase64.cpp
+++ b/FCollada/FUtils/FUBase64.cpp
@@ -50,28 +50,6 @@ namespace FUBase64
 		return requiredBytes;
 	}
 
-	size_t CalculateRecquiredDecodeOutputBufferSize (const uint8* inputBufferString, size_t inputLength)
-	{
-		size_t bufferLength = inputLength;
-		div_t result = div ((int) bufferLength, 4);
-
-		if (inputBufferString[bufferLength - 1] != '=')
-		{
-			return result.quot * 3;
-		}
-		else
-		{
-			if (inputBufferString[bufferLength - 2] == '=')
-			{
-				return result.quot * 3 - 2;
-			}
-			else
-			{
-				return result.quot * 3 - 1;
-			}
-		}
-	}
-
 	void EncodeByteTriple(const uint8* inputBuffer, size_t inputbufferLength, uint8* outputBuffer)
 	{
 		uint32 mask = 0xfc000000;
@@ -200,21 +178,25 @@ namespace FUBase64
 
 	FCOLLADA_EXPORT void decode(const UInt8List& input, UInt8List& output)
 	{
+		output.clear();
+		if (input.size() == 0) return;
+
 		size_t inputBufferIndex  = 0;
 		size_t outputBufferIndex = 0;
 
 		const uint8* inputBufferString = &input.at(0);
 		size_t inputbufferLength = input.size();
 
-		output.clear();
-		output.resize(CalculateRecquiredDecodeOutputBufferSize(inputBufferString, inputbufferLength), 0);
+		// Leave enough space for every quartet: the ignored characters and the padding are removed at the end.
+		output.resize(inputbufferLength / 4 * 3 + 3, 0);
 		uint8* outputBuffer = &output.at(0);
 
 		uint8 byteQuartet[4];
 
 		while (inputBufferIndex < inputbufferLength)
 		{
-			for (int i = 0; i < 4; ++i)
+			int i = 0;
+			for (; i < 4 && inputBufferIndex < inputbufferLength; ++i)
 			{
 				byteQuartet[i] = inputBufferString[inputBufferIndex];
 
@@ -233,7 +215,13 @@ namespace FUBase64
 				++inputBufferIndex;
 			}
 
+			// Stop at the first quartet that is incomplete or that has misplaced padding.
+			if (i < 4 || byteQuartet[0] == '=' || byteQuartet[1] == '=' || (byteQuartet[2] == '=' && byteQuartet[3] != '=')) break;
+
 			outputBufferIndex += DecodebyteQuartet(byteQuartet, outputBuffer + outputBufferIndex);
+
+			if (byteQuartet[3] == '=') break;
 		}
+		output.resize(outputBufferIndex);
 	}
 }
-- 
2.43.0


From f153eec51386051a34a88f8f1c48384d08b24ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 040/205] fix: escape the percent character in the text written
 to XML elements

---
 FCollada/FUtils/FUXmlWriter.cpp                   | 2 +-
 FColladaPlugins/FArchiveXML/FAXEntityExport.cpp   | 2 +-
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUXmlWriter.cpp b/FCollada/FUtils/FUXmlWriter.cpp
index a8282ee..fec299a 100644
--- a/FCollada/FUtils/FUXmlWriter.cpp
+++ b/FCollada/FUtils/FUXmlWriter.cpp
@@ -38,7 +38,7 @@ static const bool xmlValidityTable[256] =
 {
 	false, false, false, false, false, false, false, false, false, false, true , false, false, true , false, false, // 0-15 [10 is \n, 13 is \r]
 	false, false, false, false, false, false, false, false, false, false, false, false, false, false, false, false, // 16-31
-	true , true , false, true , true , true , true , false, true , true , true , true , true , true , true , true , // 32-47 [32-33 is ' !', 35-38 is '#$%&', 40-47 is '()*+,-./']
+	true , true , false, true , true , false, true , false, true , true , true , true , true , true , true , true , // 32-47 [32-33 is ' !', 35-36 is '#$', 38 is '&', 40-47 is '()*+,-./']
 	true , true , true , true , true , true , true , true , true , true , true , true , false, true , false, true , // 48-63 [48-57 are numerals, 58-59 is ':;', 61 is '=', 63 is '?']
 	false, true , true , true , true , true , true , true , true , true , true , true , true , true , true , true , // 64-79 [65-79 is 'A'-'O']
 	true , true , true , true , true , true , true , true , true , true , true , true , false, true , false, true , // 80-95 [80-90 is 'P'-'Z', 91 is '[', 93 is ']', 95 is '_']
diff --git a/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp b/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
index 5f6c4a5..6958e28 100644
--- a/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
@@ -122,7 +122,7 @@ xmlNode* FArchiveXML::WriteAssetContributor(FCDObject* object, xmlNode* parentNo
 			FUUri uri(assetContributor->GetSourceData());
 			fstring sourceDataUrl = uri.GetAbsoluteUri();
 			ConvertFilename(sourceDataUrl);
-			AddChild(contributorNode, DAE_SOURCEDATA_ASSET_PARAMETER, sourceDataUrl);
+			AddContentUnprocessed(AddChild(contributorNode, DAE_SOURCEDATA_ASSET_PARAMETER), TO_STRING(sourceDataUrl));
 		}
 	}
 	return contributorNode;
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index a68ce53..3fde6c9 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -1070,7 +1070,7 @@ xmlNode* FArchiveXML::WriteImage(FCDObject* object, xmlNode* parentNode)
 	{
 		fstring url = image->GetDocument()->GetFileManager()->CleanUri(FUUri(image->GetFilename()));
 		FUXmlWriter::ConvertFilename(url);
-		AddChild(imageNode, DAE_INITFROM_ELEMENT, url);
+		AddContentUnprocessed(AddChild(imageNode, DAE_INITFROM_ELEMENT), TO_STRING(url));
 	}
 
 	if (image->GetWidth() > 0) AddAttribute(imageNode, DAE_WIDTH_ELEMENT, image->GetWidth());
-- 
2.43.0


From 2bf142fe803e1958c7d49aa531a76b69b4f9d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 041/205] fix: only decode a percent character followed by two
 hexadecimal digits in XML text

---
 FCollada/FUtils/FUXmlParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlParser.cpp b/FCollada/FUtils/FUXmlParser.cpp
index 2080550..5588744 100644
--- a/FCollada/FUtils/FUXmlParser.cpp
+++ b/FCollada/FUtils/FUXmlParser.cpp
@@ -27,7 +27,7 @@ namespace FUXmlParser
 		char c;
 		while ((c = *s) != 0)
 		{
-			if (c != '%')
+			if (c != '%' || !isxdigit((uint8) s[1]) || !isxdigit((uint8) s[2]))
 			{
 				xmlSBuilder.append(c);
 				++s;
@@ -51,7 +51,7 @@ namespace FUXmlParser
 		fchar c;
 		while ((c = *s) != 0)
 		{
-			if (c != (fchar) '%')
+			if (c != (fchar) '%' || !iswxdigit(s[1]) || !iswxdigit(s[2]))
 			{
 				xmlBuilder.append(c);
 				++s;
-- 
2.43.0


From 04190069cf070b4adb2bb3f45df219834c1c3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 042/205] fix: write the value given to the templated
 AddChildOnce and AddContent

---
 FCollada/FUtils/FUXmlWriter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlWriter.h b/FCollada/FUtils/FUXmlWriter.h
index 9662e77..9bae986 100644
--- a/FCollada/FUtils/FUXmlWriter.h
+++ b/FCollada/FUtils/FUXmlWriter.h
@@ -120,7 +120,7 @@ namespace FUXmlWriter
 		@param name The name of the child XML tree node.
 		@param value A primitive value. If the child XML tree node must be created: this value is stringified and added as content.
 		@return The child XML tree node. */
-	template <typename T> inline xmlNode* AddChildOnce(xmlNode* parent, const char* name, const T& value) { xmlNode* child = AddChildOnce(parent, name); FUSStringBuilder builder(value); AddContentUnprocessed(child, builder.ToCharPtr()); return child; }
+	template <typename T> inline xmlNode* AddChildOnce(xmlNode* parent, const char* name, const T& value) { FUSStringBuilder builder; builder.set(value); return AddChildOnce(parent, name, builder.ToCharPtr()); }
 
 	/** Appends a content string to a XML tree node.
 		The content string is added at the end of the XML tree node's content, with no special characters added.
@@ -143,7 +143,7 @@ namespace FUXmlWriter
 		The primitive value is added at the end of the XML tree node's content, with no special characters added.
 		@param node The XML tree node.
 		@param value A primitive value. The value is stringified and added as content to the XML tree node. */
-	template <typename T> inline void AddContent(xmlNode* node, const T& value) { FUSStringBuilder builder(value); return AddContentUnprocessed(node, builder.ToCharPtr()); }
+	template <typename T> inline void AddContent(xmlNode* node, const T& value) { FUSStringBuilder builder; builder.set(value); return AddContentUnprocessed(node, builder.ToCharPtr()); }
 
 	/** Appends a XML attribute to a XML tree node.
 		A XML attribute appears in the form @<node name="value"/@>.
-- 
2.43.0


From b1e5af0cfc9910a19fc37643a6359d459c3c66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 043/205] fix: give every node a unique sid, however many nodes
 want the same one

---
 FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
index 55340be..20cc1dc 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
@@ -391,7 +391,7 @@ namespace FUDaeWriter
 		}
 
 		// Generate new sids with an incremental counter.
-		for (uint32 counter = 2; counter < 100; ++counter)
+		for (uint32 counter = 2; ; ++counter)
 		{
 			FUSStringBuilder builder(wantedSid); builder.append(counter);
 			existingNode = FindHierarchyChildBySid(parentNode, builder.ToCharPtr());
@@ -401,7 +401,6 @@ namespace FUDaeWriter
 				return builder.ToString();
 			}
 		}
-		return emptyString;
 	}
 
 	void AddNodeSid(xmlNode* node, fm::string& subId)
-- 
2.43.0


From 636d61315eccaaf7f01c013f026d1ea9ce2c8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 044/205] fix: read the remaining interleaved 3D vectors with
 their own stride

---
 FColladaPlugins/FArchiveXML/FAXColladaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index ac45698..539cfec 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -385,7 +385,7 @@ namespace FUDaeParser
 
 				while (*value != 0)
 				{
-					for (size_t i = 0; 2 * i < stride && *value != 0; ++i)
+					for (size_t i = 0; 3 * i < stride && *value != 0; ++i)
 					{
 						if (arrays[i] != NULL)
 						{
-- 
2.43.0


From e8d154bf8fa4acab5dd072e9fae04cab9ae35a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 045/205] fix: do not read past the interpolation tokens of a
 source that has too few

---
 FColladaPlugins/FArchiveXML/FAXColladaParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index 539cfec..7ccdd9a 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -426,9 +426,10 @@ namespace FUDaeParser
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
 			FUStringConversion::ToStringList(arrayContent, stringArray);
+
 			for (uint32 i = 0; i < count; ++i)
 			{
-				array[i] = (uint32) FUDaeInterpolation::FromString(stringArray[i * stride]);
+				array[i] = (uint32) FUDaeInterpolation::FromString((size_t) i * stride < stringArray.size() ? stringArray[i * stride] : emptyString);
 			}
 		}
 	}
-- 
2.43.0


From dc1419f945e528e0b39c3b6fbe4cb807538a90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 046/205] fix: load instances of nodes that appear later in the
 document

---
 FColladaPlugins/FArchiveXML/FAXSceneImport.cpp |  7 ++++++-
 FColladaPlugins/FArchiveXML/FAXStructures.h    | 12 ++++++++++++
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp    | 16 ++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
index ac25bdf..affdb3d 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
@@ -156,7 +156,12 @@ bool FArchiveXML::LoadSceneNode(FCDObject* object, xmlNode* node)
 				}
 				else
 				{
-					FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, child->line);
+					// The node may appear later in the document: try again once everything is loaded.
+					FAXNodeInstance instance;
+					instance.parent = sceneNode;
+					instance.targetId = TO_STRING(url.GetFragment());
+					instance.line = child->line;
+					FArchiveXML::documentLinkDataMap[sceneNode->GetDocument()].nodeInstances.push_back(instance);
 				}
 			}
 			else
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 5fdc209..01284d4 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -228,6 +228,17 @@ typedef fm::map<FCDGeometrySource*, FCDGeometrySourceData> FCDGeometrySourceData
 
 typedef fm::pvector<FCDAnimationChannel> FCDAnimationChannelList;
 
+//
+// For FCDSceneNode: <instance_node> elements that point to nodes which appear later in the document.
+//
+struct FAXNodeInstance
+{
+	FCDSceneNode* parent;
+	fm::string targetId;
+	int32 line;
+};
+typedef fm::vector<FAXNodeInstance> FAXNodeInstanceList;
+
 #endif //_FAXSTRUCTURES_H_
 
 //
@@ -237,6 +248,7 @@ struct FCDocumentLinkData
 {
 	FCDEmitterInstanceDataMap emitterInstanceDataMap;
 	FCDTargetedEntityDataMap targetedEntityDataMap;
+	FAXNodeInstanceList nodeInstances;
 	FCDAnimationChannelDataMap animationChannelData;
 	FCDAnimatedDataMap animatedData;
 	FCDAnimationCurveDataMap animationCurveData;
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 7c09480..3d3f6cd 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -731,6 +731,22 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 	}
 
+	// Attach the instantiated nodes that appear after their <instance_node> element.
+	FAXNodeInstanceList& nodeInstances = FArchiveXML::documentLinkDataMap[theDocument].nodeInstances;
+	for (FAXNodeInstanceList::iterator itN = nodeInstances.begin(); itN != nodeInstances.end(); ++itN)
+	{
+		FCDSceneNode* target = theDocument->FindSceneNode(itN->targetId.c_str());
+		if (target == NULL)
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, itN->line);
+		}
+		else if (!itN->parent->AddChildNode(target))
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_CYCLE_DETECTED, itN->line);
+		}
+	}
+	nodeInstances.clear();
+
 	// Link the effect surface parameters with the images
 	for (size_t i = 0; i < theDocument->GetMaterialLibrary()->GetEntityCount(); ++i)
 	{
-- 
2.43.0


From 2d7b1ff2a099b32bc14be06e63038465eebc53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 047/205] fix: write the extra tree of an animation or emitter
 library without entities

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 3d3f6cd..6c669fb 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -837,7 +837,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 
 		// Record the animation library. This library is built at the end, but should appear before the <scene> element.
 		xmlNode* animationLibraryNode = NULL;
-		if (!theDocument->GetAnimationLibrary()->IsEmpty())
+		if (!theDocument->GetAnimationLibrary()->IsEmpty() || theDocument->GetAnimationLibrary()->GetExtra()->HasContent())
 		{
 			animationLibraryNode = AddChild(colladaNode, DAE_LIBRARY_ANIMATION_ELEMENT);
 		}
@@ -900,7 +900,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 
 		// Export the extra libraries
-		if (theDocument->GetEmitterLibrary()->GetEntityCount() > 0)
+		if (theDocument->GetEmitterLibrary()->GetEntityCount() > 0 || theDocument->GetEmitterLibrary()->GetExtra()->HasContent())
 		{
 			xmlNode* typedExtraNode = AddChild(colladaNode, DAE_EXTRA_ELEMENT);
 			AddAttribute(typedExtraNode, DAE_TYPE_ATTRIBUTE, DAEFC_LIBRARIES_TYPE);
-- 
2.43.0


From 942b6c1a52169d47321c2e34ff3c3df0452a4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 048/205] fix: report failure when the file cannot be written

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 6c669fb..6a59a23 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -465,6 +465,7 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
 			if (!daeDocument.Write())
 			{
 				FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_WRITE_FILE, rootNode->line);
+				status = false;
 			}
 			else
 			{
-- 
2.43.0


From 00720a045724c7711811d4c4a807d093d6e5180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 049/205] fix: write the extra tree of plain instances, and of
 controller instances once

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index 9dafc27..7773f15 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -85,6 +85,12 @@ xmlNode* FArchiveXML::WriteEntityInstance(FCDObject* object, xmlNode* parentNode
 	fstring uriString = entityInstance->GetDocument()->GetFileManager()->CleanUri(uri);
 	AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, uriString);
 
+	// The specialized instances write their extra tree themselves, after their own elements.
+	if (entityInstance->GetObjectType() == FCDEntityInstance::GetClassType())
+	{
+		FArchiveXML::WriteEntityInstanceExtra(entityInstance, instanceNode);
+	}
+
 	return instanceNode;
 }
 
@@ -151,7 +157,6 @@ xmlNode* FArchiveXML::WriteControllerInstance(FCDObject* object, xmlNode* parent
 		AddContent(skeletonNode, builder);
 	}
 
-	FArchiveXML::WriteEntityInstanceExtra(controllerInstance, instanceNode);
 	return instanceNode;
 }
 
-- 
2.43.0


From ce97589f76d0ed4c0d1378111b953292cbc3e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 050/205] fix: keep every spline of a geometry when loading

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 79e1d5e..d777183 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -579,8 +579,12 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 		// get the spline type
 		FUDaeSplineType::Type splineType = FUDaeSplineType::FromString(ReadNodeContentFull(typeNode));
 
-		// The types must be compatible
-		if (!geometrySpline->SetType(splineType))
+		// The types must be compatible. Setting the type clears the splines already read.
+		if (geometrySpline->GetSplineCount() == 0)
+		{
+			geometrySpline->SetType(splineType);
+		}
+		else if (geometrySpline->GetType() != splineType)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VARYING_SPLINE_TYPE, splineNode->line);
 			return status;
-- 
2.43.0


From 31d9a31c6a812aa172a6ce4a9f23c86ae4c1e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 051/205] fix: write points one <p> element per face, as they
 are read

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 0817dba..7825ec9 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -169,7 +169,7 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	case FCDGeometryPolygons::LINE_STRIPS: hasHoles = true; polygonNodeType = DAE_LINESTRIPS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_FANS: hasHoles = true; polygonNodeType = DAE_TRIFANS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_STRIPS: hasHoles = true; polygonNodeType = DAE_TRISTRIPS_ELEMENT; break;
-	case FCDGeometryPolygons::POINTS: polygonNodeType = DAE_POINTS_ELEMENT; break;
+	case FCDGeometryPolygons::POINTS: hasHoles = true; polygonNodeType = DAE_POINTS_ELEMENT; break;
 	default: polygonNodeType = emptyCharString; FUFail(break); break;
 	}
 	xmlNode* polygonsNode = AddChild(parentNode, polygonNodeType);
-- 
2.43.0


From 7be5b23ca78586d1d2ff117380dd71927c04dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 052/205] fix: count the lines of every face of a lines polygon
 set

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 7825ec9..4352c87 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -299,7 +299,11 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	size_t primitiveCount = geometryPolygons->GetFaceCount();
 	if (geometryPolygons->GetPrimitiveType() == FCDGeometryPolygons::LINES && primitiveCount > 0)
 	{
-		primitiveCount = geometryPolygons->GetFaceVertexCount(0) / 2;
+		primitiveCount = 0;
+		for (size_t faceIndex = 0; faceIndex < faceCount; ++faceIndex)
+		{
+			primitiveCount += geometryPolygons->GetFaceVertexCount(faceIndex) / 2;
+		}
 	}
 	AddAttribute(polygonsNode, DAE_COUNT_ATTRIBUTE, primitiveCount);
 
-- 
2.43.0


From 4b2c89902493a02c85ef94fbec4e793e991b422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 053/205] fix: write the point size and point rotation sources

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 4352c87..8987a9b 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -40,6 +40,8 @@ xmlNode* FArchiveXML::WriteGeometrySource(FCDObject* object, xmlNode* parentNode
 	case FUDaeGeometryInput::TEXBINORMAL: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, FUDaeAccessor::XYZW); break;
 	case FUDaeGeometryInput::UV: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, FUDaeAccessor::XYZW); break;
 	case FUDaeGeometryInput::COLOR: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, FUDaeAccessor::RGBA); break;
+	case FUDaeGeometryInput::POINT_SIZE:
+	case FUDaeGeometryInput::POINT_ROTATION:
 	case FUDaeGeometryInput::EXTRA: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, NULL); break;
 	case FUDaeGeometryInput::UNKNOWN: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, NULL); break;
 
-- 
2.43.0


From f0dcdc086543826c62dfdf49ad787a9e567d0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 054/205] fix: read the per-vertex inputs of polygons at the
 offset the file gives

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index d777183..81641b3 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -316,6 +316,7 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 					FCDGeometrySource* vertexSource = geometryPolygons->GetParent()->GetVertexSource(i);
 					FCDGeometryPolygonsInput* vertexInput = geometryPolygons->FindInput(vertexSource);
 					if (vertexInput == NULL) vertexInput = geometryPolygons->AddInput(vertexSource, offset);
+					else vertexInput->SetOffset(offset);
 					if (idxOwners[offset] == NULL) idxOwners[offset] = vertexInput;
 					vertexInput->SetSet(set);
 				}
-- 
2.43.0


From 48df51495bddb7e13b2d203f009cfafb8670c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 055/205] fix: keep the reference of a convex hull to its mesh
 when loading

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 337d22f..149c90e 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -574,7 +574,9 @@ bool FArchiveXML::LinkGeometryMesh(FCDGeometryMesh* geometryMesh)
 		FCDGeometryMesh* origMesh = concaveGeom->GetMesh();
 		if (origMesh != NULL)
 		{
+			fm::string convexHullOf = geometryMesh->GetConvexHullOf();
 			origMesh->Clone(geometryMesh);
+			geometryMesh->SetConvexHullOf(convexHullOf); // overwritten by clone
 			geometryMesh->SetConvexify(geometryMesh != NULL);
 			geometryMesh->SetConvex(true); // may have been overwritten by clone
 		}
-- 
2.43.0


From 91b99fa8f66b08d671c316b3238984b796bbc7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 056/205] fix: return a zero vector, not an uninitialised one,
 for an empty text

---
 FCollada/FUtils/FUStringConversion.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 2e7d7ab..cb07bb7 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -216,7 +216,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToDateTime(const CH* value, FUDateTime&
 template<class CH>
 FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 {
-	FMVector2 p;
+	FMVector2 p = FMVector2::Zero;
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -228,7 +228,7 @@ FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 {
-	FMVector3 p;
+	FMVector3 p = FMVector3::Zero;
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -241,7 +241,7 @@ FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector4 FUStringConversion::ToVector4(const CH** value)
 {
-	FMVector4 p;
+	FMVector4 p = FMVector4::Zero;
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
-- 
2.43.0


From ebd446682c25ae2f14d8cd043236f2b7d05093a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 057/205] fix: keep the defaults of a surface for the values
 its document does not give

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 84a26c5..9411cb0 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -656,13 +656,13 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 	}
 
 	xmlNode* sizeNode = FindChildByType(surfaceNode, DAE_SIZE_ELEMENT);
-	effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
+	if (sizeNode != NULL) effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
 	xmlNode* viewportRatioNode = FindChildByType(surfaceNode, DAE_VIEWPORT_RATIO);
-	effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
+	if (viewportRatioNode != NULL) effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
 	xmlNode* mipLevelsNode = FindChildByType(surfaceNode, DAE_MIP_LEVELS);
-	effectParameterSurface->SetMipLevelCount((uint16) FUStringConversion::ToInt32(ReadNodeContentDirect(mipLevelsNode)));
+	if (mipLevelsNode != NULL) effectParameterSurface->SetMipLevelCount((uint16) FUStringConversion::ToInt32(ReadNodeContentDirect(mipLevelsNode)));
 	xmlNode* mipmapGenerateNode = FindChildByType(surfaceNode, DAE_MIPMAP_GENERATE);
-	effectParameterSurface->SetGenerateMipMaps(FUStringConversion::ToBoolean(ReadNodeContentDirect(mipmapGenerateNode)));
+	if (mipmapGenerateNode != NULL) effectParameterSurface->SetGenerateMipMaps(FUStringConversion::ToBoolean(ReadNodeContentDirect(mipmapGenerateNode)));
 
 	xmlNode* formatNode = FindChildByType(surfaceNode, DAE_FORMAT_ELEMENT);
 	if (formatNode)
-- 
2.43.0


From 7cc53bbb034bbdae14aaaf143201aa7f5bba4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 058/205] fix: keep the images of all the init_from elements of
 a surface

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 9411cb0..7074af2 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -468,16 +468,19 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 			effectParameterSurface->SetInitMethod(new FCDEffectParameterSurfaceInitFrom());
 
 		FCDEffectParameterSurfaceInitFrom* ptrInit = (FCDEffectParameterSurfaceInitFrom*)effectParameterSurface->GetInitMethod();
-		//StringList names;
-		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), effectParameterSurface->GetNames());
-
-		if (effectParameterSurface->GetNames().size() == 0 || effectParameterSurface->GetNames()[0].empty())
+		StringList names;
+		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), names);
+		if (names.empty() || names[0].empty())
 		{
-			effectParameterSurface->GetNames().clear();
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_EMPTY_INIT_FROM, surfaceNode->line);
 		}
 
-		if (effectParameterSurface->GetNames().size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
+		else
+		{
+			effectParameterSurface->GetNames().insert(effectParameterSurface->GetNames().end(), names.begin(), names.end());
+		}
+
+		if (names.size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
 		{
 			if (HasNodeProperty(*it, DAE_MIP_ATTRIBUTE))
 			{
-- 
2.43.0


From aa95f9f33e29f6793ad72bb28a20104c6fa67b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 059/205] fix: write whether a surface generates its mip-maps

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 3fde6c9..d6af916 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -475,6 +475,11 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 		xmlNode* mipmapLevelsNode = AddChild(surfaceNode, DAE_MIP_LEVELS);
 		AddContent(mipmapLevelsNode, FUStringConversion::ToString(effectParameterSurface->GetMipLevelCount()));
 	}
+	if (effectParameterSurface->IsGenerateMipMaps())
+	{
+		xmlNode* mipmapGenerateNode = AddChild(surfaceNode, DAE_MIPMAP_GENERATE);
+		AddContent(mipmapGenerateNode, FUStringConversion::ToString(effectParameterSurface->IsGenerateMipMaps()));
+	}
 
 	return parameterNode;
 }
-- 
2.43.0


From 9b71438778475baa89375648f18f46e625684a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 060/205] fix: write the textures of the specular level and
 emission factor channels

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index d6af916..21eeb9b 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -939,7 +939,7 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAE_SHININESS_MATERIAL_PARAMETER, effectStandard->GetShininessParam(), FUDaeTextureChannel::SHININESS);
 			}
-			if (effectStandard->GetSpecularFactor() != 1.0f)
+			if (effectStandard->GetSpecularFactor() != 1.0f || effectStandard->GetTextureCount(FUDaeTextureChannel::SPECULAR_LEVEL) > 0)
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_SPECLEVEL_MATERIAL_PARAMETER, effectStandard->GetSpecularFactorParam(), FUDaeTextureChannel::SPECULAR_LEVEL);
 			}
@@ -971,7 +971,7 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 	}
 	if (effectStandard->IsEmissionFactor())
 	{
-		FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_EMISSIONLEVEL_MATERIAL_PARAMETER, effectStandard->GetEmissionFactorParam(), FUDaeTextureChannel::UNKNOWN);
+		FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_EMISSIONLEVEL_MATERIAL_PARAMETER, effectStandard->GetEmissionFactorParam(), FUDaeTextureChannel::EMISSION);
 	}
 	if (effectStandard->GetTextureCount(FUDaeTextureChannel::DISPLACEMENT) > 0)
 	{
-- 
2.43.0


From 205739645ba529fb32afb7685356ff681e4fc161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 061/205] fix: accept the positions within the list in
 FCDEffectParameterSurface::AddImage

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 11d201c..25c1fd0 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -72,7 +72,7 @@ size_t FCDEffectParameterSurface::AddImage(FCDImage* image, size_t index)
 		}
 		else
 		{
-			FUAssert(index > images.size(), return (size_t) ~0);
+			FUAssert(index <= images.size(), return (size_t) ~0);
 			images.insert(index, image);
 		}
 		SetNewChildFlag();
-- 
2.43.0


From 30d65f84ab8b16815a95a3f45c03598bdde6d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 062/205] fix: do not create a sampler when saving a texture
 that has none

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 21eeb9b..8fcf98c 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -1056,13 +1056,14 @@ xmlNode* FArchiveXML::WriteEffect(FCDObject* object, xmlNode* parentNode)
 
 xmlNode* FArchiveXML::WriteTexture(FCDObject* object, xmlNode* parentNode)
 {
-	FCDTexture* texture = (FCDTexture*)object;
+	// Read-only access: the non-const accessors of the texture create the missing sampler.
+	const FCDTexture* texture = (const FCDTexture*)object;
 
 	// Create the <texture> element
 	xmlNode* textureNode = AddChild(parentNode, DAE_TEXTURE_ELEMENT);
 	AddAttribute(textureNode, DAE_FXSTD_TEXTURE_ATTRIBUTE, (texture->GetSampler() != NULL) ? texture->GetSampler()->GetReference() : "");
 	AddAttribute(textureNode, DAE_FXSTD_TEXTURESET_ATTRIBUTE, (texture->GetSet() != NULL) ? texture->GetSet()->GetSemantic() : "");
-	FArchiveXML::LetWriteObject(texture->GetExtra(), textureNode);
+	FArchiveXML::LetWriteObject(((FCDTexture*) object)->GetExtra(), textureNode);
 	return textureNode;
 }
 
-- 
2.43.0


From 217a4ae2c51221477732c1be41531481b52d3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 063/205] fix: clone the type of a surface

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 25c1fd0..b6f0f1a 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -160,6 +160,7 @@ FCDEffectParameter* FCDEffectParameterSurface::Clone(FCDEffectParameter* _clone)
 			initMethod->Clone(clone->initMethod);
 		}
 
+		clone->type = type;
 		clone->size = size;
 		clone->viewportRatio = viewportRatio;
 		clone->mipLevelCount = mipLevelCount;
-- 
2.43.0


From 51750b9394e7e28096951e61bc51cc4949bee4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 064/205] fix: do not report the asset information of an effect
 as an unknown element

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 7074af2..c2b485c 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -1486,7 +1486,7 @@ bool FArchiveXML::LoadEffect(FCDObject* object, xmlNode* effectNode)
 			FCDEffectParameter* parameter = effect->AddEffectParameter(FArchiveXML::GetEffectParameterType(child));
 			status &= FArchiveXML::LoadSwitch(parameter, &parameter->GetObjectType(), child);
 		}
-		else if (IsEquivalent(child->name, DAE_EXTRA_ELEMENT)) {} // processed by FCDEntity.
+		else if (IsEquivalent(child->name, DAE_EXTRA_ELEMENT) || IsEquivalent(child->name, DAE_ASSET_ELEMENT)) {} // processed by FCDEntity.
 		else
 		{
 			// Check for a valid profile element.
-- 
2.43.0


From 5f6f696bb085ce38045225d661889258e6af67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 065/205] fix: write a specular factor of one that is animated
 or refers to a parameter

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 8fcf98c..d733a3a 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -939,7 +939,8 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAE_SHININESS_MATERIAL_PARAMETER, effectStandard->GetShininessParam(), FUDaeTextureChannel::SHININESS);
 			}
-			if (effectStandard->GetSpecularFactor() != 1.0f || effectStandard->GetTextureCount(FUDaeTextureChannel::SPECULAR_LEVEL) > 0)
+			if (effectStandard->GetSpecularFactor() != 1.0f || effectStandard->GetTextureCount(FUDaeTextureChannel::SPECULAR_LEVEL) > 0
+				|| !effectStandard->GetSpecularFactorParam()->IsConstant() || effectStandard->GetSpecularFactorParam()->GetValue().IsAnimated())
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_SPECLEVEL_MATERIAL_PARAMETER, effectStandard->GetSpecularFactorParam(), FUDaeTextureChannel::SPECULAR_LEVEL);
 			}
-- 
2.43.0


From 0ead94136ed6604d54a0ab95122825e1f0b39c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 066/205] fix: link morph controllers to the controllers they
 are based on

---
 .../FArchiveXML/FAXImportLinking.cpp          | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 149c90e..d07b7d1 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -521,13 +521,17 @@ bool FArchiveXML::LinkController(FCDController* controller)
 			ret &= FArchiveXML::LinkMorphController(controller->GetMorphController());
 		}
 		else return false;
+	}
 
-		// If our target is a controller, link it too.
-		FCDEntity* entity = controller->GetBaseTarget();
-		if (entity != NULL && entity->GetType() == FCDEntity::CONTROLLER)
-		{
-			ret &= FArchiveXML::LinkController((FCDController*)entity);
-		}
+	// If our target is a controller, link it too, as well as the controllers it is based on.
+	fm::pvector<FCDController> linked;
+	FCDEntity* entity = controller->GetBaseTarget();
+	while (entity != NULL && entity->GetType() == FCDEntity::CONTROLLER && !linked.contains((FCDController*)entity))
+	{
+		FCDController* base = (FCDController*)entity;
+		linked.push_back(base);
+		if (base->GetBaseTarget() == NULL) ret &= FArchiveXML::LinkController(base);
+		entity = base->GetBaseTarget();
 	}
 	return ret;
 }
@@ -547,8 +551,18 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 	if (morphController->GetBaseTarget() == NULL)
 	{
 		fm::string targetId = SkipPound(data.targetId);
+		data.targetId.clear();
 		FCDEntity* baseTarget = morphController->GetDocument()->FindGeometry(targetId);
-		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(data.targetId);
+		if (baseTarget == NULL)
+		{
+			FCDController* baseController = morphController->GetDocument()->FindController(targetId);
+			if (baseController != NULL)
+			{
+				// The base geometry is only known once the base controller is linked.
+				FArchiveXML::LinkController(baseController);
+				baseTarget = baseController;
+			}
+		}
 		if (baseTarget == NULL)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_MC_BASE_TARGET_MISSING, 0);
@@ -556,8 +570,6 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 		}
 
 		morphController->SetBaseTarget(baseTarget);
-
-		data.targetId.clear();
 	}
 	return true;
 }
-- 
2.43.0


From 72baadaf8daee316b5824315140c48fbee1fc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 067/205] fix: write only the interpolations of the keys of a
 curve

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 45aeabf..efb8994 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -404,7 +404,7 @@ void FArchiveXML::WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve
 	// Export the data arrays.
 	xmlNode* sourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, parameter);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
@@ -606,7 +606,7 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	// Export the data arrays
 	xmlNode* inputSourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, animationMultiCurve->GetDimension(), parameters);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
-- 
2.43.0


From 7d58015524e2f994ce94a876d01eb24ccee53a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 068/205] fix: release the qualifiers buffer used to write
 merged curves

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index efb8994..49e1e61 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -111,6 +111,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		FArchiveXML::WriteSamplerFCDAnimationMultiCurve(multiCurve, parentNode, baseId);
 		FArchiveXML::WriteChannelFCDAnimationMultiCurve(multiCurve, parentNode, baseId, data.targetPointer);
 		SAFE_RELEASE(multiCurve);
+		SAFE_DELETE_ARRAY(qualifiers);
 	}
 	else
 	{
-- 
2.43.0


From 337f5d9b0a8a22b55160ba170466cc81812a4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 069/205] fix: do not merge the curves of a value whose other
 components are animated by another channel

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 49e1e61..4b59bc7 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -87,6 +87,14 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		}
 	}
 
+	// The merged curves provide every component: leave alone the components that are animated by another channel.
+	for (size_t dv = 0; dv < mergingCurves.size() && mergeCurves; ++dv)
+	{
+		if (mergingCurves[dv] == NULL && data.animatedValue != NULL && dv < data.animatedValue->GetValueCount())
+		{
+			mergeCurves &= data.animatedValue->GetCurves()[dv].empty();
+		}
+	}
 	if (mergeCurves && realCurveCount > 1)
 	{
 		// Prepare the list of default values
-- 
2.43.0


From c1c7953bc3cc98415538f9f4378dfa82724e3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 070/205] fix: archive the element or component that drives a
 curve

---
 .../FArchiveXML/FAXAnimationExport.cpp            | 15 ++++++++-------
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp  | 13 ++++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 4b59bc7..ac9e1a2 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -468,19 +468,20 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 	if (animationCurve->HasDriver())
 	{
 		FCDAnimatedDataMap::iterator it = FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.find(animationCurve->GetDriverPtr());
-		FUAssert(it != FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.end(),);
+		if (it == FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.end())
+		{
+			// The driver was not written out: it cannot be referenced.
+			FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_ANIM_CURVE_DRIVER_MISSING);
+			return samplerNode;
+		}
 		FCDAnimatedData& data = it->second;
-
 		FUSStringBuilder builder(data.pointer);
-		int32 driverElement = animationCurve->GetDriverIndex();
+		int32 driverElement = animationCurve->GetDriverPtr()->GetArrayElement();
+		if (driverElement < 0) driverElement = animationCurve->GetDriverIndex();
 		if (driverElement >= 0)
 		{
 			builder.append('('); builder.append(driverElement); builder.append(')');
 		}
-		if (animationCurve->GetDriverIndex() == 0)
-		{
-			builder.append('('); builder.append(animationCurve->GetDriverIndex()); builder.append(')');
-		}
 		AddInput(samplerNode, builder.ToCharPtr(), DAEMAYA_DRIVER_INPUT);
 	}
 
diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index d07b7d1..2e5c8b8 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -73,14 +73,21 @@ bool FArchiveXML::LinkDriver(FCDAnimationChannel* animationChannel, FCDAnimated*
 
 	bool driver = !data.driverPointer.empty();
 	driver &= animatedTargetPointer == data.driverPointer;
-	driver &= data.driverQualifier >= 0 && (uint32) data.driverQualifier < animated->GetValueCount();
+	int32 driverIndex = data.driverQualifier;
+	if (animated->GetArrayElement() >= 0)
+	{
+		// The qualifier selects the element of the list: such an element has one value.
+		driver &= driverIndex == animated->GetArrayElement();
+		driverIndex = 0;
+	}
+	driver &= driverIndex >= 0 && (uint32) driverIndex < animated->GetValueCount();
 	if (driver)
 	{
 		// Retrieve the value pointer for the driver
 		size_t curveCount = animationChannel->GetCurveCount();
 		for (size_t c = 0; c < curveCount; ++c)
 		{
-			animationChannel->GetCurve(c)->SetDriver(animated, data.driverQualifier);
+			animationChannel->GetCurve(c)->SetDriver(animated, driverIndex);
 		}
 	}
 	return driver;
@@ -98,7 +105,7 @@ bool FArchiveXML::LinkAnimation(FCDAnimation* animation)
 		FUAssert(it != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(), continue);
 		FCDAnimationChannelData& data = it->second;
 
-		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && channel->GetCurve(0)->HasDriver())
+		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && !channel->GetCurve(0)->HasDriver())
 		{
 			status &= FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_ANIM_CURVE_DRIVER_MISSING);
 		}
-- 
2.43.0


From 424090307902a06a94803f6b637f396f6ad89214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 071/205] fix: keep the curves and the instantiated animations
 of animation clips

---
 FCollada/FCDocument/FCDAnimationClip.h            |  7 ++++++-
 .../FArchiveXML/FAXAnimationExport.cpp            | 15 ++++++++++++++-
 .../FArchiveXML/FAXAnimationImport.cpp            |  9 +++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.h b/FCollada/FCDocument/FCDAnimationClip.h
index 8910592..c6a57f0 100644
--- a/FCollada/FCDocument/FCDAnimationClip.h
+++ b/FCollada/FCDocument/FCDAnimationClip.h
@@ -117,12 +117,17 @@ public:
     /** Retrieves the name of the animation at a given index.
         @param index The index of the animation.
         @return The name of the animation. */
-	inline fm::string GetAnimationName(size_t index) const { return names[index]; }
+	inline fm::string GetAnimationName(size_t index) const { return index < names.size() ? names[index] : fm::string(); }
 
     /** [INTERNAL] Adds an animation instance.
         @return The empty animation instance. */
 	FCDEntityInstance* AddInstanceAnimation();
 
+	/** Retrieves an animation instance of the clip.
+		@param index The index.
+		@return The animation instance. */
+	inline FCDEntityInstance* GetAnimationInstance(size_t index) { FUAssert(GetAnimationCount() > index, return NULL); return animations[index]; }
+
     /** [INTERNAL] Adds an animation instance.
         @param animation The animation to instance.
         @return The animation instance. */
diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index ac9e1a2..2cb7959 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -218,12 +218,25 @@ xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 	// Build a list of the animations to instantiate
 	// from the list of curves for this clip
 	typedef fm::pvector<const FCDAnimation> FCDAnimationConstList;
-	FCDAnimationConstList animations;
+	FCDAnimationConstList animations, instantiated;
+	// Write out the animations that are already instantiated
+	for (size_t i = 0; i < animationClip->GetAnimationCount(); ++i)
+	{
+		xmlNode* instanceNode = FArchiveXML::LetWriteObject(animationClip->GetAnimationInstance(i), clipNode);
+		if (!HasNodeProperty(instanceNode, DAE_NAME_ATTRIBUTE) && !animationClip->GetAnimationName(i).empty())
+		{
+			AddAttribute(instanceNode, DAE_NAME_ATTRIBUTE, animationClip->GetAnimationName(i));
+		}
+		if (animationClip->GetAnimation(i) != NULL) instantiated.push_back(animationClip->GetAnimation(i));
+	}
 	for (FCDAnimationCurveTrackList::iterator itC = animationClip->GetClipCurves().begin(); itC != animationClip->GetClipCurves().end(); ++itC)
 	{
 		const FCDAnimationChannel* channel = (*itC)->GetParent();
 		if (channel == NULL) continue;
 		const FCDAnimation* animation = channel->GetParent();
+		bool found = false;
+		for (const FCDAnimation* it = animation; it != NULL && !found; it = it->GetParent()) found = instantiated.contains(it);
+		if (found) continue;
 		if (animations.find(animation) == animations.end())
 		{
 			animations.push_back(animation);
diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 4cd4f3a..71d1f3f 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -465,6 +465,15 @@ bool FArchiveXML::LoadAnimationClip(FCDObject* object, xmlNode* clipNode)
 
 		fm::string name = ReadNodeProperty(*itI, DAE_NAME_ATTRIBUTE);
 		animationClip->SetAnimationName(name, animationClip->GetAnimationCount() - 1);
+		// The curves of the instantiated animation belong to the clip.
+		FCDAnimation* animation = (FCDAnimation*) animationInstance->GetEntity();
+		if (animation == NULL) continue;
+		FCDAnimationCurveList curves;
+		animation->GetCurves(curves);
+		for (FCDAnimationCurveList::iterator itC = curves.begin(); itC != curves.end(); ++itC)
+		{
+			if (!animationClip->GetClipCurves().contains(*itC)) animationClip->AddClipCurve(*itC);
+		}
 	}
 
 	// Check for an empty clip
-- 
2.43.0


From cf54fe766ced172432c9e70a67337ae360064d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 072/205] fix: do not read past the last key of an animation
 curve

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ad8c072..991bf8f 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -367,6 +367,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		if ((*it)->input >= input) break;
 	}
 	if (it == keys.begin()) return outputOffset + outputStart;
+	if (it == keys.end()) return outputOffset + outputEnd;
 
 	// Get the keys and values for this interval
 	const FCDAnimationKey* startKey = *(it - 1);
-- 
2.43.0


From 525ccce51e0300c9dc14966d8d805cfffa57d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 073/205] fix: an animation curve goes through its keys

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 991bf8f..4792dea 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -338,7 +338,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 	}
 
 	// Account for post-infinity mode
-	else if (input >= inputEnd)
+	else if (input > inputEnd)
 	{
 		float inputDifference = input - inputEnd;
 		switch (postInfinity)
@@ -368,6 +368,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 	}
 	if (it == keys.begin()) return outputOffset + outputStart;
 	if (it == keys.end()) return outputOffset + outputEnd;
+	if ((*it)->input == input) return outputOffset + (*it)->output;
 
 	// Get the keys and values for this interval
 	const FCDAnimationKey* startKey = *(it - 1);
-- 
2.43.0


From 26c7f456d46429308f5be78697e8f3fb0dacb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 074/205] fix: continue the slope of a curve before its first
 key

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 4792dea..084e3fe 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -329,7 +329,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (preInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
-		case FUDaeInfinity::LINEAR: return outputStart + inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
+		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; outputOffset -= cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input += cycleCount * 2.0f * inputSpan; input = inputEnd - fabsf(input - inputEnd); break; }
-- 
2.43.0


From a07558b9f21cacc6cf0c88f3d48bda4673b9b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 075/205] fix: evaluate a TCB segment with the times of its own
 keys

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 084e3fe..90730c5 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -456,7 +456,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			const FCDAnimationKey* nextKey = (it + 1) < keys.end() ? (*(it + 1)) : NULL;
 			ComputeTCBTangent(startKey, endKey, nextKey, tkey2->tension, tkey2->continuity, tkey2->bias, endTangent, tempTangent);
 			cy = endKey->output + endTangent.y; //Assuming the tangent is GOING from the point.
-			cx = endKey->output + endTangent.x;
+			cx = endKey->input + endTangent.x;
 		}
 		else if (endKey->interpolation == FUDaeInterpolation::BEZIER) {
 			FCDAnimationKeyBezier* tkey2 = (FCDAnimationKeyBezier*) endKey;
@@ -464,7 +464,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			cy = endTangent.y;
 			cx = endTangent.x;
 		}
-		float t = (input - inputStart) / inputInterval;
+		float t = (input - startKey->input) / inputInterval;
 		by = startKey->output - startTangent.y; //Assuming the tangent is GOING from the point.
 		bx = startKey->input - startTangent.x;
 
-- 
2.43.0


From 390f251d0a972141cc1b326a0ec6e981c9da16ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 076/205] fix: collapse the tangents of the keys rather than
 memory next to the key list

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index 3a5a08d..a12499a 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -233,8 +233,8 @@ namespace FCDAnimationCurveTools
 
 			if (outKeys[i]->interpolation == FUDaeInterpolation::BEZIER)
 			{
-				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys + i;
-				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys + i;
+				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys[i];
+				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys[i];
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->inTangent[j].v;
 				outBKey->inTangent = FMVector2(inBKey->inTangent[0].u, (*collapse)(buffer, (uint32) dimension));
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->outTangent[j].v;
-- 
2.43.0


From 4822ce05ded462dd5cc1919eb1b2101cdf635213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 077/205] fix: weigh the tangents of merged curves as those of
 single curves

---
 FCollada/FCDocument/FCDAnimationMultiCurve.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
index 513a714..7cb6372 100644
--- a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
@@ -148,10 +148,15 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 					float b = bkey1->outTangent[i].v;
 					float c = inTangent.v;
 					float ti = 1.0f - t;
-					float br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
-					float cr = inputInterval / (endKey->input - inTangent.u);
-					br = FMath::Clamp(br, 0.01f, 100.0f);
-					cr = FMath::Clamp(cr, 0.01f, 100.0f);
+					float br = 3.0f;
+					float cr = 3.0f;
+					if (!is2DEvaluation)
+					{
+						br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
+						cr = inputInterval / (endKey->input - inTangent.u);
+						br = FMath::Clamp(br, 0.01f, 100.0f);
+						cr = FMath::Clamp(cr, 0.01f, 100.0f);
+					}
 
 					output[i] = startKey->output[i] * ti * ti * ti + br* b * ti * ti * t + cr * c * ti * t * t + endKey->output[i] * t * t * t;
 				}
-- 
2.43.0


From a267391b6f668b2ab7e92e2503492bdbb8690abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 078/205] fix: evaluate a merged curve towards a straight key
 as a single curve does

---
 FCollada/FCDocument/FCDAnimationMultiCurve.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
index 7cb6372..f9faf9d 100644
--- a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
@@ -139,6 +139,16 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 				FCDAnimationMKeyBezier* bkey1 = (FCDAnimationMKeyBezier*) startKey;
 				for (uint32 i = 0; i < dimension; ++i)
 				{
+					if (endKey->interpolation == FUDaeInterpolation::LINEAR)
+					{
+						output[i] = startKey->output[i] + (input - startKey->input) / inputInterval * (endKey->output[i] - startKey->output[i]);
+						continue;
+					}
+					if (endKey->interpolation == FUDaeInterpolation::STEP || endKey->interpolation == FUDaeInterpolation::UNKNOWN)
+					{
+						output[i] = startKey->output[i];
+						continue;
+					}
 					FMVector2 inTangent;
 					if (endKey->interpolation == FUDaeInterpolation::BEZIER) inTangent = ((FCDAnimationMKeyBezier*) endKey)->inTangent[i];
 					else inTangent = FMVector2(endKey->input, 0.0f);
-- 
2.43.0


From f14144b92fd85d57a74a856a80d9f1b880c819cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 079/205] fix: a merged animation curve goes through its keys

---
 FCollada/FCDocument/FCDAnimationMultiCurve.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
index f9faf9d..7ff378f 100644
--- a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
@@ -102,7 +102,7 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 		// Linear search is more efficient on the last interval
 		for (it = start; it != terminate; ++it)
 		{
-			if ((*it)->input > input) break;
+				if ((*it)->input > input) break;
 		}
 
 		if (it == keys.end())
@@ -121,6 +121,11 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 		{
 			// Get the keys and values for this interval
 			const FCDAnimationMKey* startKey = *(it - 1);
+			if (startKey->input == input)
+			{
+				for (uint32 i = 0; i < dimension; ++i) output[i] = startKey->output[i];
+				return;
+			}
 			const FCDAnimationMKey* endKey = *it;
 			float inputInterval = endKey->input - startKey->input;
 
-- 
2.43.0


From 7abed6bd416b8dfcf1d7ff52ff8788772dc23400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 080/205] fix: do not look up the import information of
 channels that were not imported

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 2 +-
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 71d1f3f..4e6d44e 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -634,7 +634,7 @@ void FArchiveXML::FindAnimationChannels(FCDAnimation* animation, const fm::strin
 	for (size_t i = 0; i < animation->GetChannelCount(); ++i)
 	{
 		FCDAnimationChannelDataMap::iterator itChannelData = FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.find(animation->GetChannel(i));
-		FUAssert(itChannelData != FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.end(),);
+		if (itChannelData == FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.end()) continue; // not an imported channel
 		FCDAnimationChannelData& channelData = itChannelData->second;
 
 		if (channelData.targetPointer == pointer)
diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 2e5c8b8..6e063b3 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -68,7 +68,7 @@ bool FArchiveXML::LinkDriver(FCDAnimation* animation, FCDAnimated* animated, con
 bool FArchiveXML::LinkDriver(FCDAnimationChannel* animationChannel, FCDAnimated* animated, const fm::string& animatedTargetPointer)
 {
 	FCDAnimationChannelDataMap::iterator it = FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.find(animationChannel);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.end(),);
+	if (it == FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.end()) return false; // not an imported channel
 	FCDAnimationChannelData& data = it->second;
 
 	bool driver = !data.driverPointer.empty();
-- 
2.43.0


From 56f08ff6a3eb5a3dacc6f05b44bc71c129f99116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 081/205] fix: write the own material of a physics shape
 directly under the shape

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index b6b8444..bbb4a1b 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -38,8 +38,7 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 
 	if (physicsShape->OwnsPhysicsMaterial() && physicsShape->GetPhysicsMaterial())
 	{
-		xmlNode* materialNode = AddChild(physicsShapeNode, DAE_PHYSICS_MATERIAL_ELEMENT);
-		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), materialNode);
+		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), physicsShapeNode);
 	}
 	else if (physicsShape->GetInstanceMaterial())
 	{
-- 
2.43.0


From a461f81b319d53c388e47e83c11b025bdbb6df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 082/205] fix: write the equation of a physics plane in the
 order it is read

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index bbb4a1b..f5958cc 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -129,7 +129,7 @@ xmlNode* FArchiveXML::WritePASPlane(FCDObject* object, xmlNode* node)
 
 	xmlNode* geomNode = AddChild(node, DAE_PLANE_ELEMENT);
 	FMVector4 equation;
-	equation.w = pASPlane->normal.x; equation.x = pASPlane->normal.y; equation.y = pASPlane->normal.z; equation.z = pASPlane->d;
+	equation.x = pASPlane->normal.x; equation.y = pASPlane->normal.y; equation.z = pASPlane->normal.z; equation.w = pASPlane->d;
 	fm::string s = FUStringConversion::ToString(equation);
 	AddChild(geomNode, DAE_EQUATION_ELEMENT, s);
 	return geomNode;
-- 
2.43.0


From 67b592d4b50520b7414ee538115434acaee9b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 083/205] fix: read the springs of a rigid constraint where
 they are written

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 0f88407..1c0245a 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -838,7 +838,8 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 
-	xmlNode* spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT);
+	xmlNode* spring = FindChildByType(techniqueNode, DAE_SPRING_ELEMENT);
+	if (spring == NULL) spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT); // as older versions expected it
 	if (spring)
 	{
 		xmlNode* linearSpring = FindChildByType(spring, DAE_LINEAR_ELEMENT);
-- 
2.43.0


From 5debbe5b2c6e7697343e4953f227aa65e43593f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 084/205] fix: add force field instances to physics scenes and
 models without a force field

---
 FCollada/FCDocument/FCDPhysicsModelInstance.cpp | 3 ++-
 FCollada/FCDocument/FCDPhysicsScene.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
index adf13a7..7a7abbc 100644
--- a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
@@ -55,7 +55,8 @@ FCDPhysicsRigidConstraintInstance* FCDPhysicsModelInstance::AddRigidConstraintIn
 
 FCDPhysicsForceFieldInstance* FCDPhysicsModelInstance::AddForceFieldInstance(FCDForceField* forceField)
 {
-	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, forceField);
+	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity(forceField);
 	instances.push_back(instance);
 	SetNewChildFlag();
 	return (FCDPhysicsForceFieldInstance*)instance;
diff --git a/FCollada/FCDocument/FCDPhysicsScene.cpp b/FCollada/FCDocument/FCDPhysicsScene.cpp
index 15ddf3c..aec3748 100644
--- a/FCollada/FCDocument/FCDPhysicsScene.cpp
+++ b/FCollada/FCDocument/FCDPhysicsScene.cpp
@@ -81,7 +81,8 @@ FCDPhysicsForceFieldInstance* FCDPhysicsScene::AddForceFieldInstance(FCDForceFie
 {
 	FCDPhysicsForceFieldInstance* instance = (FCDPhysicsForceFieldInstance*)
 			FCDEntityInstanceFactory::CreateInstance(
-					GetDocument(), (FCDSceneNode*) NULL, forceField);
+					GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity(forceField);
 	forceFieldInstances.push_back(instance);
 	SetNewChildFlag();
 	return instance;
-- 
2.43.0


From 4ccbeb0752a3c2d2ba86f6618ff8e3a12e906573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 085/205] fix: keep the order and the sub-ids of the transforms
 of rigid constraints

---
 .../FArchiveXML/FAXPhysicsImport.cpp          | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 1c0245a..29b3848 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -720,17 +720,17 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 
 	physicsRigidConstraint->SetSubId(FUDaeParser::ReadNodeSid(physicsRigidConstraintNode));
 
-#define PARSE_TRANSFORM(node, className, nodeName, transforms) { \
-	xmlNodeList transformNodes; \
-	FindChildrenByType(node, nodeName, transformNodes); \
-	for (xmlNodeList::iterator itT = transformNodes.begin(); itT != transformNodes.end(); ++itT) \
+#define PARSE_TRANSFORMS(node, addFunction) { \
+	for (xmlNode* child = (node != NULL) ? node->children : NULL; child != NULL; child = child->next) \
 	{ \
-		if (IsEquivalent((*itT)->name, nodeName)) { \
-			className* transform = new className(physicsRigidConstraint->GetDocument(), NULL); \
-			transforms.push_back(transform); \
-			status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), *itT); \
-			if (!status) { \
-				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, (*itT)->line);} \
+		if (child->type != XML_ELEMENT_NODE) continue; \
+		uint32 transformType = FArchiveXML::GetTransformType(child); \
+		if (transformType != FCDTransform::TRANSLATION && transformType != FCDTransform::ROTATION) continue; \
+		FCDTransform* transform = physicsRigidConstraint->addFunction((FCDTransform::Type) transformType); \
+		transform->SetSubId(FUDaeParser::ReadNodeSid(child)); \
+		if (!FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), child)) { \
+			status = false; \
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, child->line); \
 		} \
 	}  }
 
@@ -753,8 +753,7 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 	// Parse the node's transforms: <rotate>, <translate>
-	PARSE_TRANSFORM(referenceBodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
-	PARSE_TRANSFORM(referenceBodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
+	PARSE_TRANSFORMS(referenceBodyNode, AddTransformRef)
 
 	// target body
 	xmlNode* bodyNode = FindChildByType(physicsRigidConstraintNode, DAE_ATTACHMENT_ELEMENT);
@@ -773,10 +772,8 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 	// Parse the node's transforms: <rotate>, <scale>, <translate>
-	PARSE_TRANSFORM(bodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
-	PARSE_TRANSFORM(bodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
-
-#undef PARSE_TRANSFORM
+	PARSE_TRANSFORMS(bodyNode, AddTransformTar)
+#undef PARSE_TRANSFORMS
 
 	//technique_common
 	xmlNode* techniqueNode = FindChildByType(physicsRigidConstraintNode, DAE_TECHNIQUE_COMMON_ELEMENT);
-- 
2.43.0


From 5810fe03027401ba167e9269660bf59341c79d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 086/205] fix: read the sub-ids of the transforms of physics
 shapes

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 29b3848..aeb10d0 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -338,6 +338,7 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 			if (transformType == FCDTransform::TRANSLATION || transformType == FCDTransform::ROTATION)
 			{
 				FCDTransform* transform = physicsShape->AddTransform((FCDTransform::Type) transformType);
+				transform->SetSubId(FUDaeParser::ReadNodeSid(child));
 				status &= (FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), child));
 			}
 		}
-- 
2.43.0


From e29902b4012edd47080aa5e2e2bc0cecf75eadda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 087/205] fix: write the mass and the density of a physics
 shape when they are zero

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index f5958cc..40a3f51 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -31,9 +31,9 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 	xmlNode* physicsShapeNode = AddChild(parentNode, DAE_SHAPE_ELEMENT);
 
 	AddChild(physicsShapeNode, DAE_HOLLOW_ELEMENT, physicsShape->IsHollow()?"true":"false");
-	if (physicsShape->GetMass() && !physicsShape->IsDensityMoreAccurate())
+	if (physicsShape->GetMassPointer() != NULL && !physicsShape->IsDensityMoreAccurate())
 		AddChild(physicsShapeNode, DAE_MASS_ELEMENT, FUStringConversion::ToString(physicsShape->GetMass()));
-	if (physicsShape->GetDensity())
+	if (physicsShape->GetDensityPointer() != NULL)
 		AddChild(physicsShapeNode, DAE_DENSITY_ELEMENT, FUStringConversion::ToString(physicsShape->GetDensity()));
 
 	if (physicsShape->OwnsPhysicsMaterial() && physicsShape->GetPhysicsMaterial())
-- 
2.43.0


From f73c63efa0f77dde72c34d089b42f01891a9845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 088/205] fix: keep the library material of physics shapes

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 5 +++++
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 40a3f51..9faf154 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -44,6 +44,11 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 	{
 		FArchiveXML::LetWriteObject(physicsShape->GetInstanceMaterial(), physicsShapeNode);
 	}
+	else if (physicsShape->GetPhysicsMaterial() != NULL)
+	{
+		xmlNode* instanceNode = AddChild(physicsShapeNode, DAE_INSTANCE_PHYSICS_MATERIAL_ELEMENT);
+		AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, fm::string("#") + physicsShape->GetPhysicsMaterial()->GetDaeId());
+	}
 
 	if (physicsShape->GetGeometryInstance())
 		FArchiveXML::LetWriteObject(physicsShape->GetGeometryInstance(), physicsShapeNode);
diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index aeb10d0..ee633b7 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -292,6 +292,15 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 				FArchiveXML::LoadPhysicsMaterial(material, child);
 				physicsShape->GetInstanceMaterial()->SetEntity(material);
 			}
+			else
+			{
+				FCDEntity* material = physicsShape->GetInstanceMaterial()->GetEntity();
+				if (material == NULL)
+				{
+					FUError::Error(FUError::ERROR_LEVEL, FUError::WARNING_MISSING_URI_TARGET, child->line);
+				}
+				physicsShape->SetPhysicsMaterial((FCDPhysicsMaterial*) material);
+			}
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_GEOMETRY_ELEMENT))
 		{
-- 
2.43.0


From c0d76c33713e923c2e706cedf4d068512c71cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 089/205] fix: load the instances of a physics model in the
 order of the file

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 8 ++++----
 FColladaPlugins/FArchiveXML/FAXStructures.h      | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index ee633b7..c004a95 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -233,12 +233,12 @@ bool FArchiveXML::AttachModelInstancesFCDPhysicsModel(FCDPhysicsModel* physicsMo
 	FUAssert(it != FArchiveXML::documentLinkDataMap[physicsModel->GetDocument()].physicsModelDataMap.end(),);
 	FCDPhysicsModelData& data = it->second;
 
-	for (ModelInstanceNameNodeMap::iterator it = data.modelInstancesMap.begin(); it != data.modelInstancesMap.end(); ++it)
+	for (xmlNodeList::iterator itN = data.modelInstanceNodes.begin(); itN != data.modelInstanceNodes.end(); ++itN)
 	{
 		FCDPhysicsModelInstance* instance = physicsModel->AddPhysicsModelInstance();
-		status &= FArchiveXML::LoadPhysicsModelInstance(instance, it->first);
+		status &= FArchiveXML::LoadPhysicsModelInstance(instance, *itN);
 	}
-	data.modelInstancesMap.clear();
+	data.modelInstanceNodes.clear();
 	return status;
 }
 
@@ -679,7 +679,7 @@ bool FArchiveXML::LoadPhysicsModel(FCDObject* object, xmlNode* physicsModelNode)
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_PHYSICS_MODEL_ELEMENT))
 		{
-			data.modelInstancesMap.insert(child, ReadNodeUrl(child));
+			data.modelInstanceNodes.push_back(child);
 		}
 	}
 
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 01284d4..dee6c0e 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -173,10 +173,9 @@ typedef fm::map<FCDAnimation*, FCDAnimationData> FCDAnimationDataMap;
 //
 // For FCDPhysicsModel
 //
-typedef fm::map<xmlNode*, FUUri> ModelInstanceNameNodeMap;
 struct FCDPhysicsModelData
 {
-	ModelInstanceNameNodeMap modelInstancesMap;
+	xmlNodeList modelInstanceNodes; // import-only. In the order of the file.
 };
 typedef fm::map<FCDPhysicsModel*, FCDPhysicsModelData> FCDPhysicsModelDataMap;
 
-- 
2.43.0


From 33362b73ddb87fd3ffb29a14020d2ea15fc1dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 090/205] fix: write the animation of the mass frame
 orientation of rigid bodies

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 9faf154..9230d7c 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -303,7 +303,11 @@ void FArchiveXML::WritePhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 	xmlNode* massFrameNode = AddChild(techniqueNode, DAE_MASS_FRAME_ELEMENT);
 	FArchiveXML::AddPhysicsParameter(massFrameNode, DAE_TRANSLATE_ELEMENT, physicsRigidBodyParameters->GetMassFrameTranslate());
 	FMVector4 massFrameRotate(physicsRigidBodyParameters->GetMassFrameRotateAxis(), physicsRigidBodyParameters->GetMassFrameRotateAngle());
-	AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	xmlNode* massFrameRotateNode = AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	if (physicsRigidBodyParameters->GetMassFrameOrientation().IsAnimated())
+	{
+		FArchiveXML::WriteAnimatedValue(&physicsRigidBodyParameters->GetMassFrameOrientation(), massFrameRotateNode, DAE_ROTATE_ELEMENT);
+	}
 	if (physicsRigidBodyParameters->IsInertiaAccurate())
 	{
 		FArchiveXML::AddPhysicsParameter(techniqueNode, DAE_INERTIA_ELEMENT, physicsRigidBodyParameters->GetInertia());
-- 
2.43.0


From 506fa4a655dbd7125ed696c8e2c4622d54501fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 091/205] fix: do not report the rigid bodies and constraints
 of physics model instances as missing

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 46afd30..a111d91 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -36,7 +36,8 @@ bool FArchiveXML::LoadEntityInstance(FCDObject* object, xmlNode* instanceNode)
 
 	FUUri uri = ReadNodeUrl(instanceNode);
 	entityInstance->GetEntityReference()->SetUri(uri);
-	if (!entityInstance->IsExternalReference() && entityInstance->GetEntity() == NULL)
+	bool addressedBySid = entityInstance->GetEntityType() == FCDEntity::PHYSICS_RIGID_BODY || entityInstance->GetEntityType() == FCDEntity::PHYSICS_RIGID_CONSTRAINT; // these have no url
+	if (!addressedBySid && !entityInstance->IsExternalReference() && entityInstance->GetEntity() == NULL)
 	{
 		FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INST_ENTITY_MISSING, instanceNode->line);
 	}
-- 
2.43.0


From de5aba5871bc5af8c63df28d730a2812f7f209a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 092/205] fix: read the animations of the velocities of rigid
 body instances

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index a111d91..a7f5cf6 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -326,6 +326,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	{
 		physicsRigidBodyInstance->SetAngularVelocity(FUStringConversion::ToVector3(
 				ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetAngularVelocity(), param);
 	}
 	else
 	{
@@ -336,6 +337,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	if (param != NULL)
 	{
 		physicsRigidBodyInstance->SetVelocity(FUStringConversion::ToVector3(ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetVelocity(), param);
 	}
 	else
 	{
-- 
2.43.0


From 52e372603573c461446cec21b374d4f6dcd738d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 093/205] fix: tell the animated values of a rigid constraint
 apart

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 9230d7c..4bb0a6d 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -228,14 +228,12 @@ xmlNode* FArchiveXML::WritePhysicsRigidConstraint(FCDObject* object, xmlNode* pa
 	xmlNode* enabledNode = AddChild(baseNode, DAE_ENABLED_ELEMENT, physicsRigidConstraint->GetEnabled());
 	if (physicsRigidConstraint->GetEnabled().IsAnimated())
 	{
-		FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetEnabled(), enabledNode,
-			!physicsRigidConstraint->GetSubId().empty() ? physicsRigidConstraint->GetSubId().c_str() : "constrain");
+		FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetEnabled(), enabledNode, "enabled");
 	}
 	xmlNode* interpenetrateNode = AddChild(baseNode, DAE_INTERPENETRATE_ELEMENT, physicsRigidConstraint->GetInterpenetrate());
 	if (physicsRigidConstraint->GetInterpenetrate().IsAnimated())
 	{
-		FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetInterpenetrate(), interpenetrateNode,
-			!physicsRigidConstraint->GetSubId().empty() ? physicsRigidConstraint->GetSubId().c_str() : "interpenetrate");
+		FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetInterpenetrate(), interpenetrateNode, "interpenetrate");
 	}
 	xmlNode* limitsNode = AddChild(baseNode, DAE_LIMITS_ELEMENT);
 
-- 
2.43.0


From 67ce4ab113a0429f55c20fa7d5c9d2067e2d8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 094/205] fix: calculate the volume of physics shapes over
 meshes whose positions are not triples

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index ad60a08..45d7f27 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -211,9 +211,10 @@ float FCDPhysicsShape::CalculateVolume() const
 			{
 				const FCDGeometryPolygons* polygons = mesh->GetPolygons(i);
 				const FCDGeometryPolygonsInput* positionInput = polygons->FindInput(FUDaeGeometryInput::POSITION);
-				const FCDGeometrySource* positionSource = positionInput->GetSource();
+				const FCDGeometrySource* positionSource = (positionInput != NULL) ? positionInput->GetSource() : NULL;
+				if (positionSource == NULL) continue;
 				uint32 positionStride = positionSource->GetStride();
-				FUAssert(positionStride == 3, continue;);
+				if (positionStride < 3) continue;
 				const float* positionData = positionSource->GetData();
 				size_t positionDataLength = positionSource->GetDataCount();
 				for (size_t pos = 0; pos < positionDataLength;)
-- 
2.43.0


From 314e30a992010ea6100df401bdcc1840090d03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 095/205] fix: leave the extra trees of a saved document as
 they were

---
 .../FArchiveXML/FAXLightExport.cpp            |  6 ++--
 .../FArchiveXML/FAXSceneExport.cpp            | 28 ++++++++++++++-----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXLightExport.cpp b/FColladaPlugins/FArchiveXML/FAXLightExport.cpp
index 666268a..523144a 100644
--- a/FColladaPlugins/FArchiveXML/FAXLightExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXLightExport.cpp
@@ -33,7 +33,9 @@ xmlNode* FArchiveXML::WriteLight(FCDObject* object, xmlNode* parentNode)
 
 	// Add the application-specific technique
 	// Buffer the extra light parameters so we can remove them after the export.
-	FUTrackedPtr<FCDETechnique> techniqueNode = const_cast<FCDExtra*>(light->GetExtra())->GetDefaultType()->AddTechnique(DAE_FCOLLADA_PROFILE);
+	FCDEType* extraType = const_cast<FCDExtra*>(light->GetExtra())->GetDefaultType();
+	bool techniqueAdded = extraType->FindTechnique(DAE_FCOLLADA_PROFILE) == NULL;
+	FUTrackedPtr<FCDETechnique> techniqueNode = extraType->AddTechnique(DAE_FCOLLADA_PROFILE);
 	FCDENodeList extraParameterNodes;
 
 	// Write out the light parameters
@@ -101,6 +103,6 @@ xmlNode* FArchiveXML::WriteLight(FCDObject* object, xmlNode* parentNode)
 	// Export the <extra> elements and release the temporarily-added parameters/technique
 	FArchiveXML::WriteTargetedEntityExtra(light, lightNode);
 	CLEAR_POINTER_VECTOR(extraParameterNodes);
-	if (techniqueNode != NULL && techniqueNode->GetChildNodeCount() == 0) SAFE_RELEASE(techniqueNode);
+	if (techniqueAdded && techniqueNode != NULL) SAFE_RELEASE(techniqueNode);
 	return lightNode;
 }
diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 5b26d69..78c7534 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -45,6 +45,7 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 
 	FCDENodeList extraParameters;
 	FCDETechnique* extraTechnique = NULL;
+	bool extraTechniqueAdded = false;
 
 	if (sceneNode->GetParentCount() == 0)
 	{
@@ -63,7 +64,9 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 		// Write out the visibility of this node, if it is not visible or if it is animated.
 		if (sceneNode->GetVisibility().IsAnimated() || !sceneNode->IsVisible())
 		{
-			extraTechnique = const_cast<FCDExtra*>(sceneNode->GetExtra())->GetDefaultType()->AddTechnique(DAE_FCOLLADA_PROFILE);
+			FCDEType* extraType = const_cast<FCDExtra*>(sceneNode->GetExtra())->GetDefaultType();
+			extraTechniqueAdded = extraType->FindTechnique(DAE_FCOLLADA_PROFILE) == NULL;
+			extraTechnique = extraType->AddTechnique(DAE_FCOLLADA_PROFILE);
 			FCDENode* visibilityNode = extraTechnique->AddParameter(DAEFC_VISIBILITY_PARAMETER, sceneNode->GetVisibility() >= 0.5f);
 			visibilityNode->GetAnimated()->Copy(sceneNode->GetVisibility().GetAnimated());
 			extraParameters.push_back(visibilityNode);
@@ -82,6 +85,8 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 	// Some of the FCollada instance types are not a part of COLLADA, so buffer them to export in the <extra>.
 	FCDENodeList extraInstanceNodes;
 	FCDETechnique* extraInstanceTechnique = NULL;
+	FCDEType* addedInstanceType = NULL;
+	FCDETechnique* addedInstanceTechnique = NULL;
 	size_t instanceCount = sceneNode->GetInstanceCount();
 	for (size_t i = 0; i < instanceCount; ++i)
 	{
@@ -91,8 +96,10 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 			if (extraInstanceTechnique == NULL)
 			{
 				FCDExtra* extra = const_cast<FCDExtra*>(sceneNode->GetExtra());
-				FCDEType* extraType = extra->AddType(DAEFC_INSTANCES_TYPE);
-				extraInstanceTechnique = extraType->AddTechnique(DAE_FCOLLADA_PROFILE);
+				FCDEType* extraType = extra->FindType(DAEFC_INSTANCES_TYPE);
+				if (extraType == NULL) extraType = addedInstanceType = extra->AddType(DAEFC_INSTANCES_TYPE);
+				extraInstanceTechnique = extraType->FindTechnique(DAE_FCOLLADA_PROFILE);
+				if (extraInstanceTechnique == NULL) extraInstanceTechnique = addedInstanceTechnique = extraType->AddTechnique(DAE_FCOLLADA_PROFILE);
 			}
 
 			xmlNode* base = FUXmlWriter::CreateNode("_temp_");
@@ -158,9 +165,11 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 	if (extraTechnique != NULL)
 	{
 		CLEAR_POINTER_VECTOR(extraParameters);
-		if (extraTechnique->GetChildNodeCount() == 0) SAFE_RELEASE(extraTechnique);
+		if (extraTechniqueAdded) SAFE_RELEASE(extraTechnique);
 	}
 	CLEAR_POINTER_VECTOR(extraInstanceNodes);
+	if (addedInstanceType != NULL) { SAFE_RELEASE(addedInstanceType); }
+	else SAFE_RELEASE(addedInstanceTechnique);
 
 	return parentNode;
 }
@@ -269,11 +278,14 @@ void FArchiveXML::WriteEntityExtra(FCDEntity* entity, xmlNode* entityNode)
 	{
 		FCDENodeList extraParameters;
 		FCDETechnique* extraTechnique = NULL;
+		bool extraTechniqueAdded = false;
 
 		// Add the note to the extra information
 		if (entity->HasNote())
 		{
-			extraTechnique = const_cast<FCDExtra&>(*entity->GetExtra()).GetDefaultType()->AddTechnique(DAE_FCOLLADA_PROFILE);
+			FCDEType* extraType = const_cast<FCDExtra&>(*entity->GetExtra()).GetDefaultType();
+			extraTechniqueAdded = extraType->FindTechnique(DAE_FCOLLADA_PROFILE) == NULL;
+			extraTechnique = extraType->AddTechnique(DAE_FCOLLADA_PROFILE);
 			FCDENode* noteNode = extraTechnique->AddParameter(DAEMAX_USERPROPERTIES_NODE_PARAMETER, entity->GetNote());
 			extraParameters.push_back(noteNode);
 		}
@@ -283,7 +295,7 @@ void FArchiveXML::WriteEntityExtra(FCDEntity* entity, xmlNode* entityNode)
 		if (extraTechnique != NULL)
 		{
 			CLEAR_POINTER_VECTOR(extraParameters);
-			if (extraTechnique->GetChildNodeCount() == 0) SAFE_RELEASE(extraTechnique);
+			if (extraTechniqueAdded) SAFE_RELEASE(extraTechnique);
 		}
 	}
 }
@@ -300,11 +312,13 @@ void FArchiveXML::WriteTargetedEntityExtra(FCDTargetedEntity* targetedEntity, xm
 {
 	FCDETechnique* technique = NULL;
 	FCDENode* parameter = NULL;
+	bool techniqueAdded = false;
 
 	if (targetedEntity->GetTargetNode() != NULL)
 	{
 		// Just for the export-time, add to the extra tree, the target information.
         FCDExtra* extra = const_cast<FCDExtra*>(targetedEntity->GetExtra());
+		techniqueAdded = extra->GetDefaultType()->FindTechnique(DAE_FCOLLADA_PROFILE) == NULL;
 		technique = extra->GetDefaultType()->AddTechnique(DAE_FCOLLADA_PROFILE);
 		parameter = technique->AddParameter(DAEFC_TARGET_PARAMETER, FS("#") + TO_FSTRING(targetedEntity->GetTargetNode()->GetDaeId()));
 	}
@@ -316,7 +330,7 @@ void FArchiveXML::WriteTargetedEntityExtra(FCDTargetedEntity* targetedEntity, xm
 	{
 		// Delete the created extra tree nodes.
 		SAFE_RELEASE(parameter);
-		if (technique->GetChildNodeCount() == 0) SAFE_RELEASE(technique);
+		if (techniqueAdded) SAFE_RELEASE(technique);
 	}
 }
 
-- 
2.43.0


From 39ce19cf718e652403dca0df107c31be1ab6f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 096/205] fix: keep the weights of a reduced skin vertex
 without any weight finite

---
 FCollada/FCDocument/FCDSkinController.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDSkinController.cpp b/FCollada/FCDocument/FCDSkinController.cpp
index 5e3d11b..b0919fc 100644
--- a/FCollada/FCDocument/FCDSkinController.cpp
+++ b/FCollada/FCDocument/FCDSkinController.cpp
@@ -179,8 +179,11 @@ void FCDSkinController::ReduceInfluences(uint32 maxInfluenceCount, float minimum
 
 			float newTotal = 0.0f;
 			for (size_t i = 0; i < newInfluenceCount; ++i) newTotal += influence.GetPair(i)->weight;
-			float renormalizingFactor = oldTotal / newTotal;
-			for (size_t i = 0; i < newInfluenceCount; ++i) influence.GetPair(i)->weight *= renormalizingFactor;
+			if (newTotal > 0.0f)
+			{
+				float renormalizingFactor = oldTotal / newTotal;
+				for (size_t i = 0; i < newInfluenceCount; ++i) influence.GetPair(i)->weight *= renormalizingFactor;
+			}
 		}
 	}
 
-- 
2.43.0


From 396f9e1ec5a51fb51ac3a4000a0780bcf2e2d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 097/205] fix: let an object keep its id when it is cloned

---
 FCollada/FCDocument/FCDObjectWithId.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDObjectWithId.cpp b/FCollada/FCDocument/FCDObjectWithId.cpp
index e23c7db..de912e7 100644
--- a/FCollada/FCDocument/FCDObjectWithId.cpp
+++ b/FCollada/FCDocument/FCDObjectWithId.cpp
@@ -33,8 +33,9 @@ FCDObjectWithId::~FCDObjectWithId()
 
 void FCDObjectWithId::Clone(FCDObjectWithId* clone) const
 {
+	// The original keeps its id: the clone gets a unique one, based on it, when its id is first requested.
+	clone->RemoveDaeId();
 	clone->daeId = daeId;
-	const_cast<FCDObjectWithId*>(this)->RemoveDaeId();
 }
 
 const fm::string& FCDObjectWithId::GetDaeId() const
-- 
2.43.0


From 26f2a2b5689408e4896ea5fe7dab92c24b9510d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 098/205] fix: never hand out a registered name again after the
 largest number

---
 FCollada/FUtils/FUUniqueStringMap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUniqueStringMap.cpp b/FCollada/FUtils/FUUniqueStringMap.cpp
index bab61e7..fedf1d5 100644
--- a/FCollada/FUtils/FUUniqueStringMap.cpp
+++ b/FCollada/FUtils/FUUniqueStringMap.cpp
@@ -52,8 +52,10 @@ void FUUniqueStringMapT<CH>::insert(fm::stringT<CH>& wantedStr)
 			// Get the second last suffix, if it exists.
 			--itN;
 			if (itN == itV->second.end()) suffix = 2;
-			suffix = itN->first + 1;
+			else suffix = itN->first + 1;
 		}
+		// There may be no larger number left: use the next one that is available.
+		while (suffix == ~(uint32)0 || itV->second.find(suffix) != itV->second.end()) ++suffix;
 
 		// Recreate the user's string to use this unique suffix.
 		FUStringBuilderT<CH> builder(prefix);
-- 
2.43.0


From fe3be93a5798f4defa00db6bace9d81f2262815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 099/205] fix: clean the sub-id of a node whose sub-id is
 already in use

---
 FCollada/FCDocument/FCDSceneNode.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index fa6a8c6..376f069 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -207,11 +207,12 @@ void FCDSceneNode::SetSubId(const fm::string& subId)
 	while (curNode != NULL);
 
 	// Now, test for uniqueness, This is enforced for both descendants and ancestors
-	fm::string newSubId = FCDObjectWithId::CleanSubId(subId);
+	fm::string cleanSubId = FCDObjectWithId::CleanSubId(subId);
+	fm::string newSubId = cleanSubId;
 	int32 idMod = 0;
 	while (FindSubId(newSubId) != NULL || parentSubIds.find(newSubId) != parentSubIds.end())
 	{
-		newSubId = subId + "_" + FUStringConversion::ToString(idMod++);
+		newSubId = cleanSubId + "_" + FUStringConversion::ToString(idMod++);
 
 		// Dont keep doing this forever.
 		if (idMod > 512) break;
-- 
2.43.0


From c5db4568f080d15dd66f45577a54f3cd05976a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 100/205] fix: visit instanced nodes in depth-first iteration

---
 FCollada/FCDocument/FCDSceneNodeIterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDSceneNodeIterator.hpp b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
index dca4f7f..b891aa4 100644
--- a/FCollada/FCDocument/FCDSceneNodeIterator.hpp
+++ b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
@@ -91,8 +91,9 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 						}
 						else
 						{
-							processQueue.push_back(Child(add, 0));
 							++(it.second);
+							if (searchType == DEPTH_FIRST_PREORDER) queue.push_back(add);
+							processQueue.push_back(Child(add, 0));
 							break;
 						}
 					}
-- 
2.43.0


From ea331307ec7da5233b4b78b5d882c9e78355d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 101/205] fix: keep the nodes that have another parent when a
 node is released

---
 FCollada/FCDocument/FCDSceneNode.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index 376f069..14040c7 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -69,20 +69,15 @@ FCDSceneNode::~FCDSceneNode()
 		if (child->parents.empty()) { SAFE_RELEASE(child); }
 		else
 		{
-			// Check for external references in the parents
+			// Check for external references in the parents of this child
 			bool hasLocalReferences = false;
-			size_t parentCount = parents.size();
+			size_t parentCount = child->parents.size();
 			for (size_t p = 0; p < parentCount; ++p)
 			{
-				FCDSceneNode* parent = parents[p];
-				if (parent == this) children.erase(parent);
-				else
-				{
-					hasLocalReferences |= parent->GetDocument() == GetDocument();
-				}
+				hasLocalReferences |= child->parents[p]->GetDocument() == child->GetDocument();
 			}
-
-			if (!hasLocalReferences) SAFE_RELEASE(child);
+			if (hasLocalReferences) children.erase(child);
+			else SAFE_RELEASE(child);
 		}
 	}
 }
-- 
2.43.0


From 3b74f1bb276eb8ed704297bbe20cea5c5f73859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 102/205] fix: a node is no longer a target once the targeting
 entity is released

---
 FCollada/FCDocument/FCDTargetedEntity.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDTargetedEntity.cpp b/FCollada/FCDocument/FCDTargetedEntity.cpp
index 838c64b..4e694d3 100644
--- a/FCollada/FCDocument/FCDTargetedEntity.cpp
+++ b/FCollada/FCDocument/FCDTargetedEntity.cpp
@@ -33,6 +33,10 @@ FCDTargetedEntity::FCDTargetedEntity(FCDocument* document, const char* className
 
 FCDTargetedEntity::~FCDTargetedEntity()
 {
+	if (targetNode != NULL)
+	{
+		targetNode->DecrementTargetCount();
+	}
 }
 
 // Sets a new target
-- 
2.43.0


From ea334e15653d27b63d7298f63d3f511744a73ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 103/205] fix: shear the rotated axis of a skew towards its
 other axis, as COLLADA defines it

---
 FCollada/FCDocument/FCDTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDTransform.cpp b/FCollada/FCDocument/FCDTransform.cpp
index 3e0843b..e8c62fb 100644
--- a/FCollada/FCDocument/FCDTransform.cpp
+++ b/FCollada/FCDocument/FCDTransform.cpp
@@ -301,7 +301,7 @@ FMMatrix44 FCDTSkew::ToMatrix() const
 	{
 		for (int col = 0; col < 3; ++col)
 		{
-			v[col][row] = ((row == col) ? 1.0f : 0.0f) + s * skew->rotateAxis[col] * skew->aroundAxis[row];
+			v[row][col] = ((row == col) ? 1.0f : 0.0f) + s * skew->rotateAxis[col] * skew->aroundAxis[row];
 		}
 	}
 
-- 
2.43.0


From cf75e1842f1ac0588ad80531c41a45c0a9869884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 104/205] fix: let users of the library set the current time of
 a document

---
 FCollada/FCDocument/FCDocument.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDocument.h b/FCollada/FCDocument/FCDocument.h
index 97149ff..25b4f88 100644
--- a/FCollada/FCDocument/FCDocument.h
+++ b/FCollada/FCDocument/FCDocument.h
@@ -261,7 +261,7 @@ public:
 
 	/** Evaluate the animation objects at the given time
 		@param time The time to evaluate the objects at */
-	inline void SetCurrentTime(float time);
+	void SetCurrentTime(float time);
 
 	/** Retrieves the list of entity layers.
 		@return The list of entity layers. */
-- 
2.43.0


From 215794421d877a0efa576ffeeead0ef6eb61fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 105/205] fix: keep the animated values of a list on their
 elements when elements move

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index ddf6745..a329a3a 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -197,18 +197,13 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::OnPotentialSizeChange()
 	size_t animatedCount = animateds.size();
 	if (animatedCount == 0) return;
 
-	// Check if the first FCDAnimated points to the correct values.
-	// If it does, then they all should be fine.
-	FCDAnimated* animated = animateds.front();
-	FUAssert((size_t) animated->GetArrayElement() < values.size(), return);
-	if (animated->GetValue(0) == (void*) &values[animated->GetArrayElement()]) return;
-
-	// Process all the animateds and set their value pointers.
+	// Process all the animateds and set their value pointers: an insertion or a removal
+	// moves the values that follow it, even when the list was not re-allocated.
 	// IMPORTANT: it is assumed that these values are FLOATS and ORDERED.
-	size_t stride = animated->GetValueCount();
+	size_t stride = animateds.front()->GetValueCount();
 	for (size_t i = 0; i < animatedCount; ++i)
 	{
-		animated = animateds[i];
+		FCDAnimated* animated = animateds[i];
 		size_t arrayElement = animated->GetArrayElement();
 		FUAssert(arrayElement < values.size(), return);
 		for (size_t j = 0; j < stride; ++j)
-- 
2.43.0


From 038e5c1c71ceedd12c811a1083556238281a994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 106/205] fix: drop the animated values of the removed elements
 only when a list shrinks

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index a329a3a..6365a25 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -186,7 +186,7 @@ template <class TYPE, int QUALIFIERS>
 void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count, const TYPE& value)
 {
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
-	else if (count < values.size()) OnRemoval(count - values.size(), values.size());
+	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count, value);
 	OnPotentialSizeChange();
 }
-- 
2.43.0


From 188a278d49ae627b266e3f345c7f7a748b3ca021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 107/205] fix: pair each animated transform with its own angle
 when sampling a node

---
 FCollada/FCDocument/FCDSceneNodeTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNodeTools.cpp b/FCollada/FCDocument/FCDSceneNodeTools.cpp
index e3a80a1..08eabee 100644
--- a/FCollada/FCDocument/FCDSceneNodeTools.cpp
+++ b/FCollada/FCDocument/FCDSceneNodeTools.cpp
@@ -34,9 +34,9 @@ namespace FCDSceneNodeTools
 		{
 			FCDTransform* transform = node->GetTransform(t);
 			FCDAnimated* animated = transform->GetAnimated();
-			if (animated != NULL)
+			if (animated != NULL && animated->HasCurve())
 			{
-				if (animated->HasCurve()) animateds.push_back(animated);
+				animateds.push_back(animated);
 
 				// Figure out whether this is a rotation and then, which animated value contains the angle.
 				if (!transform->HasType(FCDTRotation::GetClassType())) angleIndices.push_back(-1);
-- 
2.43.0


From 3b3f7bd2b895fe927d2bd3b6249516353911936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 108/205] fix: name the animated components of a skew after
 what they are

---
 FCollada/FCDocument/FCDParameterAnimatable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.cpp b/FCollada/FCDocument/FCDParameterAnimatable.cpp
index c633cdd..2610f7e 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.cpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.cpp
@@ -137,7 +137,7 @@ template <> FCDAnimated* FCDParameterAnimatableSkew::CreateAnimated()
 		&value.aroundAxis.x, &value.aroundAxis.y, &value.aroundAxis.z,
 		&value.angle
 	};
-	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::LOOKAT, values);
+	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::SKEW, values);
 }
 
 //
-- 
2.43.0


From d78acfca303371d8c5d93f00c470daa430775a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 109/205] fix: keep the list of holes in step when a face is
 removed

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5e411a4..4cd238b 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -107,7 +107,17 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	// Remove the face and its holes
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
-	faceVertexCounts.erase(index + holeBefore, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	size_t firstRemoved = index + holeBefore, afterRemoved = firstRemoved + holeCount + 1; // +1 in order to remove the polygon as well as the holes.
+	faceVertexCounts.erase(firstRemoved, holeCount + 1);
+
+	// The removed holes are gone and the holes that follow them have moved.
+	UInt32List oldHoleFaces(holeFaces.begin(), holeFaces.size());
+	holeFaces.clear();
+	for (UInt32List::iterator it = oldHoleFaces.begin(); it != oldHoleFaces.end(); ++it)
+	{
+		if ((*it) < firstRemoved) holeFaces.push_back(*it);
+		else if ((*it) >= afterRemoved) holeFaces.push_back((uint32) ((*it) - holeCount - 1));
+	}
 
 	parent->Recalculate();
 	SetDirtyFlag();
-- 
2.43.0


From 9c00b6b670ce97b5ed795a7e29d48f70de906edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 110/205] fix: hand the shared indices over when the input that
 holds them goes

---
 .../FCDocument/FCDGeometryPolygonsInput.cpp   | 38 +++++++++++--------
 .../FCDocument/FCDGeometryPolygonsInput.h     |  3 ++
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index 2e32322..420feaa 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -30,6 +30,9 @@ FCDGeometryPolygonsInput::FCDGeometryPolygonsInput(FCDocument* document, FCDGeom
 
 FCDGeometryPolygonsInput::~FCDGeometryPolygonsInput()
 {
+	// The other inputs with the same offset still need the shared indices.
+	HandOverIndices();
+
 	if (source != NULL)
 	{
 		UntrackObject(source);
@@ -58,24 +61,27 @@ void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 	if (source == object)
 	{
 		source = NULL;
+		HandOverIndices();
+	}
+}
+
+// Moves a shared list of indices to another of the inputs that share it.
+void FCDGeometryPolygonsInput::HandOverIndices()
+{
+	if (indices.empty() || parent == NULL) return;
 
-		// Verify whether we own/share the index list.
-		if (!indices.empty())
-		{
-			size_t inputCount = parent->GetInputCount();
-			for (size_t i = 0; i < inputCount; ++i)
-			{
-				FCDGeometryPolygonsInput* other = parent->GetInput(i);
-				if (other->offset == offset)
-				{
-					// Move the shared list of indices to the other input.
-					other->indices = indices;
-					indices.clear();
-					break;
-				}
-			}
-		}
+	FCDGeometryPolygonsInput* heir = NULL;
+	size_t inputCount = parent->GetInputCount();
+	for (size_t i = 0; i < inputCount; ++i)
+	{
+		FCDGeometryPolygonsInput* other = parent->GetInput(i);
+		if (other == this || other->offset != offset) continue;
+		if (other->OwnsIndices()) return;
+		if (heir == NULL || heir->source == NULL) heir = other;
 	}
+	if (heir == NULL) return;
+	heir->indices = indices;
+	indices.clear();
 }
 
 void FCDGeometryPolygonsInput::SetIndices(const uint32* _indices, size_t count)
diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.h b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
index 9b2b57c..91699b9 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.h
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
@@ -153,6 +153,9 @@ private:
 	// FUTracker interface.
 	virtual void OnObjectReleased(FUTrackable* object);
 
+	// Moves the index buffer to another input that shares it.
+	void HandOverIndices();
+
 	// Finds the index buffer for this list.
 	FUParameterUInt32List& FindIndices() { return const_cast<FUParameterUInt32List&>(const_cast<const FCDGeometryPolygonsInput*>(this)->FindIndices()); }
 	const FUParameterUInt32List& FindIndices() const;
-- 
2.43.0


From 2a33a5097c677f44b42a26a4be54997e559e9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 111/205] fix: recalculate the mesh when one of its polygons
 sets is triangulated

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 1e62a0c..be06d24 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -118,7 +118,11 @@ namespace FCDGeometryPolygonsTools
 		polygons->SetPrimitiveType(FCDGeometryPolygons::POLYGONS);
 		polygons->SetHoleFaceCount(0);
 
-		if (recalculate) polygons->Recalculate();
+		if (recalculate)
+		{
+			// The statistics of the mesh and the offsets of the other polygons sets depend on this one.
+			polygons->GetParent()->Recalculate();
+		}
 	}
 
 	static uint32 CompressSortedVector(FMVector3& toInsert, FloatList& insertedList, UInt32List& compressIndexReferences)
-- 
2.43.0


From d99fa21a2b1bb7c0ab894d5469d0c2173d319664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 112/205] fix: normalize the averaged texture tangents

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index be06d24..fd22951 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -406,7 +406,7 @@ namespace FCDGeometryPolygonsTools
 						if (list[v].tangentId == ~(uint32)0)
 						{
 							list[v].tangent /= (float) list[v].count; // Average the tangent.
-							list[v].tangent.Normalize();
+							list[v].tangent.NormalizeIt();
 							list[v].tangentId = CompressSortedVector(list[v].tangent, tangentData, tangentCompressionIndices);
 						}
 						tangentInput->AddIndex(list[v].tangentId);
-- 
2.43.0


From 6020b0e79314f9ee9003e17d9c663b9401627afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 113/205] fix: pack colors as bytes

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index fd22951..6a15aa3 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -976,7 +976,7 @@ namespace FCDGeometryPolygonsTools
 		const FCDGeometrySource* source, uint32 vCount, uint16* vtxPackingMap,
 		const FCDGeometryIndexTranslationMap& translationMap)
 	{
-		PackVertexBuffers<FMColor, false, false>(destBuffer, destBuffStride, source, vCount, vtxPackingMap, translationMap);
+		PackVertexBuffers<FMColor, false, true>(destBuffer, destBuffStride, source, vCount, vtxPackingMap, translationMap);
 	}
 
 	void PackVertexBufferV2(uint8* destBuffer, uint32 destBuffStride,
-- 
2.43.0


From a90a5d8c9deb345b0fb8fa4f01d4ada75d10e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 114/205] fix: do not make a source per-vertex twice when
 applying unique indices

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 6a15aa3..9d82a1e 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -890,7 +890,7 @@ namespace FCDGeometryPolygonsTools
 				}
 			}
 			// Set the source to be per-vertex... this means it has data for every vertex?
-			targMesh->AddVertexSource(targSource);
+			if (!targMesh->IsVertexSource(targSource)) targMesh->AddVertexSource(targSource);
 		}
 
 		// Reset the indices.  The indices in newIndices are all polygon indices combined
-- 
2.43.0


From c20e2eeda067062e29f13a302dc5b8e3c0ee43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 115/205] fix: skip the influences of unused vertices when
 applying a translation map

---
 FCollada/FCDocument/FCDControllerTools.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDControllerTools.cpp b/FCollada/FCDocument/FCDControllerTools.cpp
index 1481b92..231788b 100644
--- a/FCollada/FCDocument/FCDControllerTools.cpp
+++ b/FCollada/FCDocument/FCDControllerTools.cpp
@@ -44,13 +44,14 @@ namespace FCDControllerTools
 
 		// This is how many vertices we are packing here!
 		skinInfluences.resize(largestIdx + 1);
-		FUAssert(largestIdx < influenceCount,);
 
 		// Now iterate over all the vertices that we have used and come up with something
 		for (uint32 i = 0; i < influenceCount; ++i)
 		{
-			UInt32List uniqueIndices = translationMap[i];
-			for (UInt32List::iterator uItr = uniqueIndices.begin(); uItr != uniqueIndices.end(); ++uItr)
+			FCDGeometryIndexTranslationMap::const_iterator it = translationMap.find(i);
+			if (it == translationMap.end()) continue; // this vertex is not used.
+			const UInt32List& uniqueIndices = it->second;
+			for (UInt32List::const_iterator uItr = uniqueIndices.begin(); uItr != uniqueIndices.end(); ++uItr)
 			{
 				if (packingMap[*uItr] != (uint16)-1)
 				{
-- 
2.43.0


From f0a315f1d83eb9037d2189cbee1fcd7932695747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 116/205] fix: split polygons sets between faces, along with
 their holes, type and inputs

---
 .../FCDocument/FCDGeometryPolygonsTools.cpp   | 80 ++++++++++++-------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 9d82a1e..5c31e81 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -14,6 +14,7 @@
 #include "FCDocument/FCDGeometryPolygonsTools.h"
 #include "FCDocument/FCDGeometrySource.h"
 #include "FCDocument/FCDAnimated.h"
+#include "FCDocument/FCDExtra.h"
 
 namespace FCDGeometryPolygonsTools
 {
@@ -1088,6 +1089,26 @@ namespace FCDGeometryPolygonsTools
 		outPInput.SetIndices(indices.begin(), indices.size());
 	}
 
+	// Figures out how many faces fit together within the given number of indices.
+	// There is always at least one face and a face stays with its holes.
+	static size_t FitFaces(const UInt32List& faceVertexCounts, const UInt32List& holeFaces, size_t start, size_t maximumIndexCount, size_t& indexCount)
+	{
+		indexCount = 0;
+		size_t end = start;
+		while (end < faceVertexCounts.size())
+		{
+			size_t nextEnd = end;
+			size_t nextIndexCount = indexCount;
+			do { nextIndexCount += faceVertexCounts[nextEnd++]; }
+			while (nextEnd < faceVertexCounts.size() && holeFaces.find((uint32) nextEnd) != holeFaces.end());
+
+			if (end > start && nextIndexCount > maximumIndexCount) break;
+			end = nextEnd;
+			indexCount = nextIndexCount;
+		}
+		return end;
+	}
+
 	// Splits the mesh's polygons sets to ensure that none of them have
 	// more than a given number of indices within their index buffers.
 	void FitIndexBuffers(FCDGeometryMesh* mesh, size_t maximumIndexCount)
@@ -1105,18 +1126,12 @@ namespace FCDGeometryPolygonsTools
 			size_t faceCount = polygons->GetFaceVertexCountCount();
 			if (faceCount == 0) continue;
 			UInt32List faceVertexCounts(polygons->GetFaceVertexCounts(), faceCount);
+			UInt32List holeFaces(polygons->GetHoleFaces(), polygons->GetHoleFaceCount());
 			size_t inputCount = polygons->GetInputCount();
 
-			UInt32List::iterator splitIt = faceVertexCounts.end();
-			uint32 faceVertexCount = 0;
-			for (splitIt = faceVertexCounts.begin(); splitIt != faceVertexCounts.end(); ++splitIt)
-			{
-				if (faceVertexCount + (*splitIt) > maximumIndexCount) break;
-				faceVertexCount += (*splitIt);
-			}
-			if (splitIt == faceVertexCounts.end()) continue; // Polygons sets fit correctly.
-			size_t splitIndexCount = (size_t) faceVertexCount;
-			size_t splitFaceCount = splitIt - faceVertexCounts.begin();
+			size_t splitIndexCount = 0;
+			size_t splitFaceCount = FitFaces(faceVertexCounts, holeFaces, 0, maximumIndexCount, splitIndexCount);
+			if (splitFaceCount == faceCount) continue; // Polygons sets fit correctly.
 
 			size_t faceCopyStart = splitFaceCount;
 			size_t faceCopyEnd = faceCopyStart;
@@ -1127,35 +1142,29 @@ namespace FCDGeometryPolygonsTools
 				// Create a new polygons set and copy the basic information from the first polygons set.
 				FCDGeometryPolygons* polygonsCopy = mesh->AddPolygons();
 				polygonsCopy->SetMaterialSemantic(polygons->GetMaterialSemantic());
-
-				// Figure out which faces will be moved to this polygons set.
-				faceVertexCount = 0;
-				for (; faceCopyEnd < faceCount; ++faceCopyEnd)
+				polygonsCopy->SetPrimitiveType(polygons->GetPrimitiveType());
+				if (const_cast<const FCDGeometryPolygons*>(polygons)->GetExtra() != NULL)
 				{
-					uint32 localCount = faceVertexCounts[faceCopyEnd];
-					if (faceVertexCount + localCount > maximumIndexCount) break;
-					faceVertexCount += localCount;
+					polygons->GetExtra()->Clone(polygonsCopy->GetExtra());
 				}
-				faceVertexCopyEnd += faceVertexCount;
 
-				FUAssert(faceVertexCopyEnd > faceVertexCopyStart, continue);
-				FUAssert(faceCopyEnd > faceCopyStart, continue);
+				// Figure out which faces will be moved to this polygons set.
+				size_t faceVertexCount = 0;
+				faceCopyEnd = FitFaces(faceVertexCounts, holeFaces, faceCopyStart, maximumIndexCount, faceVertexCount);
+				faceVertexCopyEnd += faceVertexCount;
 
-				// Create the inputs and their indices over in the new polygons set.
+				// Create the same inputs in the new polygons set. It starts with all the per-vertex inputs.
+				while (polygonsCopy->GetInputCount() > 0) polygonsCopy->GetInput(polygonsCopy->GetInputCount() - 1)->Release();
 				for (size_t j = 0; j < inputCount; ++j)
 				{
 					FCDGeometryPolygonsInput* input = polygons->GetInput(j);
-					FCDGeometrySource* source = input->GetSource();
-					FCDGeometryPolygonsInput* inputCopy;
-					if (!mesh->IsVertexSource(source)) inputCopy = polygonsCopy->AddInput(source, input->GetOffset());
-					else inputCopy = polygonsCopy->FindInput(source);
-					FUAssert(inputCopy != NULL, continue);
-
-					// For owners, copy the indices over.
-					size_t indexCopyCount = inputCopy->GetIndexCount();
-					if (indexCopyCount == 0)
+					FCDGeometryPolygonsInput* inputCopy = polygonsCopy->AddInput(input->GetSource(), input->GetOffset());
+					inputCopy->SetSet(input->GetSet());
+
+					// Copy the indices over, once for the inputs that share them.
+					if (inputCopy->GetIndexCount() == 0 && input->GetIndexCount() >= faceVertexCopyEnd)
 					{
-						uint32* indices = input->GetIndices();
+						const uint32* indices = input->GetIndices();
 						inputCopy->SetIndices(indices + faceVertexCopyStart, faceVertexCopyEnd - faceVertexCopyStart);
 					}
 				}
@@ -1165,6 +1174,10 @@ namespace FCDGeometryPolygonsTools
 				size_t faceCopyCount = faceCopyEnd - faceCopyStart;
 				polygonsCopy->SetFaceVertexCountCount(faceCopyCount);
 				memcpy((void*) polygonsCopy->GetFaceVertexCounts(), &(*(faceVertexCounts.begin() + faceCopyStart)), faceCopyCount * sizeof(uint32));
+				for (UInt32List::iterator itH = holeFaces.begin(); itH != holeFaces.end(); ++itH)
+				{
+					if ((*itH) >= faceCopyStart && (*itH) < faceCopyEnd) polygonsCopy->AddHole((uint32) ((*itH) - faceCopyStart));
+				}
 				faceCopyStart = faceCopyEnd;
 				faceVertexCopyStart = faceVertexCopyEnd;
 			}
@@ -1179,6 +1192,11 @@ namespace FCDGeometryPolygonsTools
 				}
 			}
 			polygons->SetFaceVertexCountCount(splitFaceCount);
+			polygons->SetHoleFaceCount(0);
+			for (UInt32List::iterator itH = holeFaces.begin(); itH != holeFaces.end(); ++itH)
+			{
+				if ((*itH) < splitFaceCount) polygons->AddHole(*itH);
+			}
 		}
 
 		mesh->Recalculate();
-- 
2.43.0


From 1077db84660ad528c73e1fe2f8836f4c64a37994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 117/205] fix: keep the animations of the values when
 generating unique indices

---
 .../FCDocument/FCDGeometryPolygonsTools.cpp   | 84 +++++++++++++------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 5c31e81..e1a8254 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -14,6 +14,9 @@
 #include "FCDocument/FCDGeometryPolygonsTools.h"
 #include "FCDocument/FCDGeometrySource.h"
 #include "FCDocument/FCDAnimated.h"
+#include "FCDocument/FCDAnimationChannel.h"
+#include "FCDocument/FCDAnimationClip.h"
+#include "FCDocument/FCDAnimationCurve.h"
 #include "FCDocument/FCDExtra.h"
 
 namespace FCDGeometryPolygonsTools
@@ -592,6 +595,48 @@ namespace FCDGeometryPolygonsTools
 		}
 	}
 
+	// The animation of one value of a source.
+	struct AnimatedValue { FCDAnimationCurveList curves; bool isRelative; };
+	typedef fm::map<uint32, AnimatedValue> AnimatedValueMap;
+
+	// Collects the animations of the values of a source.
+	static void CollectAnimatedValues(FCDGeometrySource* source, AnimatedValueMap& animatedValues)
+	{
+		FCDParameterListAnimatableFloat& data = source->GetSourceData();
+		for (size_t i = 0; i < data.GetAnimatedValues().size(); ++i)
+		{
+			FCDAnimated* animated = data.GetAnimatedValues()[i];
+			if (!animated->HasCurve() || animated->GetArrayElement() < 0) continue;
+			AnimatedValueMap::iterator it = animatedValues.insert((uint32) animated->GetArrayElement(), AnimatedValue());
+			it->second.isRelative = animated->GetRelativeAnimationFlag();
+			for (size_t c = 0; c < animated->GetCurveCount(0); ++c) it->second.curves.push_back(animated->GetCurve(0, c));
+		}
+	}
+
+	// Animates a value of a source like the value it was copied from.
+	// The original curves are re-used once, when the original value is not kept.
+	static void ApplyAnimatedValue(FCDGeometrySource* source, uint32 index, const AnimatedValue& original, bool reuseCurves)
+	{
+		FCDAnimated* animated = source->GetSourceData().GetAnimated(index);
+		animated->SetRelativeAnimationFlag(original.isRelative);
+		for (size_t c = 0; c < original.curves.size(); ++c)
+		{
+			FCDAnimationCurve* curve = const_cast<FCDAnimationCurve*>(original.curves[c]);
+			if (!reuseCurves && curve->GetParent() != NULL)
+			{
+				FCDAnimationCurve* copy = curve->GetParent()->AddCurve();
+				curve->Clone(copy, false);
+				for (size_t k = 0; k < curve->GetClipCount(); ++k)
+				{
+					curve->GetClip(k)->AddClipCurve(copy);
+					copy->SetClipOffset(curve->GetClipOffset(k), curve->GetClip(k));
+				}
+				curve = copy;
+			}
+			animated->AddCurve(0, curve);
+		}
+	}
+
 	void GenerateUniqueIndices(FCDGeometryMesh* mesh, FCDGeometryPolygons* polygonsToProcess, FCDGeometryIndexTranslationMap* translationMap)
 	{
 		// Prepare a list of unique index buffers.
@@ -713,8 +758,9 @@ namespace FCDGeometryPolygonsTools
 			// so that the other polygons set can correctly point to the original source.
 			FCDGeometrySource* newSource = (polygonsToProcess != NULL) ? mesh->AddSource(oldSource->GetType()) : oldSource;
 
-			FCDAnimatedList newAnimatedList;
-			newAnimatedList.clear();
+			AnimatedValueMap animatedValues;
+			CollectAnimatedValues(oldSource, animatedValues);
+			fm::map<uint32, uint32> originalIndices; // new index -> old index
 			for (size_t p = 0; p < polygonsCount; ++p)
 			{
 				const UInt32List& indexBuffer = indexBuffers[p];
@@ -735,23 +781,7 @@ namespace FCDGeometryPolygonsTools
 					uint32 oldIndex = oldIndexList[i];
 					if (oldIndex >= oldSource->GetValueCount()) continue;
 
-					FUObjectContainer<FCDAnimated>& animatedValues = oldSource->GetAnimatedValues();
-					FCDAnimated* oldAnimated = NULL;
-					for (size_t j = 0; j < animatedValues.size(); j++)
-					{
-						FCDAnimated* animated = animatedValues[j];
-						if (animated->GetValue(0) == &(oldVertexData[stride * oldIndex]))
-						{
-							oldAnimated = animated;
-							break;
-						}
-					}
-					if (oldAnimated != NULL)
-					{
-						FCDAnimated* newAnimated = oldAnimated->Clone(oldAnimated->GetDocument());
-						newAnimated->SetArrayElement(newIndex);
-						newAnimatedList.push_back(newAnimated);
-					}
+					if (!animatedValues.empty()) originalIndices[newIndex] = oldIndex;
 
 					// [GLaforte - 12-10-2006] Potential performance optimization: this may copy the same data over itself many times.
 					for (uint32 s = 0; s < stride; ++s)
@@ -787,12 +817,18 @@ namespace FCDGeometryPolygonsTools
 			{
 				newSource->SetData(vertexBuffer, stride);
 			}
-			FUObjectContainer<FCDAnimated>& animatedList = newSource->GetAnimatedValues();
-			animatedList.clear();
-			for (FCDAnimatedList::iterator it = newAnimatedList.begin();
-					it != newAnimatedList.end(); it++)
+
+			// Animate the new values like the ones they come from.
+			fm::map<uint32, uint32> useCounts;
+			for (fm::map<uint32, uint32>::iterator it = originalIndices.begin(); it != originalIndices.end(); ++it)
 			{
-				animatedList.push_back(*it);
+				for (uint32 s = 0; s < stride; ++s)
+				{
+					AnimatedValueMap::iterator itA = animatedValues.find(stride * it->second + s);
+					if (itA == animatedValues.end()) continue;
+					bool reuseCurves = newSource == oldSource && useCounts[itA->first]++ == 0;
+					ApplyAnimatedValue(newSource, stride * it->first + s, itA->second, reuseCurves);
+				}
 			}
 		}
 
-- 
2.43.0


From 55fb737ebe98c9c2a372d316d774f2f9b70b5631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 118/205] fix: keep the values of a source that is used twice
 when generating unique indices

---
 .../FCDocument/FCDGeometryPolygonsTools.cpp   | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index e1a8254..a6ade66 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -743,6 +743,29 @@ namespace FCDGeometryPolygonsTools
 			SAFE_DELETE_ARRAY(indices);
 		}
 
+		// The values of a source can be moved only once within a polygons set:
+		// give the other inputs that use the same source a source of their own.
+		for (size_t p = 0; p < polygonsCount; ++p)
+		{
+			FCDGeometryPolygons* polygons = mesh->GetPolygons(p);
+			if (polygonsToProcess != NULL && polygons != polygonsToProcess) continue;
+			for (size_t i = 0; i < polygons->GetInputCount(); ++i)
+			{
+				FCDGeometryPolygonsInput* input = polygons->GetInput(i);
+				FCDGeometrySource* source = input->GetSource();
+				if (source == NULL || polygons->FindInput(source) == input) continue;
+				FCDGeometrySource* copy = mesh->AddSource(source->GetType());
+				source->Clone(copy);
+				AnimatedValueMap animatedValues;
+				CollectAnimatedValues(source, animatedValues);
+				for (AnimatedValueMap::iterator it = animatedValues.begin(); it != animatedValues.end(); ++it)
+				{
+					ApplyAnimatedValue(copy, it->first, it->second, false);
+				}
+				input->SetSource(copy);
+			}
+		}
+
 		// De-reference the source data so that all the vertex data match the new indices.
 		size_t meshSourceCount = mesh->GetSourceCount();
 		for (size_t d = 0; d < meshSourceCount; ++d)
-- 
2.43.0


From 185d559a168e73d891977c0b9cf67c5e3697e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 119/205] fix: remove the vertex counts of the removed face,
 not those of the first faces

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 4cd238b..ce10538 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -108,7 +108,7 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
 	size_t firstRemoved = index + holeBefore, afterRemoved = firstRemoved + holeCount + 1; // +1 in order to remove the polygon as well as the holes.
-	faceVertexCounts.erase(firstRemoved, holeCount + 1);
+	faceVertexCounts.erase(firstRemoved, afterRemoved);
 
 	// The removed holes are gone and the holes that follow them have moved.
 	UInt32List oldHoleFaces(holeFaces.begin(), holeFaces.size());
-- 
2.43.0


From 138137f9a59c101da8091ace378607d8af28a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 120/205] fix: give each polygons set its own share of the
 unique indices

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index a6ade66..c17f520 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -962,7 +962,7 @@ namespace FCDGeometryPolygonsTools
 			FCDGeometryPolygonsInput* anInput = polygons->GetInput(0);
 			size_t nIndices = anInput->GetIndexCount();
 			 // Check if we are valid, if not, the best we can do is not crash
-			FUAssert(nIndices >= nNewIndices, nIndices = nNewIndices);
+			FUAssert(nIndices <= nNewIndices, nIndices = nNewIndices);
 			anInput->SetIndices(newIdxPtr, nIndices);
 
 			newIdxPtr += nIndices;
-- 
2.43.0


From c18beca85540786e12724f3402f26115d3f94af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 121/205] fix: clone the asset of an entity along with its
 extra tree

---
 FCollada/FCDocument/FCDEntity.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEntity.cpp b/FCollada/FCDocument/FCDEntity.cpp
index 3b974ea..2cf7a54 100644
--- a/FCollada/FCDocument/FCDEntity.cpp
+++ b/FCollada/FCDocument/FCDEntity.cpp
@@ -57,9 +57,13 @@ FCDEntity* FCDEntity::Clone(FCDEntity* clone, bool UNUSED(cloneChildren)) const
 	FCDObjectWithId::Clone(clone);
 	clone->name = name;
 	clone->note = note;
+	if (asset != NULL)
+	{
+		asset->Clone(clone->GetAsset());
+	}
 	if (extra != NULL)
 	{
-		extra->Clone(clone->extra);
+		extra->Clone(clone->GetExtra());
 	}
 	return clone;
 }
-- 
2.43.0


From 65959ec1c4555843f1a922186fe68f3e9a1a9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 122/205] fix: clone the sub-id of a scene node

---
 FCollada/FCDocument/FCDSceneNode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index 14040c7..a4dec69 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -297,6 +297,7 @@ FCDEntity* FCDSceneNode::Clone(FCDEntity* _clone, bool cloneChildren) const
 		// Copy over the simple information.
 		clone->SetJointFlag(GetJointFlag());
 		clone->visibility = visibility;
+		clone->daeSubId = daeSubId;
 
 		// Don't copy the parents list but do clone all the children, transforms and instances
 		for (const FCDTransform** it = transforms.begin(); it != transforms.end(); ++it)
-- 
2.43.0


From 309f84f0d552e71982518235ee6ccc6484f6633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 123/205] fix: clone the sub-id of a transform

---
 FCollada/FCDocument/FCDTransform.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDTransform.cpp b/FCollada/FCDocument/FCDTransform.cpp
index e8c62fb..8d4ea17 100644
--- a/FCollada/FCDocument/FCDTransform.cpp
+++ b/FCollada/FCDocument/FCDTransform.cpp
@@ -75,6 +75,7 @@ FCDTransform* FCDTTranslation::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTTranslation::GetClassType())) return _clone;
 	else clone = (FCDTTranslation*) _clone;
 
+	clone->GetSubId() = GetSubId();
 	clone->translation = translation;
 	return clone;
 }
@@ -121,6 +122,7 @@ FCDTransform* FCDTRotation::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTRotation::GetClassType())) return _clone;
 	else clone = (FCDTRotation*) _clone;
 
+	clone->GetSubId() = GetSubId();
 	clone->angleAxis = angleAxis;
 	return clone;
 }
@@ -170,6 +172,7 @@ FCDTransform* FCDTScale::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTScale::GetClassType())) return _clone;
 	else clone = (FCDTScale*) _clone;
 
+	clone->GetSubId() = GetSubId();
 	clone->scale = scale;
 	return clone;
 }
@@ -210,6 +213,7 @@ FCDTransform* FCDTMatrix::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTMatrix::GetClassType())) return _clone;
 	else clone = (FCDTMatrix*) _clone;
 
+	clone->GetSubId() = GetSubId();
 	clone->transform = transform;
 	return clone;
 }
@@ -245,6 +249,7 @@ FCDTransform* FCDTLookAt::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTLookAt::GetClassType())) return _clone;
 	else clone = (FCDTLookAt*) _clone;
 
+	clone->GetSubId() = GetSubId();
 	clone->lookAt = lookAt;
 	return clone;
 }
@@ -287,6 +292,7 @@ FCDTransform* FCDTSkew::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTSkew::GetClassType())) return _clone;
 	else clone = (FCDTSkew*) _clone;
 
+	clone->GetSubId() = GetSubId();
 	clone->skew = skew;
 	return clone;
 }
-- 
2.43.0


From 6ac56d33b56c95dcdf712ae9494a2fd5f33d47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 124/205] fix: clone the name, sub-id and extra tree of an
 instance

---
 FCollada/FCDocument/FCDEntityInstance.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityInstance.cpp b/FCollada/FCDocument/FCDEntityInstance.cpp
index d884bac..ab45ec6 100644
--- a/FCollada/FCDocument/FCDEntityInstance.cpp
+++ b/FCollada/FCDocument/FCDEntityInstance.cpp
@@ -150,6 +150,12 @@ FCDEntityInstance* FCDEntityInstance::Clone(FCDEntityInstance* clone) const
 	}
 
 	clone->SetEntity(const_cast<FCDEntity*>(entityReference->GetEntity()));
+	clone->wantedSubId = wantedSubId;
+	clone->name = name;
+	if (extra != NULL)
+	{
+		extra->Clone(clone->GetExtra());
+	}
 	return clone;
 }
 
-- 
2.43.0


From cfc196554808840b2aa410045bac069f22312f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 125/205] fix: give the clone of a material the clone of its
 effect, and its technique hints

---
 FCollada/FCDocument/FCDMaterial.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index c7708de..cf0cb0e 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -89,9 +89,10 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 		{
 			if (cloneChildren)
 			{
-				clone->ownsEffect = true;
 				FCDEffect* clonedEffect = clone->GetDocument()->GetEffectLibrary()->AddEntity();
 				_effect->Clone(clonedEffect, cloneChildren);
+				clone->SetEffect(clonedEffect);
+				clone->ownsEffect = true;
 			}
 			else
 			{
@@ -99,6 +100,9 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 			}
 		}
 
+		// Clone the technique hints
+		clone->techniqueHints = techniqueHints;
+
 		// Clone the effect parameters
 		size_t parameterCount = parameters.size();
 		for (size_t p = 0; p < parameterCount; ++p)
-- 
2.43.0


From 8f3479fcd4b2919df35cdfa840838249375efced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 126/205] fix: a material does not own the effect it is given
 later

---
 FCollada/FCDocument/FCDMaterial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index cf0cb0e..b0490b0 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -69,6 +69,7 @@ const FCDEffect* FCDMaterial::GetEffect() const
 void FCDMaterial::SetEffect(FCDEffect* _effect)
 {
 	effect->SetEntity(_effect);
+	ownsEffect = false;
 	SetNewChildFlag();
 }
 
-- 
2.43.0


From 4be6b7333a26c39e26e8b1bf76f36d0314c2e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 127/205] fix: clone the wrap modes and filters of a sampler

---
 FCollada/FCDocument/FCDEffectParameterSampler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.cpp b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
index c6f07ce..0ccc62b 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
@@ -74,6 +74,12 @@ FCDEffectParameter* FCDEffectParameterSampler::Clone(FCDEffectParameter* _clone)
 	{
 		clone->surface = const_cast<FCDEffectParameterSurface*>((const FCDEffectParameterSurface*)(surface));
 		clone->samplerType = samplerType;
+		clone->wrap_s = wrap_s;
+		clone->wrap_t = wrap_t;
+		clone->wrap_p = wrap_p;
+		clone->minFilter = minFilter;
+		clone->magFilter = magFilter;
+		clone->mipFilter = mipFilter;
 	}
 	return _clone;
 }
-- 
2.43.0


From 0160d7d4a65f9abab938a9f777380d0d33a43e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 128/205] fix: make the clone of a sampler use the clone of its
 surface

---
 FCollada/FCDocument/FCDEffect.cpp             | 27 +++++++++++++------
 .../FCDocument/FCDEffectParameterSampler.h    | 17 ++++++++++++
 FCollada/FCDocument/FCDEffectProfile.cpp      | 13 +++++++++
 FCollada/FCDocument/FCDEffectTechnique.cpp    | 15 +++++++++++
 4 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffect.cpp b/FCollada/FCDocument/FCDEffect.cpp
index 9fe3c65..5e8d234 100644
--- a/FCollada/FCDocument/FCDEffect.cpp
+++ b/FCollada/FCDocument/FCDEffect.cpp
@@ -19,6 +19,8 @@
 #include "FCDocument/FCDEffectProfileFX.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
+#include "FCDocument/FCDEffectParameterSurface.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDImage.h"
 
@@ -101,20 +103,29 @@ FCDEntity* FCDEffect::Clone(FCDEntity* _clone, bool cloneChildren) const
 
 	if (clone != NULL)
 	{
-		// Clone the effect profiles
-		for (const FCDEffectProfile** itR = profiles.begin(); itR != profiles.end(); ++itR)
-		{
-			FCDEffectProfile* clonedProfile = clone->AddProfile((*itR)->GetType());
-			(*itR)->Clone(clonedProfile);
-		}
-
-		// Clone the effect parameters
+		// Clone the effect parameters: needs to happen before the profiles are cloned.
 		size_t parameterCount = parameters.size();
 		for (size_t p = 0; p < parameterCount; ++p)
 		{
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
 		}
+
+		// The cloned samplers use the cloned surfaces.
+		for (size_t p = 0; p < parameterCount; ++p)
+		{
+			FCDEffectParameter* parameter = clone->GetEffectParameter(p);
+			if (!parameter->HasType(FCDEffectParameterSampler::GetClassType())) continue;
+			FCDEffectParameterSampler* sampler = (FCDEffectParameterSampler*) parameter;
+			sampler->RelinkSurface(this, clone);
+		}
+
+		// Clone the effect profiles
+		for (const FCDEffectProfile** itR = profiles.begin(); itR != profiles.end(); ++itR)
+		{
+			FCDEffectProfile* clonedProfile = clone->AddProfile((*itR)->GetType());
+			(*itR)->Clone(clonedProfile);
+		}
 	}
 	return _clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.h b/FCollada/FCDocument/FCDEffectParameterSampler.h
index b982c96..6b248bb 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.h
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.h
@@ -82,6 +82,23 @@ public:
 			to unlink the sampler. */
 	void SetSurface(FCDEffectParameterSurface* surface);
 
+	/** [INTERNAL] Moves a cloned sampler from the surface of the original scope
+		to the clone of that surface. Nothing happens when the surface does not
+		belong to the original scope.
+		@param original The effect, profile or technique that was cloned.
+		@param clone The clone of that effect, profile or technique. */
+	template <class Scope> void RelinkSurface(const Scope* original, Scope* clone)
+	{
+		if (original == NULL || clone == NULL || surface == NULL) return;
+		size_t count = min(original->GetEffectParameterCount(), clone->GetEffectParameterCount());
+		for (size_t i = 0; i < count; ++i)
+		{
+			if ((const FCDEffectParameter*) original->GetEffectParameter(i) != (const FCDEffectParameter*) GetSurface()) continue;
+			SetSurface((FCDEffectParameterSurface*) clone->GetEffectParameter(i));
+			break;
+		}
+	}
+
 	/** Retrieves the type of sampling to do.
 		@return The sampling type. */
 	SamplerType GetSamplerType() const { return (SamplerType) *samplerType; }
diff --git a/FCollada/FCDocument/FCDEffectProfile.cpp b/FCollada/FCDocument/FCDEffectProfile.cpp
index ee9389d..a35c766 100644
--- a/FCollada/FCDocument/FCDEffectProfile.cpp
+++ b/FCollada/FCDocument/FCDEffectProfile.cpp
@@ -12,6 +12,8 @@
 #include "FCDocument/FCDEffectProfile.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
+#include "FCDocument/FCDEffectParameterSurface.h"
 #include "FCDocument/FCDExtra.h"
 #include "FCDocument/FCDImage.h"
 #include "FCDocument/FCDLibrary.h"
@@ -46,6 +48,17 @@ FCDEffectProfile* FCDEffectProfile::Clone(FCDEffectProfile* clone) const
 		FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 		parameters[p]->Clone(parameter);
 	}
+
+	// The cloned samplers use the cloned surfaces.
+	for (size_t p = 0; p < parameterCount; ++p)
+	{
+		FCDEffectParameter* parameter = clone->GetEffectParameter(p);
+		if (!parameter->HasType(FCDEffectParameterSampler::GetClassType())) continue;
+		FCDEffectParameterSampler* sampler = (FCDEffectParameterSampler*) parameter;
+		sampler->RelinkSurface(this, clone);
+		sampler->RelinkSurface(GetParent(), clone->GetParent());
+	}
+
 	extra->Clone(clone->extra);
 	return clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectTechnique.cpp b/FCollada/FCDocument/FCDEffectTechnique.cpp
index f434391..5a81cfe 100644
--- a/FCollada/FCDocument/FCDEffectTechnique.cpp
+++ b/FCollada/FCDocument/FCDEffectTechnique.cpp
@@ -14,6 +14,8 @@
 #include "FCDocument/FCDEffectProfileFX.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
+#include "FCDocument/FCDEffectParameterSurface.h"
 #include "FCDocument/FCDEffectTechnique.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDImage.h"
@@ -71,6 +73,19 @@ FCDEffectTechnique* FCDEffectTechnique::Clone(FCDEffectTechnique* clone) const
 		parameters[p]->Clone(parameter);
 	}
 
+	// The cloned samplers use the cloned surfaces.
+	for (size_t p = 0; p < parameterCount; ++p)
+	{
+		FCDEffectParameter* parameter = clone->GetEffectParameter(p);
+		if (!parameter->HasType(FCDEffectParameterSampler::GetClassType())) continue;
+		FCDEffectParameterSampler* sampler = (FCDEffectParameterSampler*) parameter;
+		sampler->RelinkSurface(this, clone);
+		const FCDEffectProfile* profile = GetParent();
+		FCDEffectProfile* cloneProfile = clone->GetParent();
+		sampler->RelinkSurface(profile, cloneProfile);
+		if (profile != NULL && cloneProfile != NULL) sampler->RelinkSurface(profile->GetParent(), cloneProfile->GetParent());
+	}
+
 	// Clone the codes: need to happen before the passes are cloned
 	clone->codes.reserve(codes.size());
 	for (const FCDEffectCode** itC = codes.begin(); itC != codes.end(); ++itC)
-- 
2.43.0


From bb6fca2b947a0d743f6f3aca9495a438ef12ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 129/205] fix: make the clone of a texture use the clone of its
 sampler

---
 FCollada/FCDocument/FCDTexture.cpp | 32 +++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 7e13144..33c72f3 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -126,7 +126,37 @@ FCDTexture* FCDTexture::Clone(FCDTexture* clone) const
 
 	if (sampler != NULL)
 	{
-		sampler->Clone(clone->GetSampler());
+		// The sampler of a cloned profile has been cloned along with the profile.
+		if (parent != NULL && clone->parent != NULL && clone->parent != parent && clone->sampler == NULL)
+		{
+			size_t count = min(parent->GetEffectParameterCount(), clone->parent->GetEffectParameterCount());
+			for (size_t i = 0; i < count && clone->sampler == NULL; ++i)
+			{
+				if (const_cast<const FCDEffectStandard*>(parent)->GetEffectParameter(i) != (const FCDEffectParameter*) sampler) continue;
+				FCDEffectParameter* parameter = clone->parent->GetEffectParameter(i);
+				if (parameter->HasType(FCDEffectParameterSampler::GetClassType())) clone->sampler = (FCDEffectParameterSampler*) parameter;
+			}
+
+			// So has that of a cloned effect.
+			const FCDEffect* effect = parent->GetParent();
+			FCDEffect* cloneEffect = clone->parent->GetParent();
+			count = effect == NULL || cloneEffect == NULL ? 0 : min(effect->GetEffectParameterCount(), cloneEffect->GetEffectParameterCount());
+			for (size_t i = 0; i < count && clone->sampler == NULL; ++i)
+			{
+				if (effect->GetEffectParameter(i) != (const FCDEffectParameter*) sampler) continue;
+				FCDEffectParameter* parameter = cloneEffect->GetEffectParameter(i);
+				if (parameter->HasType(FCDEffectParameterSampler::GetClassType())) clone->sampler = (FCDEffectParameterSampler*) parameter;
+			}
+		}
+		if (clone->sampler == NULL && clone->parent == parent)
+		{
+			// A texture of the same profile samples the same way.
+			clone->sampler = const_cast<FCDEffectParameterSampler*>((const FCDEffectParameterSampler*) sampler);
+		}
+		if (clone->sampler == NULL)
+		{
+			sampler->Clone(clone->GetSampler());
+		}
 	}
 
 	return clone;
-- 
2.43.0


From 10edbd16bbf8c5b82b882f13fe3c053ba8b25647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 130/205] fix: clone the references and the reflective and
 refractive flags of a standard effect

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index 1d497c4..e71fec4 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -260,12 +260,14 @@ FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 		}
 		clone->transparencyMode = transparencyMode;
 
-#define CLONE_ANIMATED(value) clone->value->SetValue(value->GetValue()); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
+#define CLONE_ANIMATED(value) value->Clone(clone->value); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
 
 		CLONE_ANIMATED(emissionColor); CLONE_ANIMATED(emissionFactor); clone->isEmissionFactor = isEmissionFactor;
 		CLONE_ANIMATED(translucencyColor); CLONE_ANIMATED(translucencyFactor);
 		CLONE_ANIMATED(diffuseColor); CLONE_ANIMATED(ambientColor);
 		CLONE_ANIMATED(specularColor); CLONE_ANIMATED(specularFactor); CLONE_ANIMATED(shininess);
+		clone->isReflective = isReflective;
+		clone->isRefractive = isRefractive;
 		CLONE_ANIMATED(reflectivityColor); CLONE_ANIMATED(reflectivityFactor); CLONE_ANIMATED(indexOfRefraction);
 
 #undef CLONE_ANIMATED
-- 
2.43.0


From dd6b33c631183ff53f20f50417150d610cb27ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 131/205] fix: clone the platform of an effect profile

---
 FCollada/FCDocument/FCDEffectProfileFX.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectProfileFX.cpp b/FCollada/FCDocument/FCDEffectProfileFX.cpp
index c474bfe..035b866 100644
--- a/FCollada/FCDocument/FCDEffectProfileFX.cpp
+++ b/FCollada/FCDocument/FCDEffectProfileFX.cpp
@@ -82,6 +82,7 @@ FCDEffectProfile* FCDEffectProfileFX::Clone(FCDEffectProfile* _clone) const
 	if (clone != NULL)
 	{
 		clone->type = type;
+		clone->platform = platform;
 
 		// Clone the codes: needs to happen before the techniques are cloned.
 		clone->codes.reserve(codes.size());
-- 
2.43.0


From c53fd00b3535829a13f08ffc249451d8cf5cd6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 132/205] fix: keep the order, offsets, primitive type and
 extra tree of the inputs of a cloned mesh

---
 FCollada/FCDocument/FCDGeometryMesh.cpp     | 10 +++++++++-
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 17 ++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryMesh.cpp b/FCollada/FCDocument/FCDGeometryMesh.cpp
index c5d84ea..745b50b 100644
--- a/FCollada/FCDocument/FCDGeometryMesh.cpp
+++ b/FCollada/FCDocument/FCDGeometryMesh.cpp
@@ -249,7 +249,7 @@ FCDGeometryMesh* FCDGeometryMesh::Clone(FCDGeometryMesh* clone) const
 	FCDGeometrySourceCloneMap cloneMap;
 	for (const FCDGeometrySource** itS = sources.begin(); itS != sources.end(); ++itS)
 	{
-		FCDGeometrySource* clonedSource = (IsVertexSource(*itS)) ? clone->AddVertexSource() : clone->AddSource();
+		FCDGeometrySource* clonedSource = clone->AddSource();
 		(*itS)->Clone(clonedSource);
 		cloneMap.insert(*itS, clonedSource);
 	}
@@ -261,5 +261,13 @@ FCDGeometryMesh* FCDGeometryMesh::Clone(FCDGeometryMesh* clone) const
 		(*itP)->Clone(clonedPolys, cloneMap);
 	}
 
+	// The polygon sets have their own inputs already: list the per-vertex sources without adding any.
+	size_t vertexSourceCount = vertexSources.size();
+	for (size_t v = 0; v < vertexSourceCount; ++v)
+	{
+		FCDGeometrySourceCloneMap::iterator itC = cloneMap.find(vertexSources[v]);
+		if (itC != cloneMap.end()) clone->vertexSources.push_back((*itC).second);
+	}
+
 	return clone;
 }
diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index ce10538..243a73e 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -301,6 +301,7 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 
 	// Clone the miscellaneous information.
 	clone->materialSemantic = materialSemantic;
+	clone->primitiveType = primitiveType;
 	clone->faceVertexCounts = faceVertexCounts;
 	clone->faceOffset = faceOffset;
 	clone->faceVertexCount = faceVertexCount;
@@ -308,8 +309,10 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	clone->holeOffset = holeOffset;
 	clone->holeFaces = holeFaces;
 
+	if (extra != NULL) extra->Clone(clone->GetExtra());
+
 	// Clone the geometry inputs
-	// Note that the vertex source inputs are usually created by default.
+	clone->inputs.clear();
 	size_t inputCount = inputs.size();
 	clone->inputs.reserve(inputCount);
 	for (size_t i = 0; i < inputCount; ++i)
@@ -317,23 +320,19 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 		// Find the cloned source that correspond to the original input.
 		FCDGeometrySource* cloneSource = NULL;
 		FCDGeometrySourceCloneMap::const_iterator it = cloneMap.find(inputs[i]->GetSource());
-		if (it == cloneMap.end())
+		if (it == cloneMap.end() && inputs[i]->GetSource() != NULL)
 		{
 			// Attempt to match by ID instead.
 			const fm::string& id = inputs[i]->GetSource()->GetDaeId();
 			cloneSource = clone->GetParent()->FindSourceById(id);
 		}
-		else
+		else if (it != cloneMap.end())
 		{
 			cloneSource = (*it).second;
 		}
 
-		// Retrieve or create the input to clone.
-		FCDGeometryPolygonsInput* input = clone->FindInput(cloneSource);
-		if (input == NULL)
-		{
-			input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
-		}
+		// Create the input: many inputs may use the same source.
+		FCDGeometryPolygonsInput* input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
 
 		// Clone the input information.
 		if (inputs[i]->OwnsIndices())
-- 
2.43.0


From 3560e4c4faca284266055293fa172f7eaedf7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 133/205] fix: clone the offset of a physics plane

---
 FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
index 507377e..84eb40f 100644
--- a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
+++ b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
@@ -87,6 +87,7 @@ FCDEntity* FCDPASPlane::Clone(FCDEntity* _clone, bool cloneChildren) const
 	if (clone != NULL)
 	{
 		clone->normal = normal;
+		clone->d = d;
 	}
 	return _clone;
 }
-- 
2.43.0


From 963d767d1ccba7c113fe1db90710a2e01924b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 134/205] fix: give the clone of a physics shape its own
 material instance, and the same use of the density and of the library's
 material

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 45d7f27..223c024 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -123,14 +123,21 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 	if (mass != NULL) clone->SetMass(*mass);
 	if (density != NULL) clone->SetDensity(*density);
 	clone->SetHollow(hollow);
+	clone->isDensityMoreAccurate = isDensityMoreAccurate;
 
 	// Clone the material instance
 	if (instanceMaterialRef != NULL)
 	{
+		SAFE_RELEASE(clone->instanceMaterialRef);
 		clone->instanceMaterialRef = FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
-		instanceMaterialRef->Clone(instanceMaterialRef);
+		instanceMaterialRef->Clone(clone->instanceMaterialRef);
 	}
-	if (physicsMaterial != NULL)
+	if (physicsMaterial != NULL && !ownsPhysicsMaterial && GetDocument() == clone->GetDocument())
+	{
+		// The material belongs to the document: the clone uses it too.
+		clone->SetPhysicsMaterial(const_cast<FCDPhysicsMaterial*>(physicsMaterial.operator->()));
+	}
+	else if (physicsMaterial != NULL)
 	{
 		FCDPhysicsMaterial* clonedMaterial = clone->AddOwnPhysicsMaterial();
 		physicsMaterial->Clone(clonedMaterial);
-- 
2.43.0


From 44fa0ebfd4ee8fee9ac9fefcbe0c702b88332bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 135/205] fix: copy the density, the accuracy flags and the own
 material of the parameters of a rigid body

---
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index 03f6fa6..b68e6fb 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -77,7 +77,10 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	dynamic = original.dynamic;
 	mass = original.mass;
+	density = original.density;
+	isDensityMoreAccurate = original.isDensityMoreAccurate;
 	inertia = original.inertia;
+	isInertiaAccurate = original.isInertiaAccurate;
 	massFrameTranslate = original.massFrameTranslate;
 	massFrameOrientation = original.massFrameOrientation;
 
@@ -89,7 +92,7 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	if (original.physicsMaterial != NULL)
 	{
-		if (parent->IsLocal(original.parent))
+		if (parent->IsLocal(original.parent) && !original.ownsPhysicsMaterial)
 		{
 			SetPhysicsMaterial(const_cast<FCDPhysicsMaterial*> (original.physicsMaterial.operator->()));
 		}
@@ -103,7 +106,9 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 	// Clone the material instance
 	if (original.instanceMaterialRef != NULL)
 	{
-		instanceMaterialRef = original.instanceMaterialRef->Clone();
+		SAFE_RELEASE(instanceMaterialRef);
+		instanceMaterialRef = FCDEntityInstanceFactory::CreateInstance(parent->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
+		original.instanceMaterialRef->Clone(instanceMaterialRef);
 	}
 }
 
-- 
2.43.0


From 558ea8dfcf8e71a9729d34e4af95be2529fbebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 136/205] fix: clone the sub-id of a rigid constraint

---
 FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
index eb4a027..f80d247 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
@@ -83,6 +83,7 @@ FCDEntity* FCDPhysicsRigidConstraint::Clone(FCDEntity* _clone, bool cloneChildre
 
 	if (clone != NULL)
 	{
+		clone->sid = sid;
 		clone->enabled = enabled;
 		clone->interpenetrate = interpenetrate;
 		clone->referenceRigidBody = referenceRigidBody;
-- 
2.43.0


From ff98c216b0ada3047a264dc29ea81f0e503dfe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 137/205] fix: attach the constraints of a cloned physics model
 to its own rigid bodies

---
 FCollada/FCDocument/FCDPhysicsModel.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/FCollada/FCDocument/FCDPhysicsModel.cpp b/FCollada/FCDocument/FCDPhysicsModel.cpp
index f7f8699..7ca5836 100644
--- a/FCollada/FCDocument/FCDPhysicsModel.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModel.cpp
@@ -60,6 +60,7 @@ FCDEntity* FCDPhysicsModel::Clone(FCDEntity* _clone, bool cloneChildren) const
 	if (clone != NULL)
 	{
 		// Clone the rigid bodies
+		size_t firstRigidBody = clone->GetRigidBodyCount();
 		for (FCDPhysicsRigidBodyContainer::const_iterator it = rigidBodies.begin(); it != rigidBodies.end(); ++it)
 		{
 			FCDPhysicsRigidBody* clonedRigidBody = clone->AddRigidBody();
@@ -71,6 +72,14 @@ FCDEntity* FCDPhysicsModel::Clone(FCDEntity* _clone, bool cloneChildren) const
 		{
 			FCDPhysicsRigidConstraint* clonedConstraint = clone->AddRigidConstraint();
 			(*it)->Clone(clonedConstraint, cloneChildren);
+
+			// Attach the constraint to the cloned rigid bodies.
+			for (size_t i = 0; i < rigidBodies.size(); ++i)
+			{
+				FCDPhysicsRigidBody* clonedRigidBody = clone->GetRigidBody(firstRigidBody + i);
+				if ((*it)->GetReferenceRigidBody() == rigidBodies[i]) clonedConstraint->SetReferenceRigidBody(clonedRigidBody);
+				if ((*it)->GetTargetRigidBody() == rigidBodies[i]) clonedConstraint->SetTargetRigidBody(clonedRigidBody);
+			}
 		}
 
 		// Clone the model instances
-- 
2.43.0


From 22643e328ef2068fac2773f62ecb4d3e26d81e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 138/205] fix: release the keys of the curve that is cloned
 into

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 90730c5..6a88964 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -227,7 +227,7 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->SetTargetQualifier(targetQualifier);
 
 	// Pre-buffer the list of keys and clone them.
-	clone->keys.clear();
+	clone->SetKeyCount(0, FUDaeInterpolation::DEFAULT);
 	clone->keys.reserve(keys.size());
 	for (FCDAnimationKeyList::const_iterator it = keys.begin(); it != keys.end(); ++it)
 	{
-- 
2.43.0


From 9236e283c86a7ccdcb567075b53d6f97dfb05517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 139/205] fix: clone the content of a camera

---
 FCollada/FCDocument/FCDCamera.cpp | 24 ++++++++++++++++++++++++
 FCollada/FCDocument/FCDCamera.h   |  8 ++++++++
 2 files changed, 32 insertions(+)

diff --git a/FCollada/FCDocument/FCDCamera.cpp b/FCollada/FCDocument/FCDCamera.cpp
index ea97c8d..6a8181a 100644
--- a/FCollada/FCDocument/FCDCamera.cpp
+++ b/FCollada/FCDocument/FCDCamera.cpp
@@ -38,6 +38,30 @@ FCDCamera::~FCDCamera()
 {
 }
 
+FCDEntity* FCDCamera::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDCamera* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDCamera(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDCamera::GetClassType())) clone = (FCDCamera*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		clone->projection = projection;
+		clone->viewY = viewY;
+		clone->viewX = viewX;
+		clone->aspectRatio = aspectRatio;
+		clone->nearZ = nearZ;
+		clone->farZ = farZ;
+		if (GetHasHorizontalViewFlag()) clone->SetHasHorizontalViewFlag();
+		else clone->ResetHasHorizontalViewFlag();
+		if (GetHasVerticalViewFlag()) clone->SetHasVerticalViewFlag();
+		else clone->ResetHasVerticalViewFlag();
+	}
+	return _clone;
+}
+
 void FCDCamera::SetFovX(float _viewX)
 {
 	viewX = _viewX;
diff --git a/FCollada/FCDocument/FCDCamera.h b/FCollada/FCDocument/FCDCamera.h
index c2acdbf..9002216 100644
--- a/FCollada/FCDocument/FCDCamera.h
+++ b/FCollada/FCDocument/FCDCamera.h
@@ -226,6 +226,14 @@ public:
 	/** Sets the aspect ratio for the view of this camera.
 		@param aspectRatio The new view aspect ratio. */
 	void SetAspectRatio(float aspectRatio);
+
+	/** Copies the camera entity into a clone.
+		The clone may reside in another document.
+		@param clone The empty clone. If this pointer is NULL, a new camera
+			will be created and you will need to release the returned pointer manually.
+		@param cloneChildren Whether to recursively clone this entity's children.
+		@return The clone. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
 };
 
 #endif // _FCD_CAMERA_H_
-- 
2.43.0


From cd45ac2385908c712e51e8126c837710b3f79596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 140/205] fix: clone the content of a light

---
 FCollada/FCDocument/FCDLight.cpp | 25 +++++++++++++++++++++++++
 FCollada/FCDocument/FCDLight.h   |  8 ++++++++
 2 files changed, 33 insertions(+)

diff --git a/FCollada/FCDocument/FCDLight.cpp b/FCollada/FCDocument/FCDLight.cpp
index 85fcc66..20559fa 100644
--- a/FCollada/FCDocument/FCDLight.cpp
+++ b/FCollada/FCDocument/FCDLight.cpp
@@ -41,3 +41,28 @@ FCDLight::FCDLight(FCDocument* document)
 FCDLight::~FCDLight()
 {
 }
+
+FCDEntity* FCDLight::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDLight* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDLight(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDLight::GetClassType())) clone = (FCDLight*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		clone->color = color;
+		clone->intensity = intensity;
+		clone->lightType = lightType;
+		clone->constantAttenuationFactor = constantAttenuationFactor;
+		clone->linearAttenuationFactor = linearAttenuationFactor;
+		clone->quadracticAttenuationFactor = quadracticAttenuationFactor;
+		clone->fallOffExponent = fallOffExponent;
+		clone->fallOffAngle = fallOffAngle;
+		clone->outerAngle = outerAngle;
+		clone->penumbraAngle = penumbraAngle;
+		clone->dropoff = dropoff;
+	}
+	return _clone;
+}
diff --git a/FCollada/FCDocument/FCDLight.h b/FCollada/FCDocument/FCDLight.h
index 18d3f57..fb5fb8f 100644
--- a/FCollada/FCDocument/FCDLight.h
+++ b/FCollada/FCDocument/FCDLight.h
@@ -266,6 +266,14 @@ public:
 	/** Sets the drop-off for the light.
 		@param factor The drop-off for the light. */
 	void SetDropoff(float factor) { dropoff = factor; SetDirtyFlag(); }
+
+	/** Copies the light entity into a clone.
+		The clone may reside in another document.
+		@param clone The empty clone. If this pointer is NULL, a new light
+			will be created and you will need to release the returned pointer manually.
+		@param cloneChildren Whether to recursively clone this entity's children.
+		@return The clone. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
 };
 
 #endif // _FCD_LIGHT_H_
-- 
2.43.0


From 6e86ae1f34690d794ea97a6792b7df93c0ff2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 141/205] fix: clone the content of a controller

---
 FCollada/FCDocument/FCDController.cpp      | 15 +++++++++++++++
 FCollada/FCDocument/FCDController.h        |  8 ++++++++
 FCollada/FCDocument/FCDMorphController.cpp | 17 +++++++++++++++++
 FCollada/FCDocument/FCDMorphController.h   |  4 ++++
 FCollada/FCDocument/FCDSkinController.cpp  | 16 ++++++++++++++++
 FCollada/FCDocument/FCDSkinController.h    |  4 ++++
 6 files changed, 64 insertions(+)

diff --git a/FCollada/FCDocument/FCDController.cpp b/FCollada/FCDocument/FCDController.cpp
index 6c39545..9c571ba 100644
--- a/FCollada/FCDocument/FCDController.cpp
+++ b/FCollada/FCDocument/FCDController.cpp
@@ -37,6 +37,21 @@ FCDController::~FCDController()
 {
 }
 
+FCDEntity* FCDController::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDController* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDController(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDController::GetClassType())) clone = (FCDController*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		if (IsSkin()) skinController->Clone(clone->CreateSkinController());
+		else if (IsMorph()) morphController->Clone(clone->CreateMorphController());
+	}
+	return _clone;
+}
 
 // Sets the type of this controller to a skin controller.
 FCDSkinController* FCDController::CreateSkinController()
diff --git a/FCollada/FCDocument/FCDController.h b/FCollada/FCDocument/FCDController.h
index 25a166c..08e23b2 100644
--- a/FCollada/FCDocument/FCDController.h
+++ b/FCollada/FCDocument/FCDController.h
@@ -119,6 +119,14 @@ public:
 			is not a geometry. */
 	inline FCDController* GetBaseGeometryController() 	{ return const_cast<FCDController*>(const_cast<const FCDController*>(this)->GetBaseGeometryController()); }
 	const FCDController* GetBaseGeometryController() const; /**< See above. */
+
+	/** Copies the controller entity into a clone.
+		The clone may reside in another document.
+		@param clone The empty clone. If this pointer is NULL, a new controller
+			will be created and you will need to release the returned pointer manually.
+		@param cloneChildren Whether to recursively clone this entity's children. The target entities are not cloned.
+		@return The clone. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
 };
 
 #endif // _FCD_CONTROLLER_H_
diff --git a/FCollada/FCDocument/FCDMorphController.cpp b/FCollada/FCDocument/FCDMorphController.cpp
index 9077f41..e16afb8 100644
--- a/FCollada/FCDocument/FCDMorphController.cpp
+++ b/FCollada/FCDocument/FCDMorphController.cpp
@@ -165,6 +165,23 @@ bool FCDMorphController::IsSimilar(FCDEntity* entity)
 	return similar;
 }
 
+// Copies the morph controller
+void FCDMorphController::Clone(FCDMorphController* clone) const
+{
+	FUAssert(clone != NULL, return);
+
+	clone->method = method;
+	clone->SetBaseTarget(const_cast<FCDEntity*>(GetBaseTarget()));
+	size_t targetCount = morphTargets.size();
+	for (size_t i = 0; i < targetCount; ++i)
+	{
+		const FCDMorphTarget* target = morphTargets[i];
+		FCDMorphTarget* clonedTarget = clone->AddTarget(const_cast<FCDGeometry*>(target->GetGeometry()));
+		if (clonedTarget != NULL) clonedTarget->GetWeight() = target->GetWeight();
+	}
+	clone->SetDirtyFlag();
+}
+
 //
 // FCDMorphTarget
 //
diff --git a/FCollada/FCDocument/FCDMorphController.h b/FCollada/FCDocument/FCDMorphController.h
index d25366d..9de4006 100644
--- a/FCollada/FCDocument/FCDMorphController.h
+++ b/FCollada/FCDocument/FCDMorphController.h
@@ -188,6 +188,10 @@ public:
 		@param entity An entity.
 		@return Whether the given entity is similar to the base target. */
 	bool IsSimilar(FCDEntity* entity);
+
+	/** Copies the morph controller into a clone. The clone deforms the same base target.
+		@param clone The clone. */
+	void Clone(FCDMorphController* clone) const;
 };
 
 #endif // _FCD_MORPH_CONTROLLER_H_
diff --git a/FCollada/FCDocument/FCDSkinController.cpp b/FCollada/FCDocument/FCDSkinController.cpp
index b0919fc..be4e433 100644
--- a/FCollada/FCDocument/FCDSkinController.cpp
+++ b/FCollada/FCDocument/FCDSkinController.cpp
@@ -190,6 +190,22 @@ void FCDSkinController::ReduceInfluences(uint32 maxInfluenceCount, float minimum
 	SetDirtyFlag();
 }
 
+// Copies the skin controller
+void FCDSkinController::Clone(FCDSkinController* clone) const
+{
+	FUAssert(clone != NULL, return);
+
+	clone->SetInfluenceCount(0);
+	FCDEntity* targetEntity = const_cast<FCDEntity*>(GetTarget());
+	if (targetEntity != NULL) clone->SetTarget(targetEntity);
+	else clone->SetTargetUri(GetTargetUri());
+
+	clone->bindShapeTransform = bindShapeTransform;
+	clone->influences = influences;
+	clone->joints = joints;
+	clone->SetDirtyFlag();
+}
+
 //
 // FCDSkinControllerVertex
 //
diff --git a/FCollada/FCDocument/FCDSkinController.h b/FCollada/FCDocument/FCDSkinController.h
index 2eb224b..881eb14 100644
--- a/FCollada/FCDocument/FCDSkinController.h
+++ b/FCollada/FCDocument/FCDSkinController.h
@@ -244,6 +244,10 @@ public:
 		@param maxInfluenceCount The maximum number of influence to keep for each vertex.
 		@param minimumWeight The smallest weight to keep. */
 	void ReduceInfluences(uint32 maxInfluenceCount, float minimumWeight=0.0f);
+
+	/** Copies the skin controller into a clone. The clone deforms the same target.
+		@param clone The clone. */
+	void Clone(FCDSkinController* clone) const;
 };
 
 #endif // _FCD_SKIN_CONTROLLER_H_
-- 
2.43.0


From 00d13a1874b3d5e5482e2b35174f1424360090fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 142/205] fix: forget the id of the referenced entity when the
 reference is cleared

---
 FCollada/FCDocument/FCDEntityReference.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 3582ad2..01baae1 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -102,6 +102,8 @@ void FCDEntityReference::SetEntity(FCDEntity* _entity)
 	}
 	else
 	{
+		// Forget the id of the old entity, so that it isn't looked up again.
+		entityId.clear();
 		SetEntityDocument(NULL);
 	}
 
-- 
2.43.0


From 04219815d6e7cc87470b5d9f721ff7bfefc13da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 143/205] fix: let go of the old entity when the URI of a
 reference changes

---
 FCollada/FCDocument/FCDEntityReference.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 01baae1..b16c894 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -80,6 +80,13 @@ void FCDEntityReference::SetUri(const FUUri& uri)
 		}
 	}
 	SetPlaceHolder(documentPlaceHolder);
+
+	// Let go of the old entity: the one at the new URI is looked up when it is requested.
+	if (entity != NULL)
+	{
+		UntrackObject(entity);
+		entity = NULL;
+	}
 	SetDirtyFlag();
 }
 
-- 
2.43.0


From c81bb702baf7e424c4de850e68c5001ba3748565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 144/205] fix: make the samplers of a cloned material or
 instance use the clones of their surfaces

---
 FCollada/FCDocument/FCDGeometryInstance.cpp |  9 +++++++++
 FCollada/FCDocument/FCDMaterial.cpp         | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryInstance.cpp b/FCollada/FCDocument/FCDGeometryInstance.cpp
index 9c2ee74..ab75623 100644
--- a/FCollada/FCDocument/FCDGeometryInstance.cpp
+++ b/FCollada/FCDocument/FCDGeometryInstance.cpp
@@ -17,6 +17,7 @@
 #include "FCDocument/FCDController.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEntity.h"
 #include "FCDocument/FCDGeometry.h"
 #include "FCDocument/FCDGeometryInstance.h"
@@ -120,6 +121,14 @@ FCDEntityInstance* FCDGeometryInstance::Clone(FCDEntityInstance* _clone) const
 		parameters[p]->Clone(clonedParameter);
 	}
 
+	// The cloned samplers use the cloned surfaces.
+	for (size_t p = 0; p < clone->GetEffectParameterCount(); ++p)
+	{
+		FCDEffectParameter* clonedParameter = clone->GetEffectParameter(p);
+		if (!clonedParameter->HasType(FCDEffectParameterSampler::GetClassType())) continue;
+		((FCDEffectParameterSampler*) clonedParameter)->RelinkSurface(this, clone);
+	}
+
 	// Clone the material instances.
 	for (const FCDMaterialInstance** it = materials.begin(); it != materials.end(); ++it)
 	{
diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index b0490b0..0d8fe8c 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -18,6 +18,7 @@
 #include "FCDocument/FCDEffectTools.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEntityReference.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDMaterial.h"
@@ -111,6 +112,16 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
 		}
+
+		// The cloned samplers use the cloned surfaces.
+		for (size_t p = 0; p < clone->GetEffectParameterCount(); ++p)
+		{
+			FCDEffectParameter* parameter = clone->GetEffectParameter(p);
+			if (!parameter->HasType(FCDEffectParameterSampler::GetClassType())) continue;
+			FCDEffectParameterSampler* sampler = (FCDEffectParameterSampler*) parameter;
+			sampler->RelinkSurface(this, clone);
+			sampler->RelinkSurface(_effect, clone->GetEffect());
+		}
 	}
 
 	return _clone;
-- 
2.43.0


From 6e442ba7c273359eadd09b3fd99dd22ab297009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 145/205] fix: keep the up axis up when standardising between
 X_UP and Z_UP

---
 FCollada/FCDocument/FCDocumentTools.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 74dae0a..365637c 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -111,24 +111,24 @@ namespace FCDocumentTools
 			if (functor == Identity) return;
 
 
-			// Change out of the current up-axis into Y-up.
-			if (current == X && !rollOnly)
+			// Change into the target up-axis from Y-up: the change made last comes first on the stack.
+			if (target == X && !rollOnly)
 			{
-				SmartAddRotationPivot(node, FMVector3::ZAxis, 90.0f);
+				SmartAddRotationPivot(node, FMVector3::ZAxis, -90.0f);
 			}
-			else if (current == Z)
+			else if (target == Z)
 			{
-				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? 90.0f : -90.0f);
+				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? -90.0f : 90.0f);
 			}
 
-			// Change into the target up-axis.
-			if (target == X && !rollOnly)
+			// Change out of the current up-axis into Y-up.
+			if (current == X && !rollOnly)
 			{
-				SmartAddRotationPivot(node, FMVector3::ZAxis, -90.0f);
+				SmartAddRotationPivot(node, FMVector3::ZAxis, 90.0f);
 			}
-			else if (target == Z)
+			else if (current == Z)
 			{
-				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? -90.0f : 90.0f);
+				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? 90.0f : -90.0f);
 			}
 		}
 
@@ -153,10 +153,10 @@ namespace FCDocumentTools
 
 		static void Identity(FMVector3& UNUSED(data), int32 UNUSED(sign)) {}
 		static void XtoY(FMVector3& data, int32 sign) { float t = sign * data.x; data.x = data.y; data.y = t; }
-		static void XtoZ(FMVector3& data, int32 UNUSED(sign)) { float t = data.x; data.x = data.y; data.y = data.z; data.z = t; }
+		static void XtoZ(FMVector3& data, int32 sign) { float t = sign * data.x; data.x = data.z; data.z = sign * data.y; data.y = t; }
 		static void YtoX(FMVector3& data, int32 sign) { float t = data.x; data.x = sign * data.y; data.y = t; }
 		static void YtoZ(FMVector3& data, int32 sign) { float t = sign * data.y; data.y = data.z; data.z = t; }
-		static void ZtoX(FMVector3& data, int32 UNUSED(sign)) { float t = data.z; data.z = data.y; data.y = data.x; data.x = t; }
+		static void ZtoX(FMVector3& data, int32 sign) { float t = data.x; data.x = sign * data.y; data.y = sign * data.z; data.z = t; }
 		static void ZtoY(FMVector3& data, int32 sign) { float t = data.y; data.y = sign * data.z; data.z = t; }
 	};
 
-- 
2.43.0


From 7a7db37234fbcd31c895fdd7fddc522713fe3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 146/205] fix: standardise the nodes that are also children of
 other nodes once

---
 FCollada/FCDocument/FCDocumentTools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 365637c..dd54913 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -181,6 +181,7 @@ namespace FCDocumentTools
 	{
 	private:
 		FCDSceneNodeIteratorList queue;
+		fm::map<FCDSceneNode*, FCDSceneNode*> done; // a visual scene or library node may also be the child of other nodes.
 
 	public:
 		VisualSceneNodeIterator(FCDVisualSceneNodeLibrary* visualSceneLibrary)
@@ -207,6 +208,7 @@ namespace FCDocumentTools
 			if (queue.empty()) return NULL;
 
 			FCDSceneNode* node = queue.back()->GetNode();
+			done.insert(node, node);
 			queue.back()->Next();
 
 			return node;
@@ -223,6 +225,7 @@ namespace FCDocumentTools
 			while (!queue.empty())
 			{
 				FCDSceneNodeIterator* sceneNodeIterator = queue.back();
+				while (!sceneNodeIterator->IsDone() && done.find(sceneNodeIterator->GetNode()) != done.end()) sceneNodeIterator->Next();
 				if (!sceneNodeIterator->IsDone()) return;
 
 				SAFE_DELETE(sceneNodeIterator);
-- 
2.43.0


From fdc4449bba75265900d09de7f68112fd96fe1925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 147/205] fix: keep the orientation of the content of look-at
 transforms when standardising the up axis

---
 FCollada/FCDocument/FCDocumentTools.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index dd54913..defbfe7 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -132,9 +132,26 @@ namespace FCDocumentTools
 			}
 		}
 
+		// A look-at transform gives the directions of the local Y-axis and Z-axis: its content must first be turned out of the new up-axis.
+		void SetLookAtTransform(FCDSceneNode* node, size_t index)
+		{
+			if (functor == Identity) return;
+			if (target == X) AddRotation(node, index, FMVector3::ZAxis, 90.0f);
+			else if (target == Z) AddRotation(node, index, FMVector3::XAxis, -90.0f);
+			if (current == X) AddRotation(node, index, FMVector3::ZAxis, -90.0f);
+			else if (current == Z) AddRotation(node, index, FMVector3::XAxis, 90.0f);
+		}
+
 		void operator() (FMVector3& data, bool isScale = false) { (*functor)(data, (isScale ? 1 : -1)); }
 
 	private:
+		static void AddRotation(FCDSceneNode* node, size_t index, const FMVector3& axis, float angle)
+		{
+			FCDTRotation* rotate = (FCDTRotation*) node->AddTransform(FCDTransform::ROTATION, index);
+			rotate->SetAxis(axis);
+			rotate->SetAngle(angle);
+		}
+
 		void PrepareFunctor()
 		{
 			if (target == UNKNOWN || current == UNKNOWN || target == current) functor = Identity;
@@ -491,14 +508,14 @@ namespace FCDocumentTools
 				if (lengthFunctor.HasConversion() || upAxisFunctor.HasConversion())
 				{
 					size_t transformCount = node->GetTransformCount();
-					for (size_t t = 0; t < transformCount; ++t)
+					for (size_t t = transformCount; t-- > 0;)
 					{
 						FCDTransform* transform = node->GetTransform(t);
 						if (transform->HasType(FCDTTranslation::GetClassType())) CONVERT_VECT3L(((FCDTTranslation*) transform)->GetTranslation(), ((FCDTTranslation*) transform)->GetTranslation())
 						else if (transform->HasType(FCDTRotation::GetClassType())) CONVERT_VECT3(((FCDTRotation*) transform)->GetAngleAxis(), ((FCDTRotation*) transform)->GetAxis())
 						else if (transform->HasType(FCDTScale::GetClassType())) CONVERT_SCALE(((FCDTScale*) transform)->GetScale(), ((FCDTScale*) transform)->GetScale())
 						else if (transform->HasType(FCDTSkew::GetClassType())) { CONVERT_VECT3(((FCDTSkew*) transform)->GetSkew(), ((FCDTSkew*) transform)->GetRotateAxis()); CONVERT_VECT3(((FCDTSkew*) transform)->GetSkew(), ((FCDTSkew*) transform)->GetAroundAxis()); }
-						else if (transform->HasType(FCDTLookAt::GetClassType())) { CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetPosition()); CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetTarget()); CONVERT_VECT3(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetUp()); }
+						else if (transform->HasType(FCDTLookAt::GetClassType())) { CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetPosition()); CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetTarget()); CONVERT_VECT3(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetUp()); upAxisFunctor.SetLookAtTransform(node, t + 1); }
 						else if (transform->HasType(FCDTMatrix::GetClassType())) { CONVERT_MAT44(((FCDTMatrix*) transform)->GetTransform(), ((FCDTMatrix*) transform)->GetTransform()); }
 					}
 				}
-- 
2.43.0


From 68b76b5551e61ff604d4526d0ba2e27958eff399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 148/205] fix: look for the unit and up axis of an entity in
 its own, its library's, then its document's asset

---
 FCollada/FCDocument/FCDocumentTools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index defbfe7..6ed091a 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -255,7 +255,11 @@ namespace FCDocumentTools
 	{
 		FCDAssetList assets; assets.reserve(3);
 		entity->GetHierarchicalAssets(assets);
+		// From the most specific to the most general: the library comes before the document.
+		FCDAsset* documentAsset = entity->GetDocument()->GetAsset();
+		if (!assets.empty() && assets.back() == documentAsset) assets.pop_back();
 		if (libraryAsset != NULL) assets.push_back(libraryAsset);
+		assets.push_back(documentAsset);
 		bool hasLength = false;
 		bool hasAxis = false;
 		for (FCDAssetList::iterator it = assets.begin(); it != assets.end(); ++it)
-- 
2.43.0


From 538449c190f81f633a10b6d5608fe6ce501d97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 149/205] fix: let no asset keep the old unit or up axis after
 standardising, and none lose it before its children are done

---
 FCollada/FCDocument/FCDocumentTools.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 6ed091a..59f7b02 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -271,9 +271,8 @@ namespace FCDocumentTools
 		if (!hasAxis) upAxisFunctor.SetCurrent(FMVector3::Origin);
 	}
 
-	inline void ResetAsset(FCDEntity* entity)
+	inline void ResetAsset(FCDAsset* asset)
 	{
-		FCDAsset* asset = const_cast<FCDAsset*>(const_cast<const FCDEntity*>(entity)->GetAsset());
 		if (asset != NULL)
 		{
 			asset->ResetHasUnitsFlag();
@@ -281,6 +280,11 @@ namespace FCDocumentTools
 		}
 	}
 
+	inline void ResetAsset(FCDEntity* entity)
+	{
+		ResetAsset(const_cast<FCDAsset*>(const_cast<const FCDEntity*>(entity)->GetAsset()));
+	}
+
 	void ConvertAnimationVector3(FCDAnimated* animated1, FCDAnimated* animated2, FCDAnimated* animated3, float* v1, float* v2, float* v3, FCDocument* document, FCDConversionUnitFunctor& lengthFunctor, FCDConversionSwapFunctor& upAxisFunctor, bool convertLength, bool isScale = false)
 	{
 		FUAssert(animated1 != NULL && animated2 != NULL && animated3 != NULL, return);
@@ -570,9 +574,12 @@ namespace FCDocumentTools
 					CLEAR_POINTER_VECTOR(toRemove);
 				}
 
-				ResetAsset(node);
 			}
 
+			// The assets of the nodes also apply to their children: reset them only once all the nodes are modified.
+			VisualSceneNodeIterator resetNodeIt(document->GetVisualSceneLibrary());
+			while (!resetNodeIt.IsDone()) ResetAsset(resetNodeIt.Next());
+
 			// Iterate over the skin controllers: need to convert the bind-poses.
 			size_t controllerCount = document->GetControllerLibrary()->GetEntityCount();
 			for (size_t i = 0; i < controllerCount; ++i)
@@ -720,6 +727,12 @@ namespace FCDocumentTools
 				ResetAsset(library->GetEntity(i));
 			}
 
+			ResetAsset(document->GetVisualSceneLibrary()->GetAsset(false));
+			ResetAsset(document->GetControllerLibrary()->GetAsset(false));
+			ResetAsset(document->GetGeometryLibrary()->GetAsset(false));
+			ResetAsset(document->GetCameraLibrary()->GetAsset(false));
+			ResetAsset(document->GetAnimationLibrary()->GetAsset(false));
+
 			document->GetAsset()->SetUnitConversionFactor(unitInMeters);
 			document->GetAsset()->SetUpAxis(_upAxis);
 		}
-- 
2.43.0


From 73af1996844d1d26ddf677a47543a872e2ba12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 150/205] fix: convert the animations of the right components
 of normals and tangents when standardising the up axis

---
 FCollada/FCDocument/FCDocumentTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 59f7b02..7e587a8 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -666,9 +666,9 @@ namespace FCDocumentTools
 									{
 										FMVector3& v = *(FMVector3*) (ptr + j * stride);
 										upAxisFunctor(v);
-										if (source->GetSourceData().IsAnimated(j) || source->GetSourceData().IsAnimated(j + 1) || source->GetSourceData().IsAnimated(j + 2))
+										if (source->GetSourceData().IsAnimated(stride * j) || source->GetSourceData().IsAnimated(stride * j + 1) || source->GetSourceData().IsAnimated(stride * j + 2))
 										{
-											ConvertAnimationVector3(source->GetSourceData().GetAnimated(j), source->GetSourceData().GetAnimated(j+1), source->GetSourceData().GetAnimated(j+2), v, document, lengthFunctor, upAxisFunctor, false);
+											ConvertAnimationVector3(source->GetSourceData().GetAnimated(stride * j), source->GetSourceData().GetAnimated(stride * j + 1), source->GetSourceData().GetAnimated(stride * j + 2), v, document, lengthFunctor, upAxisFunctor, false);
 										}
 									}
 								}
-- 
2.43.0


From 67d753824d0935bf633b69710cbf48a4d28bc717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 151/205] fix: load the malformed meshes and splines without
 crashing

---
 .../FArchiveXML/FAXGeometryImport.cpp         | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 81641b3..70db5f7 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -113,11 +113,11 @@ bool FArchiveXML::LoadGeometryMesh(FCDObject* object, xmlNode* meshNode)
 	}
 	if (!hasPositions)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, meshNode->line);
 	}
 	if (geometryMesh->GetVertexSourceCount() == 0)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, meshNode->line);
 	}
 
 	// Create our rendering object and read in the tessellation
@@ -285,11 +285,17 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		if (IsEquivalent(itNode->name, DAE_INPUT_ELEMENT))
 		{
 			fm::string sourceId = ReadNodeSource(itNode);
-			if (sourceId[0] == '#') sourceId.erase(0, 1);
+			if (!sourceId.empty() && sourceId[0] == '#') sourceId.erase(0, 1);
 
 			// Parse input idx/offset
 			fm::string idx = ReadNodeProperty(itNode, DAE_OFFSET_ATTRIBUTE);
 			uint32 offset = (!idx.empty()) ? FUStringConversion::ToUInt32(idx) : (uint32) (idxOwners.size() + 1);
+			if (offset > 0xFFFF)
+			{
+				// No index list is that wide.
+				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_POLYGONS_INPUT, itNode->line);
+				continue;
+			}
 			if (offset >= idxOwners.size()) idxOwners.resize(offset + 1);
 
 			// Parse input set
@@ -402,8 +408,8 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 			// Count the total number of face-vertices expected, to pre-buffer the index lists
 			// The absolute maximum possible is the number of vertices (That is, a face
 			// that includes every vertex)
-			// We can assume all these ptrs are valid, otherwise we wouldnt get here.
-			size_t nVertices = geometryPolygons->GetParent()->GetPositionSource()->GetValueCount();
+			FCDGeometrySource* positionSource = geometryPolygons->GetParent()->GetPositionSource();
+			size_t nVertices = (positionSource != NULL) ? positionSource->GetValueCount() : 0;
 			expectedVertexCount = 0;
 			for (size_t i = 0; i < vCountCount; ++i)
 			{
@@ -417,7 +423,8 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		}
 	}
 
-	// Pre-allocate the buffers with enough memory
+	// Pre-allocate the buffers with enough memory. The counts are only hints until the indices are read.
+	if (expectedVertexCount > 0x100000) expectedVertexCount = 0x100000;
 	fm::pvector<UInt32List> allIndices;
 	UInt32List* masterIndices = NULL;
 	size_t indexStride = idxOwners.size();
@@ -435,6 +442,13 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		}
 	}
 
+	if (masterIndices == NULL)
+	{
+		// There is no vertex source to index.
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_NO_VERTEX_INPUT, baseNode->line);
+		return status;
+	}
+
 	// Process the tessellation
 	for (; itNode != NULL; itNode = itNode->next)
 	{
@@ -593,6 +607,11 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 
 		// Read in the typed spline.
 		FCDSpline* spline = geometrySpline->AddSpline();
+		if (spline == NULL)
+		{
+			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_DEFAULT_ERROR, splineNode->line);
+			return false;
+		}
 		bool s = FArchiveXML::LoadSwitch(spline, &spline->GetObjectType(), splineNode);
 		if (!s)
 		{
@@ -688,7 +707,7 @@ bool FArchiveXML::LoadNURBSSpline(FCDObject* object, xmlNode* splineNode)
 	for (size_t i = 0; i < inputElements.size(); i++)
 	{
 		xmlNode* inputNode = inputElements[i];
-		fm::string sourceId = ReadNodeProperty(inputNode, DAE_SOURCE_ATTRIBUTE).substr(1);
+		fm::string sourceId = ReadNodeProperty(inputNode, DAE_SOURCE_ATTRIBUTE);
 		if (sourceId.empty()) { FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_DEFAULT_ERROR); return status; }
 		xmlNode* sourceNode = FindChildById(splineNode, sourceId);
 		if (sourceNode == NULL) { FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_DEFAULT_ERROR); return status; }
-- 
2.43.0


From 4a46eeb7f5fac30d345f6266aff0f9ad05e1ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 152/205] fix: load the malformed skins and morphs without
 crashing

---
 .../FArchiveXML/FAXControllerImport.cpp       | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 2b9e7a0..c9970a1 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -115,6 +115,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (firstCombinerValueNode == NULL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, combinerNode->line);
+		return status = false;
 	}
 
 	// Process these inputs
@@ -157,8 +158,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	}
 
 	// Parse the <vcount> and the <v> elements
-	UInt32List combinerVertexCounts; combinerVertexCounts.reserve(combinerValueCount);
-	Int32List combinerVertexIndices; combinerVertexIndices.reserve(combinerValueCount * 5);
+	UInt32List combinerVertexCounts;
+	Int32List combinerVertexIndices;
 
 	// The <vcount> and the <v> elements are ordered. Read the <vcount> element first.
 	if (!IsEquivalent(firstCombinerValueNode->name, DAE_VERTEXCOUNT_ELEMENT))
@@ -173,9 +174,9 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	while (vNode != NULL && vNode->type != XML_ELEMENT_NODE) vNode = vNode->next;
 	if (vNode == NULL || !IsEquivalent(vNode->name, DAE_VERTEX_ELEMENT))
 	{
-		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, vNode->line);
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, combinerNode->line);
 	}
-	content = ReadNodeContentDirect(vNode);
+	content = (vNode != NULL) ? ReadNodeContentDirect(vNode) : NULL;
 	FUStringConversion::ToInt32List(content, combinerVertexIndices);
 	size_t combinerVertexIndexCount = combinerVertexIndices.size();
 
@@ -187,7 +188,14 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (combinerVertexCounts.size() != combinerValueCount)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, skinNode->line);
+		combinerValueCount = min(combinerValueCount, (uint32) combinerVertexCounts.size());
+	}
+	if (jointIdx < 0 || jointIdx > 0xFFFF || weightIdx < 0 || weightIdx > 0xFFFF)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_INPUT, combinerNode->line);
+		return status = false;
 	}
+	size_t lastIdx = (size_t) max(jointIdx, weightIdx);
 
 	// Setup the joint-weight-vertex matches
 	skinController->SetInfluenceCount(combinerValueCount);
@@ -196,8 +204,13 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	{
 		FCDSkinControllerVertex* vert = skinController->GetVertexInfluence(j);
 		uint32 localValueCount = combinerVertexCounts[j];
+		if (localValueCount > combinerVertexIndexCount)
+		{
+			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, skinNode->line);
+			localValueCount = 0;
+		}
 		vert->SetPairCount(localValueCount);
-		for (size_t i = 0; i < localValueCount && offset < combinerVertexIndexCount - 1; ++i)
+		for (size_t i = 0; i < localValueCount && offset + lastIdx < combinerVertexIndexCount; ++i)
 		{
 			FCDJointWeightPair* pair = vert->GetPair(i);
 			pair->jointIndex = combinerVertexIndices[offset + jointIdx];
@@ -212,7 +225,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_WEIGHT_INDEX);
 				weightIndex = 0;
 			}
-			pair->weight = weights[weightIndex];
+			pair->weight = (weightIndex < weightCount) ? weights[weightIndex] : 0.0f;
 			offset += 2;
 		}
 	}
@@ -235,7 +248,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	for (size_t i = 0; i < jointCount; ++i)
 	{
 		skinController->GetJoint(i)->SetId(jointSubIds[i]);
-		skinController->GetJoint(i)->SetBindPoseInverse(invertedBindPoses[i]);
+		skinController->GetJoint(i)->SetBindPoseInverse((i < invertedBindPoses.size()) ? invertedBindPoses[i] : FMMatrix44::Identity);
 	}
 
 	skinController->SetDirtyFlag();
@@ -298,7 +311,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 	}
 	if (targetSourceNode == NULL || weightSourceNode == NULL)
 	{
-		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_INPUT, targetsNode->line);
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_INPUT, morphNode->line);
 		return status;
 	}
 
@@ -321,7 +334,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_TARGET_GEOMETRY_MISSING, morphNode->line);
 		}
-		FCDMorphTarget* morphTarget = morphController->AddTarget(targetGeometry, weights[i]);
+		FCDMorphTarget* morphTarget = morphController->AddTarget(targetGeometry, ((size_t) i < weights.size()) ? weights[i] : 0.0f);
 
 		// Record the morphing weight as animatable
 		// COLLADA has a morph weight array, but FCollada considers each weight independently.
-- 
2.43.0


From c00d7a732df06465f6069276faf50431e5798410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 153/205] fix: find no base geometry, instead of looping
 forever, when controllers target each other

---
 FCollada/FCDocument/FCDController.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDController.cpp b/FCollada/FCDocument/FCDController.cpp
index 9c571ba..a2f614d 100644
--- a/FCollada/FCDocument/FCDController.cpp
+++ b/FCollada/FCDocument/FCDController.cpp
@@ -88,8 +88,11 @@ const FCDEntity* FCDController::GetBaseTarget() const
 const FCDGeometry* FCDController::GetBaseGeometry() const
 {
 	const FCDEntity* base = GetBaseTarget();
+	fm::pvector<const FCDEntity> visited; // controllers that target each other have no base geometry.
 	while (base != NULL && base->GetType() == FCDEntity::CONTROLLER)
 	{
+		if (visited.contains(base)) return NULL;
+		visited.push_back(base);
 		base = ((const FCDController*) base)->GetBaseTarget();
 	}
 
@@ -105,8 +108,11 @@ const FCDController* FCDController::GetBaseGeometryController() const
 {
 	const FCDEntity* parentBase = this;
 	const FCDEntity* base = GetBaseTarget();
+	fm::pvector<const FCDEntity> visited;
 	while (base != NULL && base->GetType() == FCDEntity::CONTROLLER)
 	{
+		if (visited.contains(base)) return NULL;
+		visited.push_back(base);
 		parentBase = base;
 		base = ((const FCDController*) base)->GetBaseTarget();
 	}
-- 
2.43.0


From eac727d9a9ee607c6782474a9aa98d464fa3035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 154/205] fix: let no reference resolve to an entity of another
 type

---
 FCollada/FCDocument/FCDEntityInstance.cpp  | 1 +
 FCollada/FCDocument/FCDEntityReference.cpp | 2 ++
 FCollada/FCDocument/FCDEntityReference.h   | 9 +++++++++
 FCollada/FCDocument/FCDMaterial.cpp        | 1 +
 FCollada/FCDocument/FCDocument.cpp         | 2 ++
 5 files changed, 15 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityInstance.cpp b/FCollada/FCDocument/FCDEntityInstance.cpp
index ab45ec6..63e6a62 100644
--- a/FCollada/FCDocument/FCDEntityInstance.cpp
+++ b/FCollada/FCDocument/FCDEntityInstance.cpp
@@ -37,6 +37,7 @@ FCDEntityInstance::FCDEntityInstance(FCDocument* document, FCDSceneNode* _parent
 {
 	// Always create this
 	entityReference = new FCDEntityReference(document, _parent);
+	entityReference->SetExpectedType(type);
 	TrackObject(entityReference);
 }
 
diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index b16c894..9c61a5b 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -24,6 +24,7 @@ FCDEntityReference::FCDEntityReference(FCDocument* document, FCDObjectWithId* _p
 :	FCDObject(document)
 ,	entity(NULL)
 ,	placeHolder(NULL)
+,	expectedType(FCDEntity::ENTITY)
 ,	baseObject(_parent)
 {
 	// No need to track base object - it must track us!
@@ -163,6 +164,7 @@ void FCDEntityReference::LoadEntity()
 	if (!entityId.empty())
 	{
 		entity = entityDocument->FindEntity(entityId);
+		if (entity != NULL && expectedType != FCDEntity::ENTITY && entity->GetType() != expectedType) entity = NULL;
 		if (entity != NULL) TrackObject(entity);
 		else
 		{
diff --git a/FCollada/FCDocument/FCDEntityReference.h b/FCollada/FCDocument/FCDEntityReference.h
index c63963b..c13e016 100644
--- a/FCollada/FCDocument/FCDEntityReference.h
+++ b/FCollada/FCDocument/FCDEntityReference.h
@@ -17,6 +17,9 @@
 #ifndef __FCD_OBJECT_H_
 #include "FCDocument/FCDObject.h"
 #endif // __FCD_OBJECT_H_
+#ifndef _FCD_ENTITY_H_
+#include "FCDocument/FCDEntity.h"
+#endif // _FCD_ENTITY_H_
 #ifndef _FU_URI_H_
 #include "FUtils/FUUri.h"
 #endif // _FU_URI_H_
@@ -58,6 +61,7 @@ private:
 	FCDEntity* entity;
 	FCDPlaceHolder* placeHolder;
 	fm::string entityId;
+	FCDEntity::Type expectedType;
 
 	// Pointer back to the nearest object with id that references
 	// us down the hierarchy.  This is because the references from the
@@ -99,6 +103,11 @@ public:
 		@param id The COLLADA id of the referenced entity. */
 	void SetEntityId(const fm::string& id) { entityId = id; SetDirtyFlag(); }
 
+	/** Sets the type of the entities that this reference looks up by id.
+		An entity of another type is not found.
+		@param type The expected entity type. FCDEntity::ENTITY allows for any type. */
+	void SetExpectedType(FCDEntity::Type type) { expectedType = type; }
+
 	/** Retrieves the full URI of the external reference.
 		This points to the COLLADA document and the id of the referenced entity.
 		@return The referenced entity URI. */
diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index 0d8fe8c..64b717d 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -38,6 +38,7 @@ FCDMaterial::FCDMaterial(FCDocument* document)
 ,	InitializeParameterNoArg(parameters)
 {
 	effect = new FCDEntityReference(document, this);
+	effect->SetExpectedType(FCDEntity::EFFECT);
 }
 
 FCDMaterial::~FCDMaterial()
diff --git a/FCollada/FCDocument/FCDocument.cpp b/FCollada/FCDocument/FCDocument.cpp
index c67e4f7..39d11d6 100644
--- a/FCollada/FCDocument/FCDocument.cpp
+++ b/FCollada/FCDocument/FCDocument.cpp
@@ -104,6 +104,7 @@ FCDocument::FCDocument()
 	externalReferenceManager = new FCDExternalReferenceManager(this);
 	extra = new FCDExtra(this, this);
 	visualSceneRoot = new FCDEntityReference(this, NULL);
+	visualSceneRoot->SetExpectedType(FCDEntity::SCENE_NODE);
 
 	animationLibrary = new FCDAnimationLibrary(this);
 	animationClipLibrary = new FCDAnimationClipLibrary(this);
@@ -178,6 +179,7 @@ const FCDPhysicsScene* FCDocument::GetPhysicsSceneInstance(size_t index) const
 FCDEntityReference* FCDocument::AddPhysicsSceneInstanceReference()
 {
 	physicsSceneRoots.push_back(new FCDEntityReference(this, (FCDObjectWithId*) NULL));
+	physicsSceneRoots.back()->SetExpectedType(FCDEntity::PHYSICS_SCENE_NODE);
 	return physicsSceneRoots.back();
 }
 
-- 
2.43.0


From 73f5757429a9b0bc6d82d2b4b14ae2ddf7d1add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 155/205] fix: load the lights without a common technique

---
 FColladaPlugins/FArchiveXML/FAXLightImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
index 5495648..7ebdd61 100644
--- a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
@@ -30,7 +30,7 @@ bool FArchiveXML::LoadLight(FCDObject* object, xmlNode* lightNode)
 
 	// Look for the <point>, <directional>, <spot> or <ambient> element under the common-profile technique
 	xmlNode* lightParameterNode = NULL;
-	for (xmlNode* child = commonTechniqueNode->children; child != NULL; child = child->next)
+	for (xmlNode* child = (commonTechniqueNode != NULL) ? commonTechniqueNode->children : NULL; child != NULL; child = child->next)
 	{
 		if (child->type != XML_ELEMENT_NODE) continue;
 		if (IsEquivalent(child->name, DAE_LIGHT_POINT_ELEMENT)) { lightParameterNode = child; light->SetLightType(FCDLight::POINT); break; }
-- 
2.43.0


From 667ad607f7562f2fa31cdd6192d5d181fdd79e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 156/205] fix: load the malformed animations without crashing,
 nor losing the good channels

---
 .../FArchiveXML/FAXAnimationImport.cpp        | 26 ++++++++++++++-----
 .../FArchiveXML/FAXInstanceImport.cpp         | 12 ++++++---
 .../FArchiveXML/FAXMaterialImport.cpp         |  1 +
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 4e6d44e..cdbe334 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -87,6 +87,11 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 	fm::string accessorStrideString = ReadNodeProperty(outputAccessor, DAE_STRIDE_ATTRIBUTE);
 	uint32 curveCount = FUStringConversion::ToUInt32(accessorStrideString);
 	if (curveCount == 0) curveCount = 1;
+	if (curveCount > 16 && curveCount > FUStringConversion::CountValues(ReadNodeContentDirect(FindChildByType(outputSource, DAE_FLOAT_ARRAY_ELEMENT))))
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_SOURCE_SIZE, outputSource->line);
+		return false;
+	}
 
 	// Create the animation curves
 	for (uint32 i = 0; i < curveCount; ++i)
@@ -362,10 +367,10 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 xmlNode* FArchiveXML::FindChildByIdFCDAnimation(FCDAnimation* animation, const fm::string& _id)
 {
 	FCDAnimationDataMap::iterator animationIt = FArchiveXML::documentLinkDataMap[animation->GetDocument()].animationData.find(animation);
-	FUAssert(animationIt != FArchiveXML::documentLinkDataMap[animation->GetDocument()].animationData.end(),);
+	FUAssert(animationIt != FArchiveXML::documentLinkDataMap[animation->GetDocument()].animationData.end(), return NULL);
 	FCDAnimationData& data = animationIt->second;
 
-	FUCrc32::crc32 id = FUCrc32::CRC32(_id.c_str() + ((_id[0] == '#') ? 1 : 0));
+	FUCrc32::crc32 id = FUCrc32::CRC32(_id.c_str() + ((!_id.empty() && _id[0] == '#') ? 1 : 0));
 	for (FAXNodeIdPair* it = data.childNodes.begin(); it != data.childNodes.end(); ++it)
 	{
 		if (it->second == id) return it->first;
@@ -417,8 +422,12 @@ bool FArchiveXML::LoadAnimation(FCDObject* object, xmlNode* node)
 		// Parse each <channel> element individually
 		// They each handle reading the <sampler> and <source> elements
 		FCDAnimationChannel* channel = animation->AddChannel();
-		status &= (FArchiveXML::LoadAnimationChannel(channel, *itC));
-		if (!status) SAFE_RELEASE(channel);
+		if (!FArchiveXML::LoadAnimationChannel(channel, *itC))
+		{
+			FArchiveXML::documentLinkDataMap[animation->GetDocument()].animationChannelData.erase(channel);
+			SAFE_RELEASE(channel);
+			status = false;
+		}
 	}
 
 	// Parse all the hierarchical <animation> elements
@@ -459,7 +468,7 @@ bool FArchiveXML::LoadAnimationClip(FCDObject* object, xmlNode* clipNode)
 		FCDEntityInstance* animationInstance = animationClip->AddInstanceAnimation();
 		if (!LoadSwitch(animationInstance, &animationInstance->GetObjectType(), *itI))
 		{
-			SAFE_DELETE(animationInstance);
+			SAFE_RELEASE(animationInstance);
 			continue;
 		}
 
@@ -523,14 +532,17 @@ bool FArchiveXML::ProcessChannels(FCDAnimated* animated, FCDAnimationChannelList
 
 		// Retrieve the channel's qualifier and check for a requested matrix element
 		FCDAnimationChannelDataMap::iterator itChannelData = FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.find(channel);
-		FUAssert(itChannelData != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(),);
+		FUAssert(itChannelData != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(), continue);
 		FCDAnimationChannelData& channelData = itChannelData->second;
 
 		const fm::string& qualifier = channelData.targetQualifier;
 		if (!qualifier.empty())
 		{
 			// Qualifed curves can only target a single element?
-			FUAssert(curveCount == 1,);
+			if (curveCount != 1)
+			{
+				FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_SOURCE_SIZE);
+			}
 			int32 element = -1;
 			// If the animated is part of a list (ie, morph target weight, not a transform etc)
 			if (animated->GetArrayElement() != -1)
diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index a7f5cf6..59633cb 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -299,7 +299,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	// Find the instantiated rigid body
 	FCDPhysicsRigidBody* body = NULL;
 	fm::string physicsRigidBodySid = ReadNodeProperty(instanceNode, DAE_BODY_ATTRIBUTE);
-	if (physicsRigidBodyInstance->GetModelParentInstance()->GetEntity() != NULL &&  physicsRigidBodyInstance->GetModelParentInstance()->GetEntity()->GetType() == FCDEntity::PHYSICS_MODEL)
+	if (physicsRigidBodyInstance->GetModelParentInstance() != NULL && physicsRigidBodyInstance->GetModelParentInstance()->GetEntity() != NULL &&  physicsRigidBodyInstance->GetModelParentInstance()->GetEntity()->GetType() == FCDEntity::PHYSICS_MODEL)
 	{
 		FCDPhysicsModel* model = (FCDPhysicsModel*) physicsRigidBodyInstance->GetModelParentInstance()->GetEntity();
 		body = model->FindRigidBodyFromSid(physicsRigidBodySid);
@@ -344,7 +344,8 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 		physicsRigidBodyInstance->SetVelocity(FMVector3::Zero);
 	}
 
-	FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBodyInstance->GetParameters(), techniqueNode, body->GetParameters());
+	// Without a rigid body, there are no defaults.
+	FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBodyInstance->GetParameters(), techniqueNode, (body != NULL) ? body->GetParameters() : NULL);
 
 	physicsRigidBodyInstance->SetDirtyFlag();
 	return status;
@@ -363,7 +364,7 @@ bool FArchiveXML::LoadPhysicsRigidConstraintInstance(FCDObject* object, xmlNode*
 		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity() == NULL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_UNKNOWN_ELEMENT, instanceNode->line);
-		status = false;
+		return false;
 	}
 
 	FCDPhysicsModel* model = (FCDPhysicsModel*) physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity();
@@ -383,7 +384,10 @@ bool FArchiveXML::LinkControllerInstance(FCDControllerInstance* controllerInstan
 {
 	const FCDSkinController* skin =  FArchiveXML::FindSkinController(controllerInstance, controllerInstance->GetEntity());
 	if (skin == NULL) return true;
-	FCDSkinControllerData& data = FArchiveXML::documentLinkDataMap[skin->GetDocument()].skinControllerDataMap.find(const_cast<FCDSkinController*>(skin))->second;
+	FCDSkinControllerDataMap& skinDataMap = FArchiveXML::documentLinkDataMap[skin->GetDocument()].skinControllerDataMap;
+	FCDSkinControllerDataMap::iterator itSkin = skinDataMap.find(const_cast<FCDSkinController*>(skin));
+	if (itSkin == skinDataMap.end()) return true; // not an imported skin
+	FCDSkinControllerData& data = itSkin->second;
 
 	// Look for each joint, by COLLADA id, within the scene graph
 	size_t jointCount = skin->GetJointCount();
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index c2b485c..aae018c 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -51,6 +51,7 @@ bool FArchiveXML::LoadMaterial(FCDObject* object, xmlNode* materialNode)
 	if (effectNode == NULL)
 	{
 		FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_MISSING_ELEMENT, materialNode->line);
+		return status;
 	}
 
 	FUUri url = ReadNodeUrl(effectNode);
-- 
2.43.0


From 16f54a3fafbd2b03c21c47acb26b4523c86053b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 157/205] fix: survive the entities that could not be read in
 when linking a document

---
 FColladaPlugins/FArchiveXML/FAXEntityImport.cpp  | 2 +-
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
index 020990d..b41fc5b 100644
--- a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
@@ -257,7 +257,7 @@ void FArchiveXML::FindAnimationChannelsArrayIndices(FCDocument* fcdocument, xmlN
 	for (FCDAnimationChannelList::iterator it = channels.begin(); it != channels.end(); ++it)
 	{
 		FCDAnimationChannelDataMap::iterator itData = FArchiveXML::documentLinkDataMap[(*it)->GetDocument()].animationChannelData.find(*it);
-		FUAssert(itData != FArchiveXML::documentLinkDataMap[(*it)->GetDocument()].animationChannelData.end(),);
+		FUAssert(itData != FArchiveXML::documentLinkDataMap[(*it)->GetDocument()].animationChannelData.end(), continue);
 		FCDAnimationChannelData& data = itData->second;
 
 		int32 animatedIndex = FUStringConversion::ParseQualifier(data.targetQualifier);
diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 6e063b3..295ef04 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -217,7 +217,7 @@ bool FArchiveXML::LinkTargetedEntity(FCDTargetedEntity* targetedEntity)
 	bool status = true;
 
 	FCDTargetedEntityDataMap::iterator it = FArchiveXML::documentLinkDataMap[targetedEntity->GetDocument()].targetedEntityDataMap.find(targetedEntity);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[targetedEntity->GetDocument()].targetedEntityDataMap.end(),);
+	if (it == FArchiveXML::documentLinkDataMap[targetedEntity->GetDocument()].targetedEntityDataMap.end()) return status; // not an imported entity
 	FCDTargetedEntityData& data = it->second;
 
 	if (data.targetId.empty()) return status;
@@ -349,7 +349,7 @@ void FArchiveXML::LinkEffectParameterSurface(FCDEffectParameterSurface* effectPa
 void FArchiveXML::LinkEffectParameterSampler(FCDEffectParameterSampler* effectParameterSampler, FCDEffectParameterList& parameters)
 {
 	FCDEffectParameterSamplerDataMap::iterator it = FArchiveXML::documentLinkDataMap[effectParameterSampler->GetDocument()].effectParameterSamplerDataMap.find(effectParameterSampler);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[effectParameterSampler->GetDocument()].effectParameterSamplerDataMap.end(),);
+	if (it == FArchiveXML::documentLinkDataMap[effectParameterSampler->GetDocument()].effectParameterSamplerDataMap.end()) return; // no sampler was read in
 	FCDEffectParameterSamplerData& data = it->second;
 
 	FCDEffectParameter* surface = NULL;
@@ -478,7 +478,7 @@ void FArchiveXML::LinkEffectTechnique(FCDEffectTechnique* effectTechnique)
 void FArchiveXML::LinkTexture(FCDTexture* texture, FCDEffectParameterList& parameters)
 {
 	FCDTextureDataMap::iterator it = FArchiveXML::documentLinkDataMap[texture->GetDocument()].textureDataMap.find(texture);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[texture->GetDocument()].textureDataMap.end(),);
+	if (it == FArchiveXML::documentLinkDataMap[texture->GetDocument()].textureDataMap.end()) return; // not an imported texture
 	FCDTextureData& data = it->second;
 
 	if (!data.samplerSid.empty())
@@ -552,7 +552,7 @@ bool FArchiveXML::LinkSkinController(FCDSkinController* UNUSED(skinController))
 bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 {
 	FCDMorphControllerDataMap::iterator it = FArchiveXML::documentLinkDataMap[morphController->GetDocument()].morphControllerDataMap.find(morphController);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[morphController->GetDocument()].morphControllerDataMap.end(),);
+	if (it == FArchiveXML::documentLinkDataMap[morphController->GetDocument()].morphControllerDataMap.end()) return true; // not an imported controller
 	FCDMorphControllerData& data = it->second;
 
 	if (morphController->GetBaseTarget() == NULL)
-- 
2.43.0


From 235e34cd4f10ff028cf6988c9ecf2f214dd9378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 158/205] fix: trust no accessor's count or stride for more
 values than there are

---
 .../FArchiveXML/FAXColladaParser.cpp          | 68 +++++++++++--------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index 7ccdd9a..8b45523 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -127,6 +127,18 @@ namespace FUDaeParser
 		}
 	}
 
+	// The count and the stride of an accessor are only hints:
+	// neither can be greater than the number of values that are available.
+	static uint32 ReadAccessorCount(xmlNode* accessorNode, const char* arrayContent)
+	{
+		return (uint32) min((size_t) ReadNodeCount(accessorNode), FUStringConversion::CountValues(arrayContent));
+	}
+
+	static uint32 ReadAccessorStride(xmlNode* accessorNode, const char* arrayContent, size_t minimum)
+	{
+		return (uint32) min((size_t) ReadNodeStride(accessorNode), max(minimum, FUStringConversion::CountValues(arrayContent)));
+	}
+
 	// Retrieves a list of floats from a source node
 	// Returns the data's stride.
 	uint32 ReadSource(xmlNode* sourceNode, FloatList& array)
@@ -137,10 +149,10 @@ namespace FUDaeParser
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
 			stride = ReadNodeStride(accessorNode);
-			array.resize(ReadNodeCount(accessorNode) * stride);
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(min((size_t) ReadNodeCount(accessorNode) * stride, FUStringConversion::CountValues(arrayContent)));
 			FUStringConversion::ToFloatList(arrayContent, array);
 		}
 		return stride;
@@ -153,10 +165,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(ReadAccessorCount(accessorNode, arrayContent));
 			FUStringConversion::ToInt32List(arrayContent, array);
 		}
 	}
@@ -168,11 +180,11 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
 			if (arrayNode == NULL) arrayNode = FindChildByType(sourceNode, DAE_IDREF_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(ReadAccessorCount(accessorNode, arrayContent));
 			FUStringConversion::ToStringList(arrayContent, array);
 		}
 	}
@@ -184,10 +196,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(ReadAccessorCount(accessorNode, arrayContent));
 			FUStringConversion::ToPointList(arrayContent, array);
 		}
 	}
@@ -199,10 +211,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(ReadAccessorCount(accessorNode, arrayContent));
 			FUStringConversion::ToMatrixList(arrayContent, array);
 		}
 	}
@@ -214,20 +226,20 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			uint32 count = ReadAccessorCount(accessorNode, arrayContent);
 			for (fm::pvector<FloatList>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
 			}
 
 			// Use the stride to pad the interleaved float lists or remove extra elements
-			uint32 stride = ReadNodeStride(accessorNode);
+			uint32 stride = ReadAccessorStride(accessorNode, arrayContent, arrays.size());
 			while (stride < arrays.size()) arrays.pop_back();
 			while (stride > arrays.size()) arrays.push_back(NULL);
 
-			// Read and parse the float array
-   			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			// Parse the float array
 			FUStringConversion::ToInterleavedFloatList(arrayContent, arrays);
 		}
 	}
@@ -239,7 +251,9 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* value = ReadNodeContentDirect(arrayNode);
+			uint32 count = ReadAccessorCount(accessorNode, value);
 			for (fm::pvector<FMVector2List>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
@@ -247,12 +261,10 @@ namespace FUDaeParser
 
 			// Backward Compatibility: if the stride is exactly half the expected value,
 			// then we have the old 1D tangents that we need to parse correctly.
-			stride = ReadNodeStride(accessorNode);
+			stride = ReadAccessorStride(accessorNode, value, arrays.size() * 3);
 			if (stride > 0 && stride == arrays.size())
 			{
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; j < stride && *value != 0; ++j)
@@ -275,9 +287,7 @@ namespace FUDaeParser
 				while (stride < arrays.size() * 2) arrays.pop_back();
 				while (stride > arrays.size() * 2) arrays.push_back(NULL);
 
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; 2 * j < stride && *value != 0; ++j)
@@ -325,7 +335,9 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* value = ReadNodeContentDirect(arrayNode);
+			uint32 count = ReadAccessorCount(accessorNode, value);
 			for (fm::pvector<FMVector3List>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
@@ -333,12 +345,10 @@ namespace FUDaeParser
 
 			// Backward Compatibility: if the stride is exactly half the expected value,
 			// then we have the old 1D tangents that we need to parse correctly.
-			stride = ReadNodeStride(accessorNode);
+			stride = ReadAccessorStride(accessorNode, value, arrays.size() * 3);
 			if (stride > 0 && stride == arrays.size())
 			{
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; j < stride && *value != 0; ++j)
@@ -361,9 +371,7 @@ namespace FUDaeParser
 				while (stride < arrays.size() * 3) arrays.pop_back();
 				while (stride > arrays.size() * 3) arrays.push_back(NULL);
 
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; 3 * j < stride && *value != 0; ++j)
@@ -415,16 +423,16 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
+			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			uint32 count = ReadAccessorCount(accessorNode, arrayContent);
 			array.resize(count);
 
 			// Backward compatibility: drop the unwanted interpolation values.
 			// Before, we exported one interpolation token for each dimension of a merged curve.
 			// Now, we export one interpolation token for each key of a merged curve.
 			uint32 stride = ReadNodeStride(accessorNode);
-			StringList stringArray(count * stride);
-			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
-			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			StringList stringArray;
 			FUStringConversion::ToStringList(arrayContent, stringArray);
 
 			for (uint32 i = 0; i < count; ++i)
-- 
2.43.0


From d6bc9b08dd771db32659814fcd614126f7cdbc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 159/205] fix: keep the loading state of a document apart from
 those of the documents it loads, and of the failed loads

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 29 +++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 6a59a23..5527daf 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -400,12 +400,13 @@ bool FArchiveXML::ImportFile(const fchar* filePath, FCDocument* fcdocument)
     		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless another document is still waiting for this one.
+		if (FArchiveXML::loadedDocumentCount == 0) FArchiveXML::ClearIntermediateData();
 	}
 	_FCATCH_ALL
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PARSING_FAILED);
+		status = false;
 	}
 
 	if (status) FUError::Error(FUError::DEBUG_LEVEL, FUError::DEBUG_LOAD_SUCCESSFUL);
@@ -434,8 +435,8 @@ bool FArchiveXML::ImportFileFromMemory(const fchar* filePath, FCDocument* fcdocu
 			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless another document is still waiting for this one.
+		if (FArchiveXML::loadedDocumentCount == 0) FArchiveXML::ClearIntermediateData();
     }
     _FCATCH_ALL
     {
@@ -549,13 +550,22 @@ enum nodeOrder { ANIMATION=0, ANIMATION_CLIP, IMAGE, EFFECT, MATERIAL, GEOMETRY,
 struct xmlOrderedNode { xmlNode* node; nodeOrder order; };
 typedef fm::vector<xmlOrderedNode> xmlOrderedNodeList;
 
+// Counts a document as being processed, however its processing ends.
+struct FAXProcessingScope
+{
+	int& count;
+	FAXProcessingScope(int& _count) : count(_count) { ++count; }
+	~FAXProcessingScope() { --count; }
+};
+
 bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 {
 	bool status = true;
 
 	if (FArchiveXML::loadedDocumentCount == 0)
 		FArchiveXML::ClearIntermediateData();
-	++FArchiveXML::loadedDocumentCount;
+	FAXProcessingScope processing(FArchiveXML::loadedDocumentCount);
+	FArchiveXML::documentLinkDataMap.erase(theDocument);
 
 	// The only root node supported is "COLLADA"
 	if (!IsEquivalent(colladaNode->name, DAE_COLLADA_ELEMENT))
@@ -781,7 +791,7 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	{
 		FCDCamera* camera = theDocument->GetCameraLibrary()->GetEntity(i);
 		FCDTargetedEntityDataMap::iterator it = FArchiveXML::documentLinkDataMap[theDocument].targetedEntityDataMap.find(camera);
-		if (!it->second.targetId.empty())
+		if (it != FArchiveXML::documentLinkDataMap[theDocument].targetedEntityDataMap.end() && !it->second.targetId.empty())
 		{
 			status &= (FArchiveXML::LinkTargetedEntity(camera));
 		}
@@ -791,7 +801,7 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	{
 		FCDLight* light = theDocument->GetLightLibrary()->GetEntity(i);
 		FCDTargetedEntityDataMap::iterator it = FArchiveXML::documentLinkDataMap[theDocument].targetedEntityDataMap.find(light);
-		if (!it->second.targetId.empty())
+		if (it != FArchiveXML::documentLinkDataMap[theDocument].targetedEntityDataMap.end() && !it->second.targetId.empty())
 		{
 			status &= (FArchiveXML::LinkTargetedEntity(light));
 		}
@@ -814,7 +824,6 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		//FCDExternalReferenceManager::RegisterLoadedDocument(theDocument);
 	}
 
-	--FArchiveXML::loadedDocumentCount;
 	return status;
 }
 
@@ -825,7 +834,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 
 	if (FArchiveXML::loadedDocumentCount == 0)
 		FArchiveXML::ClearIntermediateData();
-	++FArchiveXML::loadedDocumentCount;
+	FAXProcessingScope processing(FArchiveXML::loadedDocumentCount);
 
 	if (colladaNode != NULL)
 	{
@@ -925,8 +934,6 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 		FArchiveXML::WriteExtra(theDocument->GetExtra(), colladaNode);
 	}
 
-	--FArchiveXML::loadedDocumentCount;
-
 	return status;
 }
 
-- 
2.43.0


From 72413785ded3a8bc54e4cb9ecb2cda339b98394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 160/205] fix: save the rigid body instances that have no
 target or no body

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index 7773f15..4b72a7c 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -251,8 +251,14 @@ xmlNode* FArchiveXML::WritePhysicsRigidBodyInstance(FCDObject* object, xmlNode*
 
 	xmlNode* instanceNode = FArchiveXML::WriteEntityInstance(physicsRigidBodyInstance, parentNode);
 
-	AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
-	AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetEntity()->GetDaeId());
+	if (physicsRigidBodyInstance->GetTargetNode() != NULL)
+	{
+		AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
+	}
+	if (physicsRigidBodyInstance->GetEntity() != NULL)
+	{
+		AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetEntity()->GetDaeId());
+	}
 
 	//inconsistency in the spec
 	RemoveAttribute(instanceNode, DAE_URL_ATTRIBUTE);
-- 
2.43.0


From f3187d6cd2358b8c704797efac78e1a7094d4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 161/205] fix: save the surfaces that have lost their images

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index d733a3a..3b99fed 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -369,12 +369,12 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->volumeType == FCDEffectParameterSurfaceInitVolume::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->volumeType == FCDEffectParameterSurfaceInitVolume::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				break;
 			}
@@ -385,13 +385,13 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->cubeType == FCDEffectParameterSurfaceInitCube::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
 					AddChild(typeNode, DAE_ORDER_ELEMENT); //FIXME: complete when the spec gets more info.
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::FACE)
 				{
@@ -407,7 +407,7 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 			{
 				xmlNode* childNode = AddChild(surfaceNode, DAE_INITPLANAR_ELEMENT);
 				xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-				AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+				if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				break;
 			}
 			default:
-- 
2.43.0


From 1b8d67ae78d91f852ebc8500754555d3361d938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 162/205] fix: save the merged curves that have no qualifier

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 2cb7959..2b9bcd0 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -507,7 +507,7 @@ xmlNode* FArchiveXML::WriteChannelFCDAnimationCurve(FCDAnimationCurve* animation
 	AddAttribute(channelNode, DAE_SOURCE_ATTRIBUTE, fm::string("#") + baseId + "-sampler");
 
 	FCDAnimationCurveDataMap::iterator it = FArchiveXML::documentLinkDataMap[animationCurve->GetDocument()].animationCurveData.find(animationCurve);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[animationCurve->GetDocument()].animationCurveData.end(),);
+	FUAssert(it != FArchiveXML::documentLinkDataMap[animationCurve->GetDocument()].animationCurveData.end(), return channelNode);
 	FCDAnimationCurveData& data = it->second;
 
 	// Generate and export the channel target
@@ -532,7 +532,7 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	pchar* parameters = new pchar[animationMultiCurve->GetDimension()];
 	for (size_t i = 0; i < animationMultiCurve->GetDimension(); ++i)
 	{
-		parameters[i] = qualifiers[i];
+		parameters[i] = (qualifiers[i] != NULL) ? qualifiers[i] : emptyCharString;
 		if (*(parameters[i]) == '.') ++(parameters[i]);
 	}
 	if (animationMultiCurve->GetDimension() == 16)
-- 
2.43.0


From 2331f9462ee3ad3482728ffee4662429fdb3b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 163/205] fix: read no truncated position when calculating the
 volume of a shape

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 223c024..9152647 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -224,7 +224,7 @@ float FCDPhysicsShape::CalculateVolume() const
 				if (positionStride < 3) continue;
 				const float* positionData = positionSource->GetData();
 				size_t positionDataLength = positionSource->GetDataCount();
-				for (size_t pos = 0; pos < positionDataLength;)
+				for (size_t pos = 0; pos + 3 <= positionDataLength;)
 				{
 					boundary.Include(FMVector3(positionData, (uint32)pos));
 					pos += positionStride;
-- 
2.43.0


From 5659b492662489c3e21e8e046fb31d87f90a37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 164/205] fix: load no second copy of a document that
 references its own file

---
 FCollada/FCDocument/FCDEntityReference.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 9c61a5b..f8b618e 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -74,8 +74,10 @@ void FCDEntityReference::SetUri(const FUUri& uri)
 	{
 		fstring fileUrl = GetDocument()->GetFileManager()->GetCurrentUri().MakeAbsolute(uri.GetAbsolutePath());
 
-		documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->FindPlaceHolder(fileUrl);
-		if (documentPlaceHolder == NULL)
+		// The references from a document to its own file are local references.
+		bool isOwnFile = IsEquivalent(fileUrl, GetDocument()->GetFileUrl());
+		if (!isOwnFile) documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->FindPlaceHolder(fileUrl);
+		if (!isOwnFile && documentPlaceHolder == NULL)
 		{
 			documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->AddPlaceHolder(fileUrl);
 		}
-- 
2.43.0


From 39c84357892a33e4120cd13935b646e4437cbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 165/205] fix: report the invalid splines that fail the loading
 of a document

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 70db5f7..6cd8feb 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -615,6 +615,7 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 		bool s = FArchiveXML::LoadSwitch(spline, &spline->GetObjectType(), splineNode);
 		if (!s)
 		{
+			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_SPLINE, splineNode->line);
 			SAFE_RELEASE(spline);
 			status = false;
 		}
-- 
2.43.0


From 2dcdf5169b55caffe86fec3e3e3d505c0693183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 166/205] fix: describe no endless parameters for the empty
 sources with a huge stride

---
 FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
index 20cc1dc..411b69d 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
@@ -175,7 +175,11 @@ namespace FUDaeWriter
 
 		// Create the stride parameters
 		if (type == NULL) type = DAE_FLOAT_TYPE;
-		if (stride != 16 && stride != 32)
+		if (count == 0 && stride > 32)
+		{
+			// There are no values, whose parameters would have to be described.
+		}
+		else if (stride != 16 && stride != 32)
 		{
 			size_t p = 0;
 			for (size_t i = 0; i < stride; ++i)
-- 
2.43.0


From c0f523dd6ac3ee06510aa21f0decdec293eaf578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 167/205] fix: keep no pointer to an animated value that is
 released before its animation is saved

---
 .../FArchiveXML/FAXAnimationExport.cpp           | 16 +++++-----------
 FColladaPlugins/FArchiveXML/FAXStructures.h      | 10 ++++++----
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 2b9bcd0..88c3b2d 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -90,10 +90,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 	// The merged curves provide every component: leave alone the components that are animated by another channel.
 	for (size_t dv = 0; dv < mergingCurves.size() && mergeCurves; ++dv)
 	{
-		if (mergingCurves[dv] == NULL && data.animatedValue != NULL && dv < data.animatedValue->GetValueCount())
-		{
-			mergeCurves &= data.animatedValue->GetCurves()[dv].empty();
-		}
+		if (mergingCurves[dv] == NULL) mergeCurves &= !data.defaultValues[dv].isAnimated;
 	}
 	if (mergeCurves && realCurveCount > 1)
 	{
@@ -105,12 +102,10 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 			values.push_back((*itDV).defaultValue);
 		}
 
-		FUAssert(data.animatedValue != NULL, return parentNode);
 		const char** qualifiers = new const char*[values.size()];
-		memset(qualifiers, 0, sizeof(char*) * values.size());
-		for (size_t i = 0; i < values.size() && i < data.animatedValue->GetValueCount(); ++i)
+		for (size_t i = 0; i < values.size(); ++i)
 		{
-			qualifiers[i] = data.animatedValue->GetQualifier(i);
+			qualifiers[i] = data.defaultValues[i].qualifier.c_str();
 		}
 
 		// Merge and export the curves
@@ -308,7 +303,6 @@ void FArchiveXML::WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valu
 				FUAssert(channel != NULL, continue);
 
 				channelData.targetPointer = animatedData.pointer;
-				channelData.animatedValue = animated;
 
 				if (!channels.contains(channel)) channels.push_back(channel);
 			}
@@ -336,7 +330,7 @@ void FArchiveXML::WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valu
 				}
 
 				float defaultValue = !animated->GetRelativeAnimationFlag() ? *animated->GetValue(i) : 0.0f;
-				channelData.defaultValues.push_back(FAXAnimationChannelDefaultValue(curve, defaultValue));
+				channelData.defaultValues.push_back(FAXAnimationChannelDefaultValue(curve, defaultValue, animated->GetQualifier(i), !curves.empty()));
 			}
 		}
 	}
@@ -532,7 +526,7 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	pchar* parameters = new pchar[animationMultiCurve->GetDimension()];
 	for (size_t i = 0; i < animationMultiCurve->GetDimension(); ++i)
 	{
-		parameters[i] = (qualifiers[i] != NULL) ? qualifiers[i] : emptyCharString;
+		parameters[i] = qualifiers[i];
 		if (*(parameters[i]) == '.') ++(parameters[i]);
 	}
 	if (animationMultiCurve->GetDimension() == 16)
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index dee6c0e..1a25c15 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -117,11 +117,14 @@ struct FAXAnimationChannelDefaultValue
 {
 	FCDAnimationCurve* curve; /**< An animation curve contained by this channel. */
 	float defaultValue; /**< The default value for an animation value pointer that is not animated but may be merged. */
+	fm::string qualifier; /**< The qualifier of the animation value pointer. */
+	bool isAnimated; /**< Whether the animation value pointer is animated, by this or by another channel. */
 
 	/** Default constructor. */
-	FAXAnimationChannelDefaultValue() : curve(NULL), defaultValue(0.0f) {}
-	/** Simple constructor. @param c A curve. @param f The default value. @param q The default value's qualifier. */
-	FAXAnimationChannelDefaultValue(FCDAnimationCurve* c, float f) { curve = c; defaultValue = f; }
+	FAXAnimationChannelDefaultValue() : curve(NULL), defaultValue(0.0f), isAnimated(false) {}
+	/** Simple constructor. @param c A curve. @param f The default value. @param q The default value's qualifier.
+		@param a Whether the value is animated. */
+	FAXAnimationChannelDefaultValue(FCDAnimationCurve* c, float f, const fm::string& q, bool a) : curve(c), defaultValue(f), qualifier(q), isAnimated(a) {}
 };
 typedef fm::vector<FAXAnimationChannelDefaultValue> FAXAnimationChannelDefaultValueList;
 
@@ -137,7 +140,6 @@ struct FCDAnimationChannelData
 
 	// Export parameters
 	FAXAnimationChannelDefaultValueList defaultValues;
-	FCDAnimated* animatedValue = nullptr;
 
 	FCDAnimationChannelData()
 	{
-- 
2.43.0


From 062c912b802aaa53c53ecc1e13903c8ebae6a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 168/205] fix: list the documents that are referenced by other
 referenced documents

---
 FCollada/FCollada.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 895d5b9..49ecf77 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -86,7 +86,7 @@ namespace FCollada
 	{
 		documents.clear();
 		documents.insert(documents.end(), topDocuments.begin(), topDocuments.end());
-		for (size_t index = 0; index < topDocuments.size(); ++index)
+		for (size_t index = 0; index < documents.size(); ++index)
 		{
 			FCDocument* document = documents[index];
 
@@ -94,8 +94,8 @@ namespace FCollada
 			size_t placeHolderCount = xrefManager->GetPlaceHolderCount();
 			for (size_t p = 0; p < placeHolderCount; ++p)
 			{
-				FCDPlaceHolder* placeHolder = xrefManager->GetPlaceHolder(p);
-				FCDocument* target = placeHolder->GetTarget(false);
+				const FCDPlaceHolder* placeHolder = xrefManager->GetPlaceHolder(p);
+				FCDocument* target = placeHolder->GetTarget();
 				if (target != NULL && !documents.contains(target)) documents.push_back(target);
 			}
 		}
-- 
2.43.0


From 5452d24acdbf22b48b0b011f828547ed1649696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 169/205] fix: release the documents that fail to load, and
 return none of them

---
 FCollada/FCollada.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 49ecf77..dbb2f87 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -108,7 +108,7 @@ namespace FCollada
 
 		if (!LoadDocumentFromFile(theDocument, filename))
 		{
-			SAFE_DELETE(theDocument);
+			SAFE_RELEASE(theDocument);
 		}
 		return theDocument;
 	}
@@ -123,7 +123,7 @@ namespace FCollada
 	{
 		// This function is deprecated.
 		FCDocument* document = FCollada::NewTopDocument();
-		if (!LoadDocumentFromFile(document, filename)) document->Release();
+		if (!LoadDocumentFromFile(document, filename)) SAFE_RELEASE(document);
 		return document;
 	}
 
-- 
2.43.0


From e44e7abc4c2eabd3d81c8f49ded1a72c7976035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 170/205] fix: let the placeholders find the documents that are
 already opened, or being loaded, at their URL

---
 FCollada/FCDocument/FCDPlaceHolder.cpp | 57 ++++++++++++++++----------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/FCollada/FCDocument/FCDPlaceHolder.cpp b/FCollada/FCDocument/FCDPlaceHolder.cpp
index 4fe5d60..d96e78d 100644
--- a/FCollada/FCDocument/FCDPlaceHolder.cpp
+++ b/FCollada/FCDocument/FCDPlaceHolder.cpp
@@ -54,9 +54,30 @@ void FCDPlaceHolder::SetFileUrl(const fstring& url)
 	SetDirtyFlag();
 }
 
+// The documents that are being loaded by placeholders.
+static FCDocumentList loadingDocuments;
+
+// Retrieves the document, if any, that is already opened at the given URL.
+static FCDocument* FindOpenedDocument(const fstring& fileUrl)
+{
+	if (fileUrl.empty()) return NULL;
+	FCDocumentList documents;
+	FCollada::GetAllDocuments(documents);
+	documents.insert(documents.end(), loadingDocuments.begin(), loadingDocuments.end());
+	for (size_t i = 0; i < documents.size(); ++i)
+	{
+		if (IsEquivalent(documents[i]->GetFileUrl(), fileUrl)) return documents[i];
+	}
+	return NULL;
+}
+
 FCDocument* FCDPlaceHolder::GetTarget(bool loadIfMissing)
 {
-	if (target == NULL && loadIfMissing) LoadTarget(NULL);
+	if (target == NULL)
+	{
+		FCDocument* openedDocument = FindOpenedDocument(fileUrl);
+		if (openedDocument != NULL || loadIfMissing) LoadTarget(openedDocument);
+	}
 	return target;
 }
 
@@ -64,43 +85,33 @@ void FCDPlaceHolder::LoadTarget(FCDocument* newTarget)
 {
 	if (target == NULL)
 	{
-		if (newTarget == NULL)
+		if (newTarget == NULL) newTarget = FindOpenedDocument(fileUrl);
+		if (newTarget == NULL && !fileUrl.empty())
 		{
 			newTarget = new FCDocument();
 			FUUri uri(GetDocument()->GetFileManager()->GetCurrentUri().MakeAbsolute(fileUrl));
 			fstring filename = uri.GetAbsolutePath();
 
-#ifdef _DEBUG
-			// Check for circular dependencies.
-			FCDocumentList documents;
-			FCollada::GetAllDocuments(documents);
-			for (FCDocument** it = documents.begin(); it != documents.end(); ++it)
-			{
-				// If the following asset triggers, you are wrongly forcing XRefs to load during archiving ?
-				FUAssert(!IsEquivalent((*it)->GetFileUrl(), fileUrl),);
-			}
-#endif // _DEBUG
-
 			// Now, we have to copy over our callback schemes from our document to the new
 			// one (to ensure that the new document can handle the scheme we was loaded under)
 			FCDocument* curDoc = GetDocument();
 			newTarget->GetFileManager()->CloneSchemeCallbacks(curDoc->GetFileManager());
 
+			// The loaded document may reference itself, through other documents: hold it from now on.
+			target = newTarget;
+			TrackObject(target);
+			loadingDocuments.push_back(newTarget);
 			bool loadStatus = FCollada::LoadDocumentFromFile(newTarget, filename.c_str());
+			loadingDocuments.pop_back();
 			if (!loadStatus)
 			{
-				SAFE_DELETE(newTarget);
+				SAFE_RELEASE(newTarget);
 			}
 		}
 
-		if (newTarget != NULL)
+		// A document loaded by this placeholder is its target already.
+		if (newTarget != NULL && target == NULL)
 		{
-			if (target != NULL)
-			{
-				fileUrl = target->GetFileUrl();
-				UntrackObject(target);
-				target = NULL;
-			}
 			target = newTarget;
 			TrackObject(target);
 		}
@@ -110,8 +121,10 @@ void FCDPlaceHolder::LoadTarget(FCDocument* newTarget)
 
 void FCDPlaceHolder::UnloadTarget()
 {
-	SAFE_RELEASE(target);
+	// The release of the target may release this placeholder.
 	SetNewChildFlag();
+	FCDocument* oldTarget = target;
+	SAFE_RELEASE(oldTarget);
 }
 
 void FCDPlaceHolder::OnObjectReleased(FUTrackable* object)
-- 
2.43.0


From 91c7cdb11067b08736b45acf6c7a43d2f1cb0945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 171/205] fix: evaluate the documents that reference each other
 once, instead of forever

---
 FCollada/FCDocument/FCDocument.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDocument.cpp b/FCollada/FCDocument/FCDocument.cpp
index 39d11d6..5a69d1e 100644
--- a/FCollada/FCDocument/FCDocument.cpp
+++ b/FCollada/FCDocument/FCDocument.cpp
@@ -358,17 +358,24 @@ void FCDocument::SetFileUrl(const fstring& filename)
 
 void FCDocument::SetCurrentTime(float time)
 {
-	for (FCDAnimatedSet::iterator itA = animatedValues.begin(); itA != animatedValues.end(); ++itA)
+	// We must evaluate all our child documents as well, which may reference each other.
+	FCDocumentList documents;
+	documents.push_back(this);
+	for (size_t d = 0; d < documents.size(); ++d)
 	{
-		FCDAnimated* animated = (*itA).first;
-		animated->Evaluate(time);
-	}
+		FCDocument* document = documents[d];
+		for (FCDAnimatedSet::iterator itA = document->animatedValues.begin(); itA != document->animatedValues.end(); ++itA)
+		{
+			FCDAnimated* animated = (*itA).first;
+			animated->Evaluate(time);
+		}
 
-	// We must evaluate all our child documents as well!
-	for (size_t i = 0; i < externalReferenceManager->GetPlaceHolderCount(); i++)
-	{
-		FCDPlaceHolder* placeHolder = externalReferenceManager->GetPlaceHolder(i);
-		if (placeHolder->IsTargetLoaded()) placeHolder->GetTarget()->SetCurrentTime(time);
+		for (size_t i = 0; i < document->externalReferenceManager->GetPlaceHolderCount(); i++)
+		{
+			const FCDPlaceHolder* placeHolder = document->externalReferenceManager->GetPlaceHolder(i);
+			FCDocument* target = placeHolder->GetTarget();
+			if (target != NULL && !documents.contains(target)) documents.push_back(target);
+		}
 	}
 }
 
-- 
2.43.0


From 4fad426168e358a45e3d51f30399096645f17ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 172/205] fix: keep the references to the effects of documents
 that are not opened

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 3b99fed..d2bbc24 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -36,7 +36,8 @@ xmlNode* FArchiveXML::WriteMaterial(FCDObject* object, xmlNode* parentNode)
 
 	// The <instance_effect> element is required in COLLADA 1.4
 	xmlNode* instanceEffectNode = AddChild(materialNode, DAE_INSTANCE_EFFECT_ELEMENT);
-	if (material->GetEffect() != NULL)
+	// The effects of documents that aren't opened are referenced nonetheless.
+	if (material->GetEffect() != NULL || material->GetEffectReference()->IsExternal())
 	{
 		const FUUri& uri = material->GetEffectReference()->GetUri();
 		fstring uriString = material->GetDocument()->GetFileManager()->CleanUri(uri);
-- 
2.43.0


From 92abe32a765e6127c47c93a54a361cf59356892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 173/205] fix: keep the new URI of a reference when its old
 document is closed

---
 FCollada/FCDocument/FCDEntityReference.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index f8b618e..0bc466b 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -82,14 +82,15 @@ void FCDEntityReference::SetUri(const FUUri& uri)
 			documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->AddPlaceHolder(fileUrl);
 		}
 	}
-	SetPlaceHolder(documentPlaceHolder);
 
 	// Let go of the old entity: the one at the new URI is looked up when it is requested.
+	// This is done before the document of the old entity is possibly closed.
 	if (entity != NULL)
 	{
 		UntrackObject(entity);
 		entity = NULL;
 	}
+	SetPlaceHolder(documentPlaceHolder);
 	SetDirtyFlag();
 }
 
-- 
2.43.0


From 5b9719a40fbf7b91f58bc2dd3991ec9c45778b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 174/205] fix: keep the references to the visual scenes of
 documents that are not opened

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 5527daf..a857aa9 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -899,7 +899,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 				AddAttribute(instanceVisualSceneNode, DAE_URL_ATTRIBUTE, uriString);
 			}
 		}
-		if (theDocument->GetVisualSceneInstance() != NULL)
+		if (theDocument->GetVisualSceneInstance() != NULL || theDocument->GetVisualSceneInstanceReference()->IsExternal())
 		{
 			// Write out the <instance_visual_scene>
 			if (sceneNode == NULL) sceneNode = AddChild(colladaNode, DAE_SCENE_ELEMENT);
-- 
2.43.0


From b85a3fdeee2de45453a3354206b8a8d51af40737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 175/205] fix: assign the curves of repeated animated elements
 to their value once

---
 FCollada/FCDocument/FCDAnimated.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimated.cpp b/FCollada/FCDocument/FCDAnimated.cpp
index 20f4ad5..3dbee20 100644
--- a/FCollada/FCDocument/FCDAnimated.cpp
+++ b/FCollada/FCDocument/FCDAnimated.cpp
@@ -84,7 +84,7 @@ FCDAnimated::~FCDAnimated()
 bool FCDAnimated::AddCurve(size_t index, FCDAnimationCurve* curve)
 {
 	FUAssert(index < GetValueCount(), return false);
-	curves.at(index).push_back(curve);
+	if (!curves.at(index).contains(curve)) curves.at(index).push_back(curve);
 	SetNewChildFlag();
 	return true;
 }
@@ -92,7 +92,10 @@ bool FCDAnimated::AddCurve(size_t index, FCDAnimationCurve* curve)
 bool FCDAnimated::AddCurve(size_t index, FCDAnimationCurveList& curve)
 {
 	FUAssert(index < GetValueCount() && !curve.empty(), return false);
-	curves.at(index).insert(curves.at(index).end(), curve.begin(), curve.end());
+	for (FCDAnimationCurveList::iterator it = curve.begin(); it != curve.end(); ++it)
+	{
+		if (!curves.at(index).contains(*it)) curves.at(index).push_back(*it);
+	}
 	SetNewChildFlag();
 	return true;
 }
-- 
2.43.0


From eb9b330a7595fff09fd23db744df1e617de2cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 176/205] fix: let the curves forget the animation clips that
 are released

---
 FCollada/FCDocument/FCDAnimationClip.cpp  |  4 ++++
 FCollada/FCDocument/FCDAnimationCurve.cpp | 12 ++++++++++++
 FCollada/FCDocument/FCDAnimationCurve.h   |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 0fe71a6..82dc3dc 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -31,6 +31,10 @@ FCDAnimationClip::FCDAnimationClip(FCDocument* document)
 
 FCDAnimationClip::~FCDAnimationClip()
 {
+	for (FCDAnimationCurveTrackList::iterator it = curves.begin(); it != curves.end(); ++it)
+	{
+		(*it)->UnregisterAnimationClip(this);
+	}
 	curves.clear();
 }
 
diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 6a88964..a92547e 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -603,3 +603,15 @@ void FCDAnimationCurve::RegisterAnimationClip(FCDAnimationClip* clip)
 	clipOffsets.push_back(-clip->GetStart());
 	SetDirtyFlag();
 }
+
+void FCDAnimationCurve::UnregisterAnimationClip(FCDAnimationClip* clip)
+{
+	if (currentClip == clip) currentClip = NULL;
+	for (size_t i = clips.size(); i > 0; --i)
+	{
+		if (clips[i - 1] != clip) continue;
+		clips.erase(i - 1);
+		if (i - 1 < clipOffsets.size()) clipOffsets.erase(i - 1);
+	}
+	SetDirtyFlag();
+}
diff --git a/FCollada/FCDocument/FCDAnimationCurve.h b/FCollada/FCDocument/FCDAnimationCurve.h
index 1c2253f..12b524c 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.h
+++ b/FCollada/FCDocument/FCDAnimationCurve.h
@@ -244,6 +244,10 @@ public:
 		@param clip An animation clip. */
 	void RegisterAnimationClip(FCDAnimationClip* clip);
 
+	/** [INTERNAL] Removes an animation clip from the list of animation clips that use this curve.
+		@param clip An animation clip that is released. */
+	void UnregisterAnimationClip(FCDAnimationClip* clip);
+
 	/** [INTERNAL] Retrieves the target element suffix for the curve.
 		This will be -1 if the animated element does not belong to an
 		animated element list.
-- 
2.43.0


From 96740d537bf382fe219204bdb57d07325498e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 177/205] fix: list no skeleton root for the documents without
 an instantiated visual scene

---
 FCollada/FCDocument/FCDControllerInstance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDControllerInstance.cpp b/FCollada/FCDocument/FCDControllerInstance.cpp
index f217ef8..dad80af 100644
--- a/FCollada/FCDocument/FCDControllerInstance.cpp
+++ b/FCollada/FCDocument/FCDControllerInstance.cpp
@@ -144,7 +144,7 @@ void FCDControllerInstance::FindSkeletonNodes(FCDSceneNodeList& skeletonNodes) c
 	}
 
 	// If we have no root, add the visual scene root.
-	if (skeletonNodes.empty())
+	if (skeletonNodes.empty() && document->GetVisualSceneInstance() != NULL)
 	{
 		skeletonNodes.push_back(const_cast<FCDSceneNode*>(document->GetVisualSceneInstance()));
 	}
-- 
2.43.0


From 0076849c8f522ff8d7e9c024051750df96f5415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 178/205] fix: keep the geometries that a morph target no
 longer uses in their library

---
 FCollada/FCDocument/FCDMorphController.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/FCollada/FCDocument/FCDMorphController.cpp b/FCollada/FCDocument/FCDMorphController.cpp
index e16afb8..14611fe 100644
--- a/FCollada/FCDocument/FCDMorphController.cpp
+++ b/FCollada/FCDocument/FCDMorphController.cpp
@@ -203,12 +203,8 @@ FCDMorphTarget::~FCDMorphTarget()
 
 void FCDMorphTarget::SetGeometry(FCDGeometry* _geometry)
 {
-	// Let go of the old geometry
-	FCDGeometry* oldGeometry = geometry;
-	if (oldGeometry != NULL && oldGeometry->GetTrackerCount() == 1)
-	{
-		SAFE_RELEASE(geometry);
-	}
+	// Let go of the old geometry: it belongs to its library.
+	geometry = NULL;
 
 	// Check if this geometry is similar to the controller base target
 	if (GetParent()->GetBaseTarget() == NULL || GetParent()->IsSimilar(_geometry))
-- 
2.43.0


From 1c0ccb4593a1b67031e819ce50f4095670fd8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 179/205] fix: release the temporary instances of the nodes
 with many parents after saving them

---
 FColladaPlugins/FArchiveXML/FAXSceneExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 78c7534..234525e 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -142,6 +142,7 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 				FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(const_cast<FCDocument*>(sceneNode->GetDocument()), NULL, FCDEntity::SCENE_NODE);
 				instance->SetEntity(const_cast<FCDSceneNode*>(child));
 				FArchiveXML::LetWriteObject(instance, node);
+				SAFE_RELEASE(instance);
 			}
 		}
 	}
-- 
2.43.0


From d3ca6d7314ba85d7ccef1ab9c39cf112254b9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 180/205] fix: keep the sampler that other textures use when
 the image of a texture changes

---
 FCollada/FCDocument/FCDTexture.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 33c72f3..e097ed8 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -74,8 +74,13 @@ const FCDImage* FCDTexture::GetImage() const
 // Set the image information for this texture.
 void FCDTexture::SetImage(FCDImage* image)
 {
-	// TODO: No parameter re-use for now.
-	SAFE_RELEASE(sampler);
+	// TODO: No parameter re-use for now, but keep the sampler that other textures use.
+	FCDEffectParameterSampler* oldSampler = sampler;
+	sampler = NULL;
+	if (oldSampler != NULL && oldSampler->GetTrackerCount() == 0)
+	{
+		SAFE_RELEASE(oldSampler);
+	}
 	if (image != NULL && parent != NULL)
 	{
 		// Look for a surface with the expected sid.
-- 
2.43.0


From 0ffe93ecb05dee9041c9960400d29a85821e1aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 181/205] fix: let the tracked lists hold an object many times

---
 FCollada/FUtils/FUTracker.cpp |  3 ++-
 FCollada/FUtils/FUTracker.h   | 28 ++++++++++++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.cpp b/FCollada/FUtils/FUTracker.cpp
index c082696..3fdb0eb 100644
--- a/FCollada/FUtils/FUTracker.cpp
+++ b/FCollada/FUtils/FUTracker.cpp
@@ -40,7 +40,8 @@ void FUTrackable::Detach()
 // Manage the list of trackers
 void FUTrackable::AddTracker(FUTracker* tracker)
 {
-	FUAssert(!trackers.contains(tracker), return);
+	// The lists may hold an object many times.
+	if (trackers.contains(tracker)) return;
 	trackers.push_back(tracker);
 }
 void FUTrackable::RemoveTracker(FUTracker* tracker)
diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 5bdb777..f6136eb 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -290,8 +290,9 @@ public:
 	{
 		if (!Parent::empty())
 		{
-			FUTracker::UntrackObject(back());
+			FUTrackable* object = (FUTrackable*) back();
 			Parent::pop_back();
+			UntrackRemoved(object);
 		}
 	}
 
@@ -299,8 +300,10 @@ public:
 		@param _it The list position for the value to remove. */
 	iterator erase(iterator _it)
 	{
-		FUTracker::UntrackObject((FUTrackable*) *_it);
-		return (iterator) Parent::erase(_it);
+		FUTrackable* object = (FUTrackable*) *_it;
+		iterator next = (iterator) Parent::erase(_it);
+		UntrackRemoved(object);
+		return next;
 	}
 
 	/** Removes a range of values from the list.
@@ -308,8 +311,10 @@ public:
 		@param last The list position just passed the last value to remove. */
 	inline void erase(iterator first, iterator last)
 	{
-		for (iterator it = first; it != last; ++it) FUTracker::UntrackObject((FUTrackable*) *it);
+		Parent removed;
+		for (iterator it = first; it != last; ++it) removed.push_back(*it);
 		Parent::erase(first, last);
+		for (size_t i = 0; i < removed.size(); ++i) UntrackRemoved((FUTrackable*) removed.at(i));
 	}
 
 	/** Removes a range of values from the list.
@@ -325,8 +330,7 @@ public:
 		iterator it = Parent::find(value);
 		if (it != Parent::end())
 		{
-			FUTracker::UntrackObject((FUTrackable*) *it);
-			Parent::erase(it);
+			erase(it);
 			return true;
 		}
 		return false;
@@ -382,8 +386,9 @@ public:
 	{
 		if (!Parent::empty())
 		{
-			FUTracker::UntrackObject(front());
+			FUTrackable* object = (FUTrackable*) front();
 			Parent::pop_front();
+			UntrackRemoved(object);
 		}
 	}
 
@@ -393,7 +398,14 @@ protected:
 	virtual void OnObjectReleased(FUTrackable* object)
 	{
 		FUAssert(TracksObject(object), return);
-		Parent::erase((ObjectClass*) object);
+		while (Parent::erase((ObjectClass*) object)) {}
+	}
+
+private:
+	// An object may be present many times within the list, but the list tracks it once.
+	inline void UntrackRemoved(FUTrackable* object)
+	{
+		if (!TracksObject(object)) FUTracker::UntrackObject(object);
 	}
 };
 
-- 
2.43.0


From 66cf1d9cbbd5bac669bec4c4b6d214de6a064db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 182/205] fix: give the sources of every saved curve their own
 ids

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 2 ++
 FColladaPlugins/FArchiveXML/FAXStructures.h        | 1 +
 2 files changed, 3 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 88c3b2d..9e058d0 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -109,6 +109,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		}
 
 		// Merge and export the curves
+		FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationSourceIds.insert(baseId);
 		FCDAnimationMultiCurve* multiCurve = FCDAnimationCurveTools::MergeCurves(mergingCurves, values);
 		FArchiveXML::WriteSourceFCDAnimationMultiCurve(multiCurve, parentNode, qualifiers, baseId);
 		FArchiveXML::WriteSamplerFCDAnimationMultiCurve(multiCurve, parentNode, baseId);
@@ -139,6 +140,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 				}
 				curveId.append(curveData.targetQualifier);
 				ids[c] = FCDObjectWithId::CleanId(curveId.ToCharPtr());
+				FArchiveXML::documentLinkDataMap[curCurve->GetDocument()].animationSourceIds.insert(ids[c]);
 
 				// Write out the curve's sources
 				FArchiveXML::WriteSourceFCDAnimationCurve(animationChannel->GetCurve(c), parentNode, ids[c]);
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 1a25c15..4eb75f6 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -260,6 +260,7 @@ struct FCDocumentLinkData
 	FCDSkinControllerDataMap skinControllerDataMap;
 	FCDMorphControllerDataMap morphControllerDataMap;
 	FCDGeometrySourceDataMap geometrySourceDataMap;
+	FUSUniqueStringMap animationSourceIds;
 };
 
 typedef fm::map<const FCDocument*, FCDocumentLinkData> DocumentLinkDataMap;
-- 
2.43.0


From 6502e958a0fecc373f4a153e143825f4842c6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 183/205] fix: save the instantiated nodes of a library once,
 in <library_nodes>

---
 .../FArchiveXML/FAXSceneExport.cpp            | 16 ++++++++++--
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp   | 25 ++++++++++++++++++-
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 234525e..da327e4 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -10,6 +10,7 @@
 #include "FArchiveXML.h"
 #include "FCDocument/FCDocument.h"
 #include "FCDocument/FCDAsset.h"
+#include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDExtra.h"
 #include "FCDocument/FCDAnimated.h"
 #include "FCDocument/FCDEntityInstance.h"
@@ -36,6 +37,17 @@ xmlNode* FArchiveXML::WriteTargetedEntity(FCDObject* UNUSED(object), xmlNode* UN
 	return NULL;
 }
 
+// Retrieves whether a node is saved within its library: its parents only instantiate it.
+static bool IsLibraryNode(const FCDSceneNode* sceneNode)
+{
+	const FCDVisualSceneNodeLibrary* library = sceneNode->GetDocument()->GetVisualSceneLibrary();
+	for (size_t i = 0; i < library->GetEntityCount(); ++i)
+	{
+		if (library->GetEntity(i) == sceneNode) return true;
+	}
+	return false;
+}
+
 xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 {
 	FCDSceneNode* sceneNode = (FCDSceneNode*)object;
@@ -126,7 +138,7 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 	for (size_t c = 0; c < childCount; ++c)
 	{
 		FCDSceneNode* child = sceneNode->GetChild(c);
-		if (child->GetParent() != sceneNode)
+		if (child->GetParent() != sceneNode || IsLibraryNode(child))
 		{
 			bool alreadyInstantiated = false;
 			for (size_t i = 0; i < instanceCount; ++i)
@@ -151,7 +163,7 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 	for (size_t c = 0; c < childCount; ++c)
 	{
 		FCDSceneNode* child = sceneNode->GetChild(c);
-		if (child->GetParent() == sceneNode)
+		if (child->GetParent() == sceneNode && !IsLibraryNode(child))
 		{
 			FArchiveXML::LetWriteObject(child, node);
 		}
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index a857aa9..d7d5097 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -881,10 +881,33 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 		EXPORT_LIBRARY(theDocument->GetEffectLibrary(), DAE_LIBRARY_EFFECT_ELEMENT);
 		EXPORT_LIBRARY(theDocument->GetGeometryLibrary(), DAE_LIBRARY_GEOMETRY_ELEMENT);
 		EXPORT_LIBRARY(theDocument->GetControllerLibrary(), DAE_LIBRARY_CONTROLLER_ELEMENT);
-		EXPORT_LIBRARY(theDocument->GetVisualSceneLibrary(), DAE_LIBRARY_VSCENE_ELEMENT);
 
 #undef EXPORT_LIBRARY
 
+		// Export the visual scenes. The nodes of this library that are also the children
+		// of other nodes belong in <library_nodes>: their parents instantiate them.
+		FCDVisualSceneNodeLibrary* sceneLibrary = theDocument->GetVisualSceneLibrary();
+		if (!sceneLibrary->IsEmpty() || sceneLibrary->GetExtra()->HasContent())
+		{
+			xmlNode* libraryNode = NULL;
+			bool isNodeLibrary = false;
+			size_t sceneCount = sceneLibrary->GetEntityCount();
+			for (size_t i = 0; i < sceneCount || libraryNode == NULL; ++i)
+			{
+				bool isNode = i < sceneCount && sceneLibrary->GetEntity(i)->GetParentCount() > 0;
+				if (libraryNode == NULL || isNodeLibrary != isNode)
+				{
+					bool isFirst = libraryNode == NULL;
+					libraryNode = AddChild(colladaNode, isNode ? DAE_LIBRARY_NODE_ELEMENT : DAE_LIBRARY_VSCENE_ELEMENT);
+					isNodeLibrary = isNode;
+					FCDAsset* asset = sceneLibrary->GetAsset(false);
+					if (isFirst && asset != NULL) FArchiveXML::LetWriteObject(asset, libraryNode);
+				}
+				if (i < sceneCount) FArchiveXML::LetWriteObject(sceneLibrary->GetEntity(i), libraryNode);
+			}
+			FArchiveXML::LetWriteObject(sceneLibrary->GetExtra(), libraryNode);
+		}
+
 		xmlNode* sceneNode = NULL;
 		if (theDocument->GetPhysicsSceneInstanceCount() > 0)
 		{
-- 
2.43.0


From 95b2d1d3c69153d0764dedf9220f57c1f8f52962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 184/205] fix: save the entities without a name under the name
 that they are loaded with

---
 FColladaPlugins/FArchiveXML/FAXSceneExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index da327e4..f7f5860 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -278,6 +278,11 @@ xmlNode* FArchiveXML::WriteToEntityXMLFCDEntity(FCDEntity* entity, xmlNode* pare
 	{
 		AddAttribute(entityNode, DAE_NAME_ATTRIBUTE, entity->GetName());
 	}
+	else if (writeId)
+	{
+		// The entities without a name are named after their id, when they are loaded.
+		AddAttribute(entityNode, DAE_NAME_ATTRIBUTE, entity->GetDaeId());
+	}
 
 	// Write out the asset information.
 	if (const_cast<const FCDEntity*>(entity)->GetAsset() != NULL) FArchiveXML::LetWriteObject(entity->GetAsset(), entityNode);
-- 
2.43.0


From 806a004a7bf70b64c2abf5ec7e9fc4d19c5be437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 185/205] fix: decode the values of all the annotations of
 effect parameters

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index aae018c..719c836 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -138,9 +138,9 @@ bool FArchiveXML::LoadEffectParameter(FCDObject* object, xmlNode* parameterNode)
 		{
 			if (valueNode->type != XML_ELEMENT_NODE) continue;
 			if (IsEquivalent(valueNode->name, DAE_FXCMN_STRING_ELEMENT)) { annotation->type = FCDEffectParameter::STRING; annotation->value = TO_FSTRING(ReadNodeContentFull(valueNode)); }
-			else if (IsEquivalent(valueNode->name, DAE_FXCMN_BOOL_ELEMENT)) { annotation->type = FCDEffectParameter::BOOLEAN; annotation->value = TO_FSTRING(ReadNodeContentDirect(valueNode)); }
-			else if (IsEquivalent(valueNode->name, DAE_FXCMN_INT_ELEMENT)) { annotation->type = FCDEffectParameter::INTEGER; annotation->value = TO_FSTRING(ReadNodeContentDirect(valueNode)); }
-			else if (IsEquivalent(valueNode->name, DAE_FXCMN_FLOAT_ELEMENT)) { annotation->type = FCDEffectParameter::FLOAT; annotation->value = TO_FSTRING(ReadNodeContentDirect(valueNode)); }
+			else if (IsEquivalent(valueNode->name, DAE_FXCMN_BOOL_ELEMENT)) { annotation->type = FCDEffectParameter::BOOLEAN; annotation->value = TO_FSTRING(ReadNodeContentFull(valueNode)); }
+			else if (IsEquivalent(valueNode->name, DAE_FXCMN_INT_ELEMENT)) { annotation->type = FCDEffectParameter::INTEGER; annotation->value = TO_FSTRING(ReadNodeContentFull(valueNode)); }
+			else if (IsEquivalent(valueNode->name, DAE_FXCMN_FLOAT_ELEMENT)) { annotation->type = FCDEffectParameter::FLOAT; annotation->value = TO_FSTRING(ReadNodeContentFull(valueNode)); }
 			else {FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_ANNO_TYPE, valueNode->line);}
 			break;
 		}
-- 
2.43.0


From 7e7cc78d236d4872390e317810ba5ec61d8c6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 186/205] fix: save the empty format of an effect surface

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index d2bbc24..773bf93 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -416,11 +416,9 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 		}
 
 	}
-	if (!effectParameterSurface->GetFormat().empty())
-	{
-		xmlNode* childNode = AddChild(surfaceNode, DAE_FORMAT_ELEMENT);
-		AddContent(childNode, effectParameterSurface->GetFormat().c_str());
-	}
+	// A surface without <format> has the default one.
+	xmlNode* childNode = AddChild(surfaceNode, DAE_FORMAT_ELEMENT);
+	AddContent(childNode, effectParameterSurface->GetFormat().c_str());
 	if (effectParameterSurface->GetFormatHint())
 	{
 		xmlNode* formatHintNode = AddChild(surfaceNode, DAE_FORMAT_HINT_ELEMENT);
-- 
2.43.0


From bb5a70760eddb8fbe669a7430e2d845198b7186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 187/205] fix: decode the format of an effect surface

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 719c836..5086c6e 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -670,7 +670,7 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 
 	xmlNode* formatNode = FindChildByType(surfaceNode, DAE_FORMAT_ELEMENT);
 	if (formatNode)
-		effectParameterSurface->SetFormat(FUStringConversion::ToString(ReadNodeContentDirect(formatNode)));
+		effectParameterSurface->SetFormat(ReadNodeContentFull(formatNode));
 
 	xmlNode* formatHintNode = FindChildByType(surfaceNode, DAE_FORMAT_HINT_ELEMENT);
 	if (formatHintNode)
-- 
2.43.0


From 4047cc804ab1332a8aa29c2d39a81363493223cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 188/205] fix: construct the new elements of the resized lists

---
 FCollada/FMath/FMArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 9f7af13..363f2cd 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -259,7 +259,7 @@ namespace fm
 		{
 			reserve(count);
 
-			if constexpr (!std::is_trivially_copyable_v<T>)
+			if constexpr (!std::is_trivially_default_constructible_v<T> || !std::is_trivially_copyable_v<T>)
 			{
 				T* it = end();
 				for (; sized < count; ++sized)
-- 
2.43.0


From d860f4830c36220bca69f6e78efec5bb95cfbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 189/205] fix: give the elements without a sub-id a valid one

---
 FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
index 411b69d..dc6c96a 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
@@ -386,6 +386,9 @@ namespace FUDaeWriter
 			for (parentNode = node; parentNode->parent != NULL; parentNode = parentNode->parent) {}
 		}
 
+		// An element needs a valid sub-id: use its type for those without one.
+		if (wantedSid == NULL || *wantedSid == 0) wantedSid = (const char*) node->name;
+
 		// Check the wanted sid for uniqueness
 		xmlNode* existingNode = FindHierarchyChildBySid(parentNode, wantedSid);
 		if (existingNode == NULL)
-- 
2.43.0


From 25baec714b406fccd8d8a4ebd9a71e2b56d69974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 190/205] fix: read the text around comments and in CDATA
 sections

---
 FCollada/FUtils/FUXmlDocument.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 0d88491..0a18c26 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -16,6 +16,19 @@
 #include <libxml/parser.h>
 
 #define MAX_FILE_SIZE 10240000
+// Comments and processing instructions are no content and CDATA sections are text:
+// they are not kept as nodes, so that the text of an element is always in one node.
+static xmlDoc* ParseXmlMemory(const char* data, int length)
+{
+	xmlParserCtxt* context = xmlNewParserCtxt();
+	if (context == NULL) return NULL;
+	context->sax->comment = NULL;
+	context->sax->processingInstruction = NULL;
+	xmlDoc* document = xmlCtxtReadMemory(context, data, length, NULL, NULL, XML_PARSE_NOCDATA);
+	xmlFreeParserCtxt(context);
+	return document;
+}
+
 //
 // FUXmlDocument
 //
@@ -38,7 +51,7 @@ FUXmlDocument::FUXmlDocument(FUFileManager* manager, const fchar* _filename, boo
 			file->Close();
 
 			// Open the given XML file.
-			xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
+			xmlDocument = ParseXmlMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
 			SAFE_DELETE_ARRAY(fileData);
 		}
 		SAFE_DELETE(file);
@@ -66,7 +79,7 @@ FUXmlDocument::FUXmlDocument(const char* data, size_t length)
 	}
 
 	// Open the given XML file.
-	xmlDocument = xmlParseMemory(data, static_cast<int>(length));
+	xmlDocument = ParseXmlMemory(data, static_cast<int>(length));
 }
 
 FUXmlDocument::~FUXmlDocument()
-- 
2.43.0


From d2e006cb1b11d080508c9f8cac5f09ce590beeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 191/205] fix: instantiate physics models of later libraries

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index d7d5097..c32bea7 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -695,6 +695,9 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		case PHYSICS_MODEL:
 			{
 				status &= (FArchiveXML::LoadPhysicsModelLibrary(theDocument->GetPhysicsModelLibrary(), n.node));
+
+				// A model may instantiate the models of the libraries that follow.
+				if (i + 1 < libraryNodeCount && orderedLibraryNodes[i + 1].order == PHYSICS_MODEL) break;
 				size_t physicsModelCount = theDocument->GetPhysicsModelLibrary()->GetEntityCount();
 				for (size_t physicsModelCounter = 0; physicsModelCounter < physicsModelCount; physicsModelCounter++)
 				{
-- 
2.43.0


From 3975d635c1be4e8cf418f4be965d0cdbef80bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 192/205] fix: read booleans and dates within white space

---
 FCollada/FUtils/FUStringConversion.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index cb07bb7..917437e 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -29,6 +29,7 @@ static inline const CH* SkipWhiteSpaces(const CH* s)
 template<class CH>
 FCOLLADA_EXPORT bool FUStringConversion::ToBoolean(const CH* value)
 {
+	value = SkipWhiteSpaces(value);
 	return value != NULL && *value != 0 && *value != '0' && *value != 'f' && *value != 'F';
 }
 
@@ -198,8 +199,10 @@ FCOLLADA_EXPORT void FUStringConversion::ToDateTime(const CH* value, FUDateTime&
 {
 	// Manually calculate the length in order to avoid the strlen/fstrlen nightmare.
 	size_t length;
+	value = SkipWhiteSpaces(value);
 	const CH* c = value;
-	for (length = 0; *c != 0; ++length) ++c;
+	for (length = 0; *c != 0 && SkipWhiteSpaces(c) == c; ++length) ++c;
+	if (*SkipWhiteSpaces(c) != 0) return;
 
 	if (length == 20)
 	{
-- 
2.43.0


From 597960b99a54ad07c2c8ab21c0a1d1febdfb40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 193/205] fix: ignore the white space around the URIs in
 elements

---
 FCollada/FUtils/FUXmlParser.cpp               | 22 +++++++++++++++++++
 FCollada/FUtils/FUXmlParser.h                 |  2 ++
 .../FArchiveXML/FAXEntityImport.cpp           |  2 +-
 .../FArchiveXML/FAXInstanceImport.cpp         |  2 +-
 .../FArchiveXML/FAXMaterialImport.cpp         |  2 +-
 5 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUXmlParser.cpp b/FCollada/FUtils/FUXmlParser.cpp
index 5588744..ffbf36c 100644
--- a/FCollada/FUtils/FUXmlParser.cpp
+++ b/FCollada/FUtils/FUXmlParser.cpp
@@ -209,4 +209,26 @@ namespace FUXmlParser
 		}
 		return emptyString;
 	}
+
+	// Returns a string without the white space around it
+	fm::string TrimWhiteSpace(const char* s)
+	{
+		size_t length = strlen(s);
+		while (length > 0 && isspace((uint8) s[length - 1])) --length;
+		while (length > 0 && isspace((uint8) *s)) { ++s; --length; }
+		return fm::string(s, length);
+	}
+
+	// Returns the inner text content of a node, without the white space around it
+	fm::string ReadNodeContentTrimmed(xmlNode* node)
+	{
+		fm::string ret;
+		xmlChar* content = (node != NULL) ? xmlNodeGetContent(node) : NULL;
+		if (content != NULL)
+		{
+			ret = XmlToString(TrimWhiteSpace((const char*) content));
+			xmlFree(content);
+		}
+		return ret;
+	}
 }
diff --git a/FCollada/FUtils/FUXmlParser.h b/FCollada/FUtils/FUXmlParser.h
index 4aaf000..a354191 100644
--- a/FCollada/FUtils/FUXmlParser.h
+++ b/FCollada/FUtils/FUXmlParser.h
@@ -40,6 +40,8 @@ namespace FUXmlParser
 	FCOLLADA_EXPORT FUCrc32::crc32 ReadNodePropertyCRC(xmlNode* node, const char* property);
 	FCOLLADA_EXPORT const char* ReadNodeContentDirect(xmlNode* node);
 	FCOLLADA_EXPORT fm::string ReadNodeContentFull(xmlNode* node);
+	FCOLLADA_EXPORT fm::string TrimWhiteSpace(const char* s);
+	FCOLLADA_EXPORT fm::string ReadNodeContentTrimmed(xmlNode* node);
 }
 
 inline bool IsEquivalent(const xmlChar* sz1, const char* sz2) { return IsEquivalent((const char*) sz1, sz2); }
diff --git a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
index b41fc5b..0500a52 100644
--- a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
@@ -189,7 +189,7 @@ bool FArchiveXML::LoadAssetContributor(FCDObject* object, xmlNode* contributorNo
 		}
 		else if (IsEquivalent(child->name, DAE_SOURCEDATA_ASSET_PARAMETER))
 		{
-			assetContributor->SetSourceData(TO_FSTRING(content));
+			assetContributor->SetSourceData(TO_FSTRING(ReadNodeContentTrimmed(child)));
 		}
 		else
 		{
diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 59633cb..05d55b1 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -152,7 +152,7 @@ bool FArchiveXML::LoadControllerInstance(FCDObject* object, xmlNode* instanceNod
 
 	for (size_t i = 0; i < numRoots; ++i)
 	{
-		controllerInstance->GetSkeletonRoots()[i] = FUUri(TO_FSTRING(FUDaeParser::ReadNodeContentDirect(skeletonList[i])));
+		controllerInstance->GetSkeletonRoots()[i] = FUUri(TO_FSTRING(FUDaeParser::TrimWhiteSpace(FUDaeParser::ReadNodeContentDirect(skeletonList[i]))));
 	}
 
 	return status;
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 5086c6e..e2df692 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -1529,7 +1529,7 @@ bool FArchiveXML::LoadImage(FCDObject* object, xmlNode* imageNode)
 
 	// Read in the image's filename, within the <init_from> element: binary images are not supported.
 	xmlNode* filenameSourceNode = FindChildByType(imageNode, DAE_INITFROM_ELEMENT);
-	image->SetFilename(TO_FSTRING(ReadNodeContentFull(filenameSourceNode)));
+	image->SetFilename(TO_FSTRING(ReadNodeContentTrimmed(filenameSourceNode)));
 
 	// Convert the filename to something the OS can use
 	fstring fileName = FUUri(image->GetFilename()).GetAbsoluteUri();
-- 
2.43.0


From 8fb1cef6cd605dcdf9d8bf04689af458bbc318bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 194/205] fix: nodes, targets and shape geometries referenced
 by the document's own file name are local

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp  | 2 +-
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 8 ++++++++
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp  | 2 +-
 FColladaPlugins/FArchiveXML/FAXSceneImport.cpp    | 2 +-
 FColladaPlugins/FArchiveXML/FArchiveXML.h         | 1 +
 5 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 295ef04..f4ee7ab 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -224,7 +224,7 @@ bool FArchiveXML::LinkTargetedEntity(FCDTargetedEntity* targetedEntity)
 
 	// Skip externally-referenced targets, for now.
 	FUUri targetUri(TO_FSTRING(data.targetId));
-	if (!targetUri.IsFile() && !targetUri.GetFragment().empty())
+	if (FArchiveXML::IsLocalUri(targetedEntity->GetDocument(), targetUri) && !targetUri.GetFragment().empty())
 	{
 		FCDSceneNode* target = targetedEntity->GetDocument()->FindSceneNode(TO_STRING(targetUri.GetFragment()));
 		if (target == NULL)
diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 05d55b1..74face9 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -28,6 +28,14 @@
 #include "FCDocument/FCDPhysicsModel.h"
 #include "FCDocument/FCDPhysicsRigidBody.h"
 
+// The references from a document to its own file are local references.
+bool FArchiveXML::IsLocalUri(const FCDocument* document, const FUUri& uri)
+{
+	if (!uri.IsFile()) return true;
+	fstring fileUrl = const_cast<FCDocument*>(document)->GetFileManager()->GetCurrentUri().MakeAbsolute(uri.GetAbsolutePath());
+	return IsEquivalent(fileUrl, document->GetFileUrl());
+}
+
 bool FArchiveXML::LoadEntityInstance(FCDObject* object, xmlNode* instanceNode)
 {
 	FCDEntityInstance* entityInstance = (FCDEntityInstance*)object;
diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index c004a95..460d3a7 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -305,7 +305,7 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 		else if (IsEquivalent(child->name, DAE_INSTANCE_GEOMETRY_ELEMENT))
 		{
 			FUUri url = ReadNodeUrl(child);
-			if (!url.IsFile())
+			if (FArchiveXML::IsLocalUri(physicsShape->GetDocument(), url))
 			{
 				FCDGeometry* entity = physicsShape->GetDocument()->FindGeometry(TO_STRING(url.GetFragment()));
 				if (entity != NULL)
diff --git a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
index affdb3d..7e57049 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
@@ -142,7 +142,7 @@ bool FArchiveXML::LoadSceneNode(FCDObject* object, xmlNode* node)
 		else if (IsEquivalent(child->name, DAE_INSTANCE_NODE_ELEMENT))
 		{
 			FUUri url = ReadNodeUrl(child);
-			if (!url.IsFile())
+			if (FArchiveXML::IsLocalUri(sceneNode->GetDocument(), url))
 			{
 				// cannot find the node
 				FCDSceneNode* node = sceneNode->GetDocument()->FindSceneNode(TO_STRING(url.GetFragment()));
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.h b/FColladaPlugins/FArchiveXML/FArchiveXML.h
index fe667e7..08acf3c 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.h
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.h
@@ -202,6 +202,7 @@ public:
 	//
 	// Instance related functions
 	//
+	static bool IsLocalUri(const FCDocument* document, const FUUri& uri);
 	static bool LoadEntityInstance(FCDObject* object, xmlNode* node);
 	static bool LoadEmitterInstance(FCDObject* object, xmlNode* node);
 	static bool LoadGeometryInstance(FCDObject* object, xmlNode* node);
-- 
2.43.0


From 96cbd2f68bca96e660d96524a1738872201f25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 195/205] fix: morph bases and the targets of rigid bodies
 referenced by the document's own file name are local

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp  |  2 +-
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 10 +++++++++-
 FColladaPlugins/FArchiveXML/FArchiveXML.h         |  1 +
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index f4ee7ab..7c28da6 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -557,7 +557,7 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 
 	if (morphController->GetBaseTarget() == NULL)
 	{
-		fm::string targetId = SkipPound(data.targetId);
+		fm::string targetId = FArchiveXML::GetLocalId(morphController->GetDocument(), data.targetId);
 		data.targetId.clear();
 		FCDEntity* baseTarget = morphController->GetDocument()->FindGeometry(targetId);
 		if (baseTarget == NULL)
diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 74face9..62fedd7 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -36,6 +36,14 @@ bool FArchiveXML::IsLocalUri(const FCDocument* document, const FUUri& uri)
 	return IsEquivalent(fileUrl, document->GetFileUrl());
 }
 
+// The id of an entity of this document, from a reference with or without the name of its file.
+fm::string FArchiveXML::GetLocalId(const FCDocument* document, const fm::string& reference)
+{
+	FUUri uri(TO_FSTRING(reference));
+	if (!uri.GetFragment().empty() && FArchiveXML::IsLocalUri(document, uri)) return TO_STRING(uri.GetFragment());
+	return FUDaeParser::SkipPound(reference);
+}
+
 bool FArchiveXML::LoadEntityInstance(FCDObject* object, xmlNode* instanceNode)
 {
 	FCDEntityInstance* entityInstance = (FCDEntityInstance*)object;
@@ -298,7 +306,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 
 	// Find the target scene node/rigid body
 	fm::string targetNodeId = ReadNodeProperty(instanceNode, DAE_TARGET_ATTRIBUTE);
-	physicsRigidBodyInstance->SetTargetNode(physicsRigidBodyInstance->GetDocument()->FindSceneNode(SkipPound(targetNodeId)));
+	physicsRigidBodyInstance->SetTargetNode(physicsRigidBodyInstance->GetDocument()->FindSceneNode(FArchiveXML::GetLocalId(physicsRigidBodyInstance->GetDocument(), targetNodeId)));
 	if (!physicsRigidBodyInstance->GetTargetNode())
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::WARNING_MISSING_URI_TARGET, instanceNode->line);
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.h b/FColladaPlugins/FArchiveXML/FArchiveXML.h
index 08acf3c..5f0c64b 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.h
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.h
@@ -203,6 +203,7 @@ public:
 	// Instance related functions
 	//
 	static bool IsLocalUri(const FCDocument* document, const FUUri& uri);
+	static fm::string GetLocalId(const FCDocument* document, const fm::string& reference);
 	static bool LoadEntityInstance(FCDObject* object, xmlNode* node);
 	static bool LoadEmitterInstance(FCDObject* object, xmlNode* node);
 	static bool LoadGeometryInstance(FCDObject* object, xmlNode* node);
-- 
2.43.0


From 2178689bd0f75cd2ff869ebc1e637930a58d1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 196/205] fix: the indices of skins have as many columns as
 their inputs have offsets

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index c9970a1..ad4aa23 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -197,6 +197,14 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	}
 	size_t lastIdx = (size_t) max(jointIdx, weightIdx);
 
+	// There is one index per offset, whether or not it is for an input that is used.
+	size_t stride = lastIdx + 1;
+	for (xmlNodeList::iterator it = skinningInputNodes.begin(); it != skinningInputNodes.end(); ++it)
+	{
+		uint32 inputOffset = FUStringConversion::ToUInt32(ReadNodeProperty(*it, DAE_OFFSET_ATTRIBUTE));
+		if (inputOffset <= 0xFFFF) stride = max(stride, (size_t) inputOffset + 1);
+	}
+
 	// Setup the joint-weight-vertex matches
 	skinController->SetInfluenceCount(combinerValueCount);
 	size_t jointCount = jointSubIds.size(), weightCount = weights.size(), offset = 0;
@@ -226,7 +234,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 				weightIndex = 0;
 			}
 			pair->weight = (weightIndex < weightCount) ? weights[weightIndex] : 0.0f;
-			offset += 2;
+			offset += stride;
 		}
 	}
 
-- 
2.43.0


From 256596346eb838080e06ff845605c35c269b5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 197/205] fix: log files hold lines of any length

---
 FCollada/FUtils/FULogFile.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FULogFile.cpp b/FCollada/FUtils/FULogFile.cpp
index c190da1..9a70b17 100644
--- a/FCollada/FUtils/FULogFile.cpp
+++ b/FCollada/FUtils/FULogFile.cpp
@@ -44,10 +44,14 @@ void FULogFile::WriteLine(const char* message, ...)
 
 void FULogFile::WriteLineV(const char* message, va_list& vars)
 {
-	size_t len = strlen(message);
-	char* buffer = new char[len + 1024];
-	vsnprintf(buffer, len + 1024, message, vars);
-	buffer[len + 1023] = 0;
+	va_list measuredVars;
+	va_copy(measuredVars, vars);
+	int len = vsnprintf(NULL, 0, message, measuredVars);
+	va_end(measuredVars);
+	if (len < 0) return;
+
+	char* buffer = new char[len + 1];
+	vsnprintf(buffer, len + 1, message, vars);
 
 	if (file->IsOpen())
 	{
-- 
2.43.0


From ce9d5c59f2fcaf5872a401020eb20ad227d1697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:56 +0000
Subject: [PATCH 198/205] fix: error logs write the texts of reports as they
 are

---
 FCollada/FUtils/FUErrorLog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUErrorLog.cpp b/FCollada/FUtils/FUErrorLog.cpp
index 45433e1..b9a16db 100644
--- a/FCollada/FUtils/FUErrorLog.cpp
+++ b/FCollada/FUtils/FUErrorLog.cpp
@@ -73,5 +73,5 @@ void FUErrorLog::OnErrorCallback(FUError::Level level, uint32 errorCode, uint32
 #endif // WIN32
 		newLine.append('\n');
 	}
-	logFile->WriteLine(newLine.ToCharPtr());
+	logFile->WriteLine("%s", newLine.ToCharPtr());
 }
-- 
2.43.0


From 0945897b6a75109d16898b2e9ff2b444c3418569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 199/205] fix: a convex mesh may refer to its original with a
 URL, as COLLADA has it

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 6cd8feb..a1dbc6c 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -63,7 +63,7 @@ bool FArchiveXML::LoadGeometryMesh(FCDObject* object, xmlNode* meshNode)
 	bool status = true;
 
 	if (geometryMesh->IsConvex()) // <convex_mesh> element
-		geometryMesh->SetConvexHullOf(ReadNodeProperty(meshNode, DAE_CONVEX_HULL_OF_ATTRIBUTE));
+		geometryMesh->SetConvexHullOf(FArchiveXML::GetLocalId(geometryMesh->GetDocument(), ReadNodeProperty(meshNode, DAE_CONVEX_HULL_OF_ATTRIBUTE)));
 
 	if (geometryMesh->IsConvex() && !geometryMesh->GetConvexHullOf().empty())
 	{
-- 
2.43.0


From 625b79101efc25faef564dbe8c0a3ed0347ca242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 200/205] fix: the volume of a mesh shape is that of one box
 around all positions, zero without any

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 9152647..8560014 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -205,7 +205,6 @@ float FCDPhysicsShape::CalculateVolume() const
 		if (geom->IsMesh())
 		{
 			FUBoundingBox boundary;
-			float countingVolume = 0.0f;
 			const FCDGeometryMesh* mesh = geom->GetMesh();
 
 			if (!mesh->GetConvexHullOf().empty())
@@ -229,14 +228,12 @@ float FCDPhysicsShape::CalculateVolume() const
 					boundary.Include(FMVector3(positionData, (uint32)pos));
 					pos += positionStride;
 				}
-
-				FMVector3 min = boundary.GetMin();
-				FMVector3 max = boundary.GetMax();
-				countingVolume +=
-						(max.x - min.x) * (max.y - min.y) * (max.z - min.z);
-				boundary.Reset();
 			}
-			return countingVolume;
+			if (!boundary.IsValid()) return 0.0f; // no positions
+
+			FMVector3 min = boundary.GetMin();
+			FMVector3 max = boundary.GetMax();
+			return (max.x - min.x) * (max.y - min.y) * (max.z - min.z);
 		}
 		// splines have no volume!
 		return 1.0f;
-- 
2.43.0


From 9fb5ee48bfcccc324991f98174a68bb2415eb655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 201/205] fix: looking for the original of convex hulls of each
 other ends

---
 FCollada/FCDocument/FCDGeometryMesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryMesh.cpp b/FCollada/FCDocument/FCDGeometryMesh.cpp
index 745b50b..29ee756 100644
--- a/FCollada/FCDocument/FCDGeometryMesh.cpp
+++ b/FCollada/FCDocument/FCDGeometryMesh.cpp
@@ -65,9 +65,11 @@ void FCDGeometryMesh::SetConvexHullOf(FCDGeometry* _geom)
 const FCDGeometryMesh* FCDGeometryMesh::FindConvexHullOfMesh() const
 {
 	const FCDGeometryMesh* mesh = this;
+	size_t hullCount = 0;
 	while ((mesh != NULL) && !mesh->GetConvexHullOf().empty())
 	{
 		const FCDocument* document = mesh->GetDocument();
+		if (++hullCount > document->GetGeometryLibrary()->GetEntityCount()) return NULL; // convex hulls of each other
 		const FCDGeometry* geometry = document->GetGeometryLibrary()->
 				FindDaeId(mesh->GetConvexHullOf());
 		if (geometry == NULL) return NULL;
-- 
2.43.0


From a045a6f4bab9195506c875f2f385d39a9542fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:58 +0000
Subject: [PATCH 202/205] fix: cloned curves and clips have each other once,
 with the offset of the originals

---
 FCollada/FCDocument/FCDAnimationClip.cpp  |  5 ++++-
 FCollada/FCDocument/FCDAnimationCurve.cpp | 14 +++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 82dc3dc..45ac53c 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -65,8 +65,11 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 			if (cloneChildren)
 			{
 				FCDAnimationCurve* clonedCurve = (*it)->Clone(NULL, false);
-				clonedCurve->AddClip(clone);
 				clone->AddClipCurve(clonedCurve);
+				for (size_t i = 0; i < (*it)->GetClipCount(); ++i)
+				{
+					if ((*it)->GetClip(i) == this) clonedCurve->SetClipOffset((*it)->GetClipOffset(i), clone);
+				}
 			}
 		}
 	}
diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index a92547e..80c927d 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -196,7 +196,7 @@ bool FCDAnimationCurve::DeleteKey(FCDAnimationKey* key)
 
 void FCDAnimationCurve::AddClip(FCDAnimationClip* clip)
 {
-    clips.push_back(clip);
+	RegisterAnimationClip(clip);
 }
 
 bool FCDAnimationCurve::HasDriver() const
@@ -257,20 +257,16 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->postInfinity = postInfinity;
 	clone->inputDriver = inputDriver;
 	clone->inputDriverIndex = inputDriverIndex;
+	clone->currentOffset = currentOffset; // the keys include it
 
 	if (includeClips)
 	{
 		// Animation clips that depend on this curve
-		for (FCDAnimationClipList::const_iterator it = clips.begin(); it != clips.end(); ++it)
+		for (size_t i = 0; i < clips.size(); ++i)
 		{
-			FCDAnimationClip* clonedClip = (FCDAnimationClip*) (*it)->Clone(0, false);
+			FCDAnimationClip* clonedClip = (FCDAnimationClip*) clips[i]->Clone(0, false);
 			clonedClip->AddClipCurve(clone);
-			clone->AddClip(clonedClip);
-		}
-
-		for (FloatList::const_iterator it = clipOffsets.begin(); it != clipOffsets.end(); ++it)
-		{
-			clone->clipOffsets.push_back(*it);
+			clone->SetClipOffset(clipOffsets[i], clonedClip);
 		}
 	}
 
-- 
2.43.0


From f773ea3d8086ddb017f5008f274d06f7595d2e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:04 +0000
Subject: [PATCH 203/205] fix: the tangents of a curve move with its keys to
 the current animation clip

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 80c927d..87b1bff 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -296,6 +296,13 @@ void FCDAnimationCurve::SetCurrentAnimationClip(FCDAnimationClip* clip)
 		for (FCDAnimationKeyList::iterator it = keys.begin(); it != keys.end(); ++it)
 		{
 			(*it)->input += offset;
+			if ((*it)->interpolation == FUDaeInterpolation::BEZIER)
+			{
+				// The tangents are absolute positions.
+				FCDAnimationKeyBezier* bkey = (FCDAnimationKeyBezier*) (*it);
+				bkey->inTangent.x += offset;
+				bkey->outTangent.x += offset;
+			}
 		}
 	}
 
-- 
2.43.0


From 351ca0baaf276f384c2734b65fc6aaa0e2d3a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:42 +0000
Subject: [PATCH 204/205] fix: plug-in objects are released with their
 technique, as documented

---
 FCollada/FCDocument/FCDExtra.cpp | 13 ++++++++++++-
 FCollada/FCDocument/FCDExtra.h   |  7 +++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDExtra.cpp b/FCollada/FCDocument/FCDExtra.cpp
index 6e48491..68d44f3 100644
--- a/FCollada/FCDocument/FCDExtra.cpp
+++ b/FCollada/FCDocument/FCDExtra.cpp
@@ -377,7 +377,18 @@ FCDETechnique::FCDETechnique(FCDocument* document, FCDEType* /*parent*/, const c
 {
 }
 
-FCDETechnique::~FCDETechnique() {}
+FCDETechnique::~FCDETechnique()
+{
+	SetPluginObject(NULL);
+}
+
+void FCDETechnique::SetPluginObject(FUTrackable* plugin)
+{
+	FUTrackable* previous = pluginOverride;
+	if (previous == plugin) return;
+	pluginOverride = plugin;
+	if (previous != NULL) previous->Release();
+}
 
 FCDENode* FCDETechnique::Clone(FCDENode* clone) const
 {
diff --git a/FCollada/FCDocument/FCDExtra.h b/FCollada/FCDocument/FCDExtra.h
index cfe671a..d0a8c9a 100644
--- a/FCollada/FCDocument/FCDExtra.h
+++ b/FCollada/FCDocument/FCDExtra.h
@@ -473,8 +473,11 @@ public:
 	FUTrackable* GetPluginObject() { return pluginOverride; }
 	const FUTrackable* GetPluginObject() const { return pluginOverride; } /**< See above. */
 
-	/** Sets the plug-in object that overrides the extra tree for this profile.*/
-	void SetPluginObject(FUTrackable* plugin) { pluginOverride = plugin; }
+	/** Sets the plug-in object that overrides the extra tree for this profile.
+		The technique releases its plug-in object when it is released
+		or when another plug-in object is set.
+		@param plugin The new plug-in object. */
+	void SetPluginObject(FUTrackable* plugin);
 
 	/** Clones the extra tree node.
 		@param clone The extra tree node that will receive the clone information.
-- 
2.43.0


From 6a47baf08df080367910581045f5524e11c02177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:42 +0000
Subject: [PATCH 205/205] fix: a load that is cancelled within its last library
 does not succeed

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index c32bea7..79b077b 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -713,6 +713,9 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 	}
 
+	// The last library may have been abandoned halfway.
+	if (libraryNodeCount > 0 && FCollada::CancelLoading()) return false;
+
 	// Read in the <scene> element
 	if (sceneNode != NULL)
 	{
-- 
2.43.0

