From 4141dccc41a61e28c4fceb4c885bb320cd09ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 001/113] fix: a rejected double marks the open transaction as
 failed

---
 src/core/EditableObject.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/EditableObject.cpp b/src/core/EditableObject.cpp
index 708ea33..608c057 100644
--- a/src/core/EditableObject.cpp
+++ b/src/core/EditableObject.cpp
@@ -87,11 +87,16 @@ Status EditableObject::setMember(int64* pointer,
 
 Status EditableObject::setMember(double* pointer, double value)
 {
-   if(isNaN(value))return Status::eInvalidInput;
-   if(value == *pointer)return Status::eNotChanged;
-
    UndoManager* um = nullptr;
    if(mDocument != nullptr)um = mDocument->undoManager();
+   if(isNaN(value))
+   {
+      Status status = Status::eInvalidInput;
+      if(um != nullptr)um->registerTransactionStatus(status);
+      return status;
+   }
+   if(value == *pointer)return Status::eNotChanged;
+
    if(um != nullptr)um->registerChange(this, pointer);
    *pointer = value;
    return Status::eOK;
-- 
2.43.0


From 1490a39f6b65bad8322e9486d5bb3245d0690102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 002/113] fix: LinkedList::swapData swaps also without an undo
 manager

---
 src/core/LinkedList.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 0ee10a3..3ea0a8b 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -291,9 +291,10 @@ void LinkedList::swapData(Object* data1, Object* data2, UndoManager* um)
       {
          um->registerChange(elem1, (Object**) & (elem1->data));
          um->registerChange(elem2, (Object**) & (elem2->data));
-         elem1->data = data2;
-         elem2->data = data1;
       }
+
+      elem1->data = data2;
+      elem2->data = data1;
    }
 }
 
-- 
2.43.0


From 91ed28daee46e1601bf730c2bffd4052d906b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 003/113] fix: LinkedList::addBefore records the predecessor's
 link under the predecessor

---
 src/core/LinkedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 3ea0a8b..5b0d449 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -187,7 +187,7 @@ void LinkedList::addBefore(LListElement* addBeforeThis, LListElement* itemToAdd,
       um->registerChange(itemToAdd, (Object**) & (itemToAdd->next));
       if(listStart == addBeforeThis)um->registerChange(this, (Object* *)&listStart);
       um->registerChange(addBeforeThis, (Object**) & (addBeforeThis->prev));
-      if(addBeforeThis->prev != nullptr)um->registerChange(addBeforeThis,
+      if(addBeforeThis->prev != nullptr)um->registerChange(addAfterThis,
                (Object* *) & (addAfterThis->next));
       um->registerChange(this, &count);
    }
-- 
2.43.0


From 613b6d935653308ec85628b05a0930cc47141abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 004/113] fix: Vertex3::biggest returned z when the two largest
 components are equal

---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index b50d91e..cb767bc 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -165,7 +165,7 @@ Vertex3 Vertex3::scale(const Vertex3& another)const
 
 double Vertex3::biggest() const
 {
-   return (x > y && x > z) ? x : ((y > x && y > z) ? y : z);
+   return (x >= y && x >= z) ? x : ((y >= z) ? y : z);
 }
 
 /*
-- 
2.43.0


From f4699965125d8b3958e3e4999d3c1f33b8481ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 005/113] fix: Matrix addition and subtraction need equal
 dimensions

---
 src/core/Matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index eacf59e..4c128fe 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -910,8 +910,8 @@ const Matrix jm::operator*(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same dimensions
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
@@ -935,8 +935,8 @@ const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator-(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same dimensions
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
-- 
2.43.0


From a3d69b62bcd2bca0154e06190fb8e09bad6ecda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 006/113] fix: swapping an integer variable with itself cleared
 it

---
 src/core/Math.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 2f0e4a9..39573b8 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -124,30 +124,30 @@ void jm::swap(double& v1, double& v2)
 
 void jm::swap(int32& v1, int32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   int32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint32& v1, uint32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint16& v1, uint16& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint16 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint8& v1, uint8& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint8 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 double jm::random()
-- 
2.43.0


From 06a82b1bd60a291b4f50f21b93fc036cf24c2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 007/113] fix: String assignment keeps the remembered hash of
 the old content

---
 src/core/String.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 92edf01..2cb95e2 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1237,6 +1237,7 @@ namespace jm
          delete[] mValue;
          mStrLength = another.mStrLength;
          mArrLength = another.mArrLength;
+         mHash = another.mHash;
          mValue = new Char[mArrLength];
          memcpy(mValue, another.mValue, sizeof(Char) * mStrLength);
       }
-- 
2.43.0


From d8110eb220f62813c583106f760ffb0c069f649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 008/113] fix: derived strings must not keep the hash of the
 string they were copied from

---
 src/core/String.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2cb95e2..003ae8a 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -309,6 +309,7 @@ String String::toLowerCase() const
    {
       ret.mValue[a] = ret.mValue[a].toLowerCase();;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -321,6 +322,7 @@ String String::toUpperCase() const
    {
       ret.mValue[a] = ret.mValue[a].toUpperCase();
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -438,6 +440,7 @@ String String::replace(Char oldChar, Char newChar) const
    {
       if(ret.mValue[a] == oldChar)ret.mValue[a] = newChar;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -483,6 +486,7 @@ String String::reverse() const
       ret.mValue[last] = tmp;
       last--;
    }
+   ret.mHash = 0;
 
    return ret;
 }
-- 
2.43.0


From e3003301bf13550c7a2f1f2a420a67ce4a89bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 009/113] fix: a hash code with the highest bit set changed its
 value once it was remembered

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 003ae8a..1c94d59 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -290,7 +290,7 @@ int64 String::hashCode()
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    mHash = (int32) hash;
-   return hash;
+   return mHash;
 }
 
 int64 String::constHashCode() const
@@ -298,7 +298,7 @@ int64 String::constHashCode() const
    if(mHash != 0)return mHash;
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
-   return hash;
+   return (int32) hash;
 }
 
 String String::toLowerCase() const
-- 
2.43.0


From 93d95d027330a31ff0bc2cd8a7d03a0f9cf0f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 010/113] fix: String::indexOf compared characters behind the
 end of the string

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 1c94d59..c3d8376 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -370,7 +370,7 @@ int64 String::indexOf(const String& str, int64 fromIndex) const
 {
    if(fromIndex < 0)fromIndex = 0;
 
-   for(int64 a = fromIndex; a < mStrLength; a++)
+   for(int64 a = fromIndex; a < mStrLength && a <= mStrLength - str.mStrLength; a++)
    {
       bool found = true;
       for(int64 b = 0 ; b < str.mStrLength; b++)
-- 
2.43.0


From b8e97c6c781e3c25d4f3e16f2b37df452f054278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 011/113] fix: String::deleteCharRangeAt checks the length of
 the range

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index c3d8376..e6a1366 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -579,7 +579,7 @@ void String::deleteCharAt(int64 index)
 
 void String::deleteCharRangeAt(int64 index, int64 length)
 {
-   if(index < 0 || index > mStrLength)
+   if(index < 0 || index > mStrLength || length < 0 || length > mStrLength - index)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
    for(int64 a = index ; a < mStrLength - length; a++)
-- 
2.43.0


From b914a98e9572623f4df575d3dd5b9684ab12ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 012/113] fix: inserting a string into itself

---
 src/core/String.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index e6a1366..6d94e5d 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -553,6 +553,12 @@ void String::insert(int64 index, const String& str)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(&str == this)
+   {
+      insert(index, String(str));
+      return;
+   }
+
    int64 len = str.size();
    checkCapacity(len);
 
-- 
2.43.0


From f00a250e8b0760ad3e63de48067b576cbcc2fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 013/113] fix: String::atIs and atIsIgnoreCase read in front of
 the string for negative positions

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 6d94e5d..50c63a7 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -260,7 +260,7 @@ bool String::endsWith(const String& another) const
 
 bool String::atIs(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
@@ -272,7 +272,7 @@ bool String::atIs(int64 position, const String& another)
 
 bool String::atIsIgnoreCase(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
-- 
2.43.0


From 45e4df2eeb748f56c08caa82956d554cea20ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 014/113] fix: replacing an empty string never ended

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 50c63a7..6c32bf5 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -449,7 +449,7 @@ String String::replace(const String& oldStr, const String& newStr)const
 {
    int64 pos1 = 0;
    int64 pos2 = indexOf(oldStr);
-   if(pos2 < 0)return *this;
+   if(pos2 < 0 || oldStr.isEmpty())return *this;
 
    String output;
 
-- 
2.43.0


From a319ec4a376a426e9a095ca1c895a81131ee65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 015/113] fix: String::valueOf of the smallest 64 bit integer

---
 src/core/String.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 6c32bf5..4a2dc1e 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -976,11 +976,12 @@ String String::valueOf(int64 number)
 {
    String ret;
    bool neg = false;
+   uint64 rest = static_cast<uint64>(number);
 
    // Check sign
    if(number < 0)
    {
-      number *= -1;
+      rest = 0 - rest;
       neg = true;
    }
    // Check 0
@@ -990,10 +991,10 @@ String String::valueOf(int64 number)
    }
 
    // Solve the individual digits... Attention: the last digit comes first
-   while(number > 0)
+   while(rest > 0)
    {
-      int64 digit = number % 10;
-      number = number / 10;
+      int64 digit = rest % 10;
+      rest = rest / 10;
       ret.append(Char(digit + '0'));
    }
    if(neg)ret.append('-');
-- 
2.43.0


From 8ddd6356698ecad7b895ce712690199e8ab3e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 016/113] fix: String::arg without a place marker must not
 insert the value

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 4a2dc1e..5e18310 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -815,7 +815,7 @@ bool String::argIndicies(int64& first, int64& second) const
       }
    }
 
-   return true;
+   return first >= 0;
 }
 
 String String::arg(Char character,
-- 
2.43.0


From 567af51e269a8a3d6b7559442103dbca1d372a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 017/113] fix: String::arg showed large unsigned values as
 negative

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 5e18310..523b69b 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -899,7 +899,7 @@ String String::arg(uint64 value,
                    int64 fieldWidth,
                    Char fillchar) const
 {
-   return arg(static_cast<int64>(value), fieldWidth, fillchar);
+   return arg(String::valueOf(value), fieldWidth, fillchar);
 }
 
 String String::arg(const String& value,
-- 
2.43.0


From 8cf09cdcefce9d5806fb5dbed36624509357e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 018/113] fix: Integer::digits of the smallest 64 bit integer

---
 src/core/Integer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 99e21ab..41eeb64 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -40,15 +40,16 @@ const jm::String gRoman[] = {"I", "IV", "V", "IX", "X", "XL", "L", "XC", "C", "C
 uint8 Integer::digits(int64 number)
 {
    uint8 i = 1;
+   uint64 rest = static_cast<uint64>(number);
    if(number < 0)
    {
-      number *= -1;
+      rest = 0 - rest;
       i++;
    }
 
-   while(number > 9)
+   while(rest > 9)
    {
-      number = number / 10;
+      rest = rest / 10;
       i++;
    }
    return i;
-- 
2.43.0


From 114da9b15afcce26a8bdece62302eb334c58da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 019/113] fix: hexadecimal string of negative numbers was empty

---
 src/core/Integer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 41eeb64..9f0a3c9 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -107,13 +107,14 @@ jm::String Integer::toHexString(int64 number)
       return ret;
    }
 
-   int32 base = 16;
+   uint64 base = 16;
+   uint64 rest = static_cast<uint64>(number);
 
    //Löse die einzelnen Zahlen auf... Achtung: die letzte Ziffer kommt zuerst
-   while(number > 0)
+   while(rest > 0)
    {
-      int64 digit = number % base;
-      number = number / base;
+      uint64 digit = rest % base;
+      rest = rest / base;
       ret.append(gMask[digit]);
    }
 
-- 
2.43.0


From b2df808085897083e4d94b525f49337734751fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 020/113] fix: latin alphabet string of multiples of 26

---
 src/core/Integer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 9f0a3c9..071f787 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -151,8 +151,8 @@ jm::String Integer::toLatinAlphabetString(int64 number)
 
    while(number > 0)
    {
-      int32 div = static_cast<int32>(number / 26);
-      int16 rest = (int16)(number % 26 - 1);
+      int64 div = (number - 1) / 26;
+      int16 rest = (int16)((number - 1) % 26);
 
       output.append('A' + rest);
 
-- 
2.43.0


From b454c9dc2b7629a6dda6278661160bed3180adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 021/113] fix: String::toInt accepted a minus sign behind
 digits

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 523b69b..8bdf12b 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1130,7 +1130,7 @@ int64 String::toInt() const
          val *= 10;
          val += c.digitValue();
       }
-      else if(c == '-')neg = true;
+      else if(c == '-' && a == 0)neg = true;
       else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
    }
 
-- 
2.43.0


From 127c77bf5086963bb68d6adab6fa8ea01d3f533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 022/113] fix: Windows-1252 circumflex is U+02C6, U+0000 is
 encoded as zero

---
 src/core/Windows1252Decoder.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index b3014b5..8e6b90e 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -46,7 +46,7 @@ Windows1252Decoder::Windows1252Decoder(): CharsetDecoder()
       0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005A, 0x005B, 0x005C, 0x005D, 0x005E, 0x005F,
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
-      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
+      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
       0x0000, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x0000, 0x017E, 0x0178, //
       0x00A0, 0x00A1, 0x00A2, 0x00A3, 0x00A4, 0x00A5, 0x00A6, 0x00A7, 0x00A8, 0x00A9, 0x00AA, 0x00AB, 0x00AC, 0x00AD, 0x00AE, 0x00AF,
       0x00B0, 0x00B1, 0x00B2, 0x00B3, 0x00B4, 0x00B5, 0x00B6, 0x00B7, 0x00B8, 0x00B9, 0x00BA, 0x00BB, 0x00BC, 0x00BD, 0x00BE, 0x00BF,
@@ -116,7 +116,7 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x87;
             break;
 
-         case 0x20C6:
+         case 0x02C6:
             cstring[a] = (uint8)0x88;
             break;
 
@@ -136,10 +136,6 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x8C;
             break;
 
-         case 0x0000:
-            cstring[a] = (uint8)0x8D;
-            break;
-
          case 0x017D:
             cstring[a] = (uint8)0x8E;
             break;
-- 
2.43.0


From 958d1fcc47f95fda4bd162e87b94c37e3f5d94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 023/113] fix: MacRoman infinity is U+221E

---
 src/core/MacRomanDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 058cfd2..3e85497 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -49,7 +49,7 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
       0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
-      0x211E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
+      0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
       0x2013, 0x2014, 0x201C, 0x201D, 0x2018, 0x2019, 0x00F7, 0x25CA, 0x00FF, 0x0178, 0x2044, 0x20AC, 0x2039, 0x203A, 0xFB01, 0xFB02, //
       0x2021, 0x00B7, 0x201A, 0x201E, 0x2030, 0x00C2, 0x00CA, 0x00C1, 0x00CB, 0x00C8, 0x00CD, 0x00CE, 0x00CF, 0x00CC, 0x00D3, 0x00D4, //
-- 
2.43.0


From 2d4bb3398e0e0d326dce097491028e84f7ca07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 024/113] fix: raw decoding sign-extended bytes from 0x80

---
 src/core/CharsetDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharsetDecoder.cpp b/src/core/CharsetDecoder.cpp
index 051df0f..48fc87c 100644
--- a/src/core/CharsetDecoder.cpp
+++ b/src/core/CharsetDecoder.cpp
@@ -58,7 +58,7 @@ CharArray RawDecoder::decode(const char* cstring)
 
    for(uint32 a = 0; a < length; a++)
    {
-      array.buffer[a] = Char(cstring[a]);
+      array.buffer[a] = Char((uint8)cstring[a]);
    }
 
    return array;
-- 
2.43.0


From e408bafaed09aba92fdff6b579c6d2e8087d321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 025/113] fix: UTF-8 decoding read behind the end of incomplete
 sequences and lost step at FF FE

---
 src/core/UTF8Decoder.cpp | 59 +++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a659076..7e7ac1c 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -33,6 +33,26 @@
 
 using namespace jm;
 
+/*!
+ \brief Returns the number of bytes of the sequence at the begin of the string. An invalid first byte and a sequence
+ which is cut by the end of the string count as single byte.
+ */
+static uint32 sequenceLength(const char* cstring)
+{
+   uint8 c = cstring[0];
+   uint32 length = 1;
+
+   if((c & 0xE0) == 0xC0)length = 2;
+   else if((c & 0xF0) == 0xE0)length = 3;
+   else if((c & 0xF8) == 0xF0)length = 4;
+
+   for(uint32 a = 1; a < length; a++)
+   {
+      if(cstring[a] == 0)return 1;
+   }
+   return length;
+}
+
 UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 {
 
@@ -68,34 +88,16 @@ CharArray UTF8Decoder::decode(const char* cstring)
 
    while(cstring[cntC] != 0)
    {
-      uint8 c = cstring[cntC];
-
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         strLength++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      // Control character, will be ignored.
+      if((uint8)cstring[cntC] == 0xFF && (uint8)cstring[cntC + 1] == 0xFE)
       {
-         strLength++;
          cntC += 2;
+         continue;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
-      {
-         strLength++;
-         cntC += 3;
-      }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
-      {
-         strLength++;
-         cntC += 4;
-      }
-      else
-      {
-         // In fact an encoding error, but we then take the byte as a single character
-         strLength++;
-         cntC++;
-      }
+
+      // In fact an invalid byte is an encoding error, but we then take the byte as a single character
+      strLength++;
+      cntC += sequenceLength(&cstring[cntC]);
    }
    cntC = start;
 
@@ -104,6 +106,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
+      uint32 length = sequenceLength(&cstring[cntC]);
 
       if((c & 0x80) == 0)     //1 Zeichen
       {
@@ -111,7 +114,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC++;
       }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      else if(length == 2)     //2 Zeichen
       {
          c = (c & 0x001F) << 6;
          d = cstring[cntC + 1] & 0x3F;
@@ -119,7 +122,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 2;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if(length == 3)     //3 Zeichen
       {
          c = (c & 0x000F) << 12;
          d = (cstring[cntC + 1] & 0x3F) << 6;
@@ -128,7 +131,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 3;
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if(length == 4)     //4 Zeichen
       {
          c = (c & 0x0007) << 18;
          d = (cstring[cntC + 1] & 0x3F) << 12;
-- 
2.43.0


From 92b0c44b859a04a0114331e5253e99d7766fee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 026/113] fix: UTF-16 encoding ignored the byte order

---
 src/core/UTF16Decoder.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index d13e37b..f87c186 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -97,10 +97,8 @@ ByteArray UTF16Decoder::encode(const CharArray& string)
    for(uint32 a = 0; a < string.length; a++)
    {
       uint16 character = string.buffer[a].unicode();
-      cstring[idx] = (int8)(character >> 8);
-      idx++;
-      cstring[idx] = (int8)character;
-      idx++;
+      cstring[idx++] = (uint8)(be ? character >> 8 : character);
+      cstring[idx++] = (uint8)(be ? character : character >> 8);
    }
    return cstring;
 }
-- 
2.43.0


From 8944a853a2e438f12c8b78951f9390c04180653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 027/113] fix: UTF-16 decoding stopped at characters with a
 zero byte

---
 src/core/String.cpp       | 9 ++++-----
 src/core/UTF16Decoder.cpp | 5 +++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 8bdf12b..deadca6 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -77,10 +77,11 @@ String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 2];
+   char* cstring = new char[size + 3];
    memcpy(cstring, buffer, size);
    cstring[size] = 0;
    cstring[size + 1] = 0; //For UTF16 required
+   cstring[size + 2] = 0; //For UTF16 with an incomplete last character
    CharArray array = charset->decode(cstring);
    copy(array);
    delete[] cstring;
@@ -131,11 +132,9 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
    copy(array);
 }
 
-String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
-   mHash(0)
+String::String(const ByteArray& buffer, Charset* charset) :
+   String(buffer.constData(), buffer.size(), charset)
 {
-   CharArray array = charset->decode(buffer.constData());
-   copy(array);
 }
 
 String::~String()
diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index f87c186..2686c01 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -43,7 +43,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    //Bestimme Länge
    uint32 strLength = 0;
    uint32 cntV = 0;
-   uint32 cntC = be ? 1 : 0;
+   uint32 cntC = 0;
    uint32 start = 0;
 
    //Prüfe auf Steuerzeichen am Anfang des cstring. Wenn vorhanden ignoriere
@@ -67,7 +67,8 @@ CharArray UTF16Decoder::decode(const char* cstring)
    }
 
 
-   while(cstring[cntC] != 0)
+   // The string ends with a zero character, not with a zero byte.
+   while(cstring[cntC] != 0 || cstring[cntC + 1] != 0)
    {
       cntC += 2;
       strLength++;
-- 
2.43.0


From 960de2d4cdd399d6b1ca5fa51c2eab6476afedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 028/113] fix: MacRoman 92 and 93 were exchanged when decoding

---
 src/core/MacRomanDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 3e85497..4a2e256 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -47,7 +47,7 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
-      0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
+      0x00EA, 0x00EB, 0x00ED, 0x00EC, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
       0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
-- 
2.43.0


From 9a3fcceb601854100a4f9f5d1bf61d2028a6419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 029/113] fix: MacRoman encoding of U+007F

---
 src/core/MacRomanDecoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 4a2e256..71642a2 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -327,7 +327,8 @@ uint8 MacRomanDecoder::encodeCharacter(uint16 unicode)
          return 0x7D;
       case '~':
          return 0x7E;
-      //0x7f is DEL (invisible)
+      case 0x7F:
+         return 0x7F; //DEL (invisible)
       case 0x00C4:
          return 0x80; //Adieresis (Ä)
       case 0x00C5:
-- 
2.43.0


From a2a2465a9f3288964887a5b60e5efaabec9aabfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 030/113] fix: Hashtable::containsKey was false for keys with a
 null value

---
 src/core/Hashtable.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index a1b7c86..2d414d2 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -106,7 +106,15 @@ void* Hashtable::get(const String& key) const noexcept
 
 bool Hashtable::containsKey(const String& key) const noexcept
 {
-   return get(key) != nullptr;
+   int64 hash = key.constHashCode();
+
+   int64 index = (hash & 0x7FFFFFFF) % mArrLength;
+   for(HashtableEntry* e = mData[index] ; e != nullptr ; e = e->next)
+   {
+      if((e->hash == hash) && e->key.equals(key))return true;
+   }
+
+   return false;
 }
 
 void* Hashtable::remove(const String& key) noexcept
-- 
2.43.0


From 384664209bf7de9716c8ce59156f0da4b986d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 031/113] fix: Hashtable::isEmpty and containsValue were
 declared but not defined

---
 src/core/Hashtable.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index 2d414d2..af5d265 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -173,6 +173,24 @@ int64 Hashtable::size() const noexcept
    return mDataLength;
 }
 
+bool Hashtable::isEmpty() const noexcept
+{
+   return mDataLength == 0;
+}
+
+bool Hashtable::containsValue(void* value) const noexcept
+{
+   for(int64 index = 0; index < mArrLength; index++)
+   {
+      for(HashtableEntry* e = mData[index]; e != nullptr; e = e->next)
+      {
+         if(e->value == value)return true;
+      }
+   }
+
+   return false;
+}
+
 void Hashtable::rehash() noexcept
 {
    int64 oldLength = mArrLength;
-- 
2.43.0


From 660602d9b78ef194b965be096cfe65214b21240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 032/113] fix: ByteArray::resize released the array with delete
 and showed old bytes

---
 src/core/ByteArray.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 93f8c0a..4f59341 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -215,8 +215,14 @@ void ByteArray::replace(uint8 oldValue, uint8 newValue)
 
 void ByteArray::resize(int64 newSize)
 {
+   if(newSize < 0)newSize = 0;
+
    if(newSize <= mRawSize - 1)
    {
+      for(int64 index = mArrSize; index < newSize; index++)
+      {
+         mData[index] = 0;
+      }
       mArrSize = newSize;
       mData[mArrSize] = 0;
    }
@@ -231,9 +237,10 @@ void ByteArray::resize(int64 newSize)
       {
          tmp[index] = 0;
       }
+      tmp[newSize] = 0;
       mRawSize = newSize + 1;
       mArrSize = newSize;
-      if(mData != nullptr)delete mData;
+      if(mData != nullptr)delete[] mData;
       mData = tmp;
    }
 }
-- 
2.43.0


From 5d3ef5616cd2381b05dd361ce7d49fad94a3837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 033/113] fix: ByteArray::replace wrote at the wrong offset and
 beyond the source

---
 src/core/ByteArray.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 4f59341..2dc91b9 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -196,11 +196,24 @@ void ByteArray::set(int64 index, uint8 item)
 void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffer,
                         int64 length)
 {
+   if(tgtOffset < 0 || srcOffset < 0)return;
+
    int64 range = std::min(length, mArrSize - tgtOffset);
+   range = std::min(range, buffer.mArrSize - srcOffset);
 
-   for(int64 a = 0; a < range; a++)
+   if(this == &buffer && tgtOffset > srcOffset)
+   {
+      for(int64 a = range - 1; a >= 0; a--)
+      {
+         mData[tgtOffset + a] = buffer.mData[srcOffset + a];
+      }
+   }
+   else
    {
-      mData[a] = buffer.mData[srcOffset + a];
+      for(int64 a = 0; a < range; a++)
+      {
+         mData[tgtOffset + a] = buffer.mData[srcOffset + a];
+      }
    }
 }
 
-- 
2.43.0


From 126a37851037d616afe7d276ec19b6f522c62c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 034/113] fix: a copy of a null ByteArray was not terminated

---
 src/core/ByteArray.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 2dc91b9..b7f1483 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -89,13 +89,7 @@ ByteArray::ByteArray(int64 length, uint8 ch) : Object()
 
 ByteArray::ByteArray(const ByteArray& other) : Object()
 {
-   mArrSize = other.mArrSize;
-   mRawSize = other.mRawSize;
-   mData = new uint8[mRawSize];
-   for(int64 index = 0; index < mRawSize; index++)
-   {
-      mData[index] = other.mData[index];
-   }
+   init(reinterpret_cast<const int8*>(other.mData), other.mArrSize);
 }
 
 ByteArray::ByteArray(std::initializer_list<uint8> list) : Object()
@@ -278,13 +272,7 @@ ByteArray& jm::ByteArray::operator=(const ByteArray& another)
    {
       delete[] mData;
 
-      mArrSize = another.mArrSize;
-      mRawSize = another.mRawSize;
-      mData = new uint8[mRawSize];
-      for(int64 a = 0; a < mRawSize; a++)
-      {
-         mData[a] = another.mData[a];
-      }
+      init(reinterpret_cast<const int8*>(another.mData), another.mArrSize);
    }
 
    return *this;
-- 
2.43.0


From ec08c3a63dd40c235736d1815fd6afcc0b7086cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 035/113] fix: appending or removing an element of the
 StringList itself

---
 src/core/StringList.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 1ae6fee..3de3abf 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -82,15 +82,19 @@ void StringList::reserve(int64 size)
 
 void StringList::append(const jm::String& string)
 {
+   // The string may be an element of this list.
+   String tmp = string;
    checkSize(1);
-   mData[mSize++] = string;
+   mData[mSize++] = tmp;
 }
 
 void StringList::remove(const jm::String& string)
 {
+   // The string may be an element of this list.
+   String tmp = string;
    for(int64 index = 0; index < mSize; index++)
    {
-      if(mData[index] == string)
+      if(mData[index] == tmp)
       {
          for(int64 index2 = index + 1; index2 < mSize; index2++)
          {
-- 
2.43.0


From 353da53a79736acef9e2464f7a16575728af7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 036/113] fix: Base64::decode produced bytes of incomplete
 groups and read behind the text

---
 src/core/Base64.cpp | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 08eccd9..c231bb2 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -129,42 +129,25 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
-   bool brk = false;
-
    for(int32 i = 0; i < len; i = i + 4)
    {
+      // Missing characters of the last group count as fill characters.
       c1 = gBase64rcvt[data[i]];
-      c2 = gBase64rcvt[data[i + 1]];
-      c3 = gBase64rcvt[data[i + 2]];
-      c4 = gBase64rcvt[data[i + 3]];
+      c2 = (i + 1 < len) ? gBase64rcvt[data[i + 1]] : 65;
+      c3 = (i + 2 < len) ? gBase64rcvt[data[i + 2]] : 65;
+      c4 = (i + 3 < len) ? gBase64rcvt[data[i + 3]] : 65;
 
-      if(c2 >= 65)
-      {
-         c2 = 0;
-         brk = true;
-      }
+      if(c2 >= 65)break;
       b1 = ((c1 << 2) | ((c2 >> 4) & 0x3));
       ret[index++] = b1;
-      if(brk)break;
-
 
-      if(c3 >= 65)
-      {
-         c3 = 0;
-         brk = true;
-      }
+      if(c3 >= 65)break;
       b2 = ((c2 << 4) & 0xf0) | ((c3 >> 2) & 0xf);
       ret[index++] = b2;
-      if(brk)break;
 
-      if(c4 >= 65)
-      {
-         c4 = 0;
-         brk = true;
-      }
+      if(c4 >= 65)break;
       b3 = ((c3 << 6) & 0xc0) | c4;
       ret[index++] = b3;
-      if(brk)break;
 
    }
    length = index;
-- 
2.43.0


From 75e1f1b30b6f182567ff69f27ea3b3ae6d16fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 037/113] fix: the indentation of an XMLWriter was not
 initialised before startDocument

---
 src/core/XMLWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index 2520426..fc58699 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -36,6 +36,8 @@ using namespace jm;
 XMLWriter::XMLWriter(jm::Stream* output)
 {
    mOutput = output;
+   mIndent = 0;
+   mLastIndent = false;
 
    mOpenElements = new Stack<ElementInfo>();
 }
-- 
2.43.0


From fe7a44fe64b2779b13f964e6c32340a75649592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 038/113] fix: SAXParser dropped the reference &apos; that
 XMLWriter writes

---
 src/core/SAXParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 3e8bcaa..36c9615 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -152,6 +152,7 @@ void SAXParser::parse(const String& xml)
          else if(escape.equals("gt;"))token.append('>');
          else if(escape.equals("amp;"))token.append('&');
          else if(escape.equals("quot;"))token.append('"');
+         else if(escape.equals("apos;"))token.append('\'');
          else if(escape.equals("le;"))token.append(0x2264); //≤
          else if(escape.equals("ge;"))token.append(0x2265); //≥
          else if(escape.equals("leq;"))token.append(0x2264); //≤
@@ -267,6 +268,7 @@ void SAXParser::parseTagString(const String& xmlline)
          else if(escape.equals("gt;"))token.append('>');
          else if(escape.equals("amp;"))token.append('&');
          else if(escape.equals("quot;"))token.append('"');
+         else if(escape.equals("apos;"))token.append('\'');
       }
       else if((c.isWhitespace() || c == '=' || c == '/') && !inValue)
       {
-- 
2.43.0


From fb41527a4dcb3d9757782b4c5728c142896469a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 039/113] fix: WriteBase64 after a child element did not count
 as characters

---
 src/core/XMLWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index fc58699..0b0ed7f 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -188,10 +188,9 @@ void XMLWriter::WriteBase64(uint8* data, int64 length)
    if(mOpenElements->size() > 0 && mOpenElements->top().hasContent == false)
    {
       mOpenElements->topRef()->hasContent = true;
-      mOpenElements->topRef()->hasCharacters = true;
       mOutput->write(">");
    }
-
+   if(mOpenElements->size() > 0)mOpenElements->topRef()->hasCharacters = true;
 
    uint8* encoded = jm::Base64::encode(data, length);
    mOutput->write(encoded, length);
-- 
2.43.0


From 00c3675c00b4e0c28953e76e170510f0414c488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 040/113] fix: the copy constructor of SAXAttributes used
 uninitialised members

---
 src/core/SAXAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/SAXAttributes.cpp b/src/core/SAXAttributes.cpp
index 6ec6b44..60490d7 100644
--- a/src/core/SAXAttributes.cpp
+++ b/src/core/SAXAttributes.cpp
@@ -45,10 +45,10 @@ SAXAttributes::~SAXAttributes()
    delete mValues;
 }
 
-SAXAttributes::SAXAttributes(const SAXAttributes& other)
+SAXAttributes::SAXAttributes(const SAXAttributes& other): Object()
 {
-   mNames->clear();
-   mValues->clear();
+   mNames = new std::vector<String>();
+   mValues = new std::vector<String>();
 
    for(uint32 a = 0; a < other.mNames->size(); a++)
    {
-- 
2.43.0


From 4cc37efdf1c97ffed48d177bbcdb9e6be2c3a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 041/113] fix: the weekday of dates before 1970 was negative

---
 src/core/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index bcc3622..92776cb 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -233,7 +233,7 @@ int64 Date::dateFromTime(int64 t) const
 int64 Date::weekDay(int64 t) const
 {
    //01.01.1970 = Donnerstag (=4)
-   return (day(t) + 4) % 7;
+   return modFloor(day(t) + 4, 7);
 }
 
 int64 Date::localTimeZoneAdjustment() const
-- 
2.43.0


From f53f552061838f3044b9ba09f9905c9eccfbb161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 042/113] fix: a date placeholder directly before quoted text
 became part of the text

---
 src/core/DateFormatter.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 8b9173e..a657286 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -52,7 +52,18 @@ DateFormatter::DateFormatter(const String& pattern): Object()
       if(c == '\'')
       {
          inText = !inText;
-         if(inText)isText = true;
+         if(inText)
+         {
+            // The placeholder before the text is complete.
+            if(token.size() > 0)
+            {
+               Pattern* tpattern = new Pattern(token);
+               mLast->next = tpattern;
+               mLast = tpattern;
+               token.clear();
+            }
+            isText = true;
+         }
          else if(isText)
          {
             Pattern* tpattern = new Pattern(token, true);
-- 
2.43.0


From 4c92d02332aafd6afd46fb0775c1515dd89ff76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 043/113] fix: the documented date placeholder D was not
 recognised

---
 src/core/DateFormatter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index a657286..f3f3e53 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -168,6 +168,10 @@ DateFormatter::Pattern::Pattern(const String& value, bool isText)
             type = DateFormatter::PatternType::kMonthInYear;
             break;
 
+         case 'D':
+            type = DateFormatter::PatternType::kDayInYear;
+            break;
+
          case 'd':
             type = DateFormatter::PatternType::kDayInMonth;
             break;
-- 
2.43.0


From 9860a85182493eb383e458e56f69c4760929dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 044/113] fix: misspelt name of September

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index f3f3e53..60eb013 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -479,7 +479,7 @@ void DateFormatter::Pattern::appendPattern(String& value, const Date& date) cons
                   return;
 
                case Date::SEPTEMBER:
-                  value.append(Tr("Septemper"));
+                  value.append(Tr("September"));
                   return;
 
                case Date::OCTOBER:
-- 
2.43.0


From c1948465111f78c4a4eed7b406980890c66f3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 045/113] fix: MemoryStream::write() wrote behind the end of
 its buffer

---
 src/core/MemoryStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 16da9d3..12c650d 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -97,8 +97,11 @@ int64 MemoryStream::position()
 
 int64 MemoryStream::write(const uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   memcpy(&mStream[mPosition], buffer, length);
+   int64 available = mStreamlength - mPosition;
+   if(length < available)available = length;
+   if(available <= 0)return 0;
+
+   memcpy(&mStream[mPosition], buffer, available);
    mPosition += available;
    if(mPosition > mWritelength) mWritelength = mPosition;
    return available;
-- 
2.43.0


From 014112057bd519ecd2a925f92b535b09bc92c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 046/113] fix: MemoryStream::read() overflowed for very large
 lengths

---
 src/core/MemoryStream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 12c650d..43909a6 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -66,10 +66,11 @@ void MemoryStream::close()
 
 int64 MemoryStream::read(uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   if(available > 0)memcpy(buffer, &mStream[mPosition], available);
-   else return 0;
+   int64 available = mStreamlength - mPosition;
+   if(length < available)available = length;
+   if(available <= 0)return 0;
 
+   memcpy(buffer, &mStream[mPosition], available);
    mPosition += available;
    return available;
 }
-- 
2.43.0


From bc34d3165bd8b4bb9529e72fff5c6f65fc5fa1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 047/113] fix: MemoryStream accepted positions before the start
 of the buffer

---
 src/core/MemoryStream.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 43909a6..f804beb 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -82,13 +82,12 @@ int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 
 void MemoryStream::seek(int64 newPosition)
 {
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   if(newPosition >= 0 && newPosition < mStreamlength)mPosition = newPosition;
 }
 
 void MemoryStream::move(int64 offset)
 {
-   int64 newPosition = mPosition + offset;
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   if(offset < mStreamlength - mPosition)seek(mPosition + offset);
 }
 
 int64 MemoryStream::position()
-- 
2.43.0


From 30aa006119e96669e0724d52769bd5201c0a8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 048/113] fix: MemoryStream::readFully() wrote behind the end
 of the array

---
 src/core/MemoryStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index f804beb..1b974ac 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -77,6 +77,7 @@ int64 MemoryStream::read(uint8* buffer, int64 length)
 
 int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 {
+   if(length > buffer.size())length = buffer.size();
    return read((uint8*)buffer.data(), length);
 }
 
-- 
2.43.0


From e57134b7135887a6e9babc6a52c061cd4ea297ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 049/113] fix: File::readFully() wrote behind the end of the
 array

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ded478b..ea075c5 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -681,7 +681,7 @@ int64 File::read(uint8* buffer, int64 length)
 
 int64 File::readFully(ByteArray& buffer, int64 length)
 {
-   int64 rest = length;
+   int64 rest = (length < buffer.size()) ? length : buffer.size();
    int64 count = 0;
    int64 step;
    uint8* buf = reinterpret_cast<uint8*>(buffer.data());
-- 
2.43.0


From 38eabe62712e81e7d3de6217f31a07b53e549b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 050/113] fix: a copied MemoryStream released the buffer of the
 original

---
 include/core/MemoryStream.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/core/MemoryStream.h b/include/core/MemoryStream.h
index d9224e4..0cd9ecc 100644
--- a/include/core/MemoryStream.h
+++ b/include/core/MemoryStream.h
@@ -61,6 +61,11 @@ namespace jm
           */
          ~MemoryStream() override;
 
+         // The buffer may be owned, so a stream is not copied
+         MemoryStream(const MemoryStream& other) = delete;
+
+         MemoryStream& operator=(const MemoryStream& another) = delete;
+
          /*!
          \copdoc Stream::open()
          */
-- 
2.43.0


From 96466e63b7cea7b8ed27cefcd67fea466675a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 051/113] fix: Resource assignment never released the former
 stream

---
 src/core/Resource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Resource.cpp b/src/core/Resource.cpp
index e535b36..fff3f6c 100644
--- a/src/core/Resource.cpp
+++ b/src/core/Resource.cpp
@@ -61,8 +61,9 @@ Resource& Resource::operator=(const Resource& other)
 {
    if(this != &other)
    {
+      if(other.mStream != nullptr)other.mStream->retain();
+      if(mStream != nullptr)mStream->release();
       mStream = other.mStream;
-      if(mStream != nullptr)mStream->retain();
    }
 
    return *this;
-- 
2.43.0


From 2365f005918e20d57c65e3ab8ebf0999d86c7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 052/113] fix: a copy of an open file shared its handle, and an
 open file was never closed on destruction or assignment

---
 src/core/File.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ea075c5..304a60f 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -66,7 +66,7 @@ File::File(const File& parent, String child): Stream(), Comparable<File>()
 File::File(const File& other): Stream(), Comparable<File>()
 {
    mPathname = other.mPathname;
-   mHandle = other.mHandle;
+   mHandle = nullptr;
    if(mPathname.size() > 0)setCString();
    else mCstr = ByteArray();
 }
@@ -74,14 +74,15 @@ File::File(const File& other): Stream(), Comparable<File>()
 
 File::~File()
 {
+   if(mHandle != nullptr)fclose(mHandle);
 }
 
 File& File::operator=(const File& another)
 {
    if(this != &another)
    {
+      close();
       mPathname = another.mPathname;
-      mHandle = another.mHandle;
       if(mPathname.size() > 0)setCString();
       else mCstr = ByteArray();
    }
-- 
2.43.0


From 1c8bf7c42401be218adff035a2630b73f1d99c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 053/113] fix: opening an open file again lost its handle

---
 src/core/File.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 304a60f..42cc8d9 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -596,6 +596,8 @@ bool File::createNewFile()
 
 Status File::open(FileMode mode)
 {
+   close();
+
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    switch(mode)
    {
-- 
2.43.0


From 12247bdcb15f4fe25771a5f4b4218ab4904ccdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 054/113] fix: logging could change the error code that decides
 the status of File::open()

---
 src/core/File.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 42cc8d9..2b311d8 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -632,13 +632,14 @@ Status File::open(FileMode mode)
 
    if(mHandle == nullptr)
    {
-      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(errno));
+      int error = errno;
+      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(error));
       jm::System::log(msg, jm::LogLevel::kError);
 
-      if(errno == EACCES)return Status::eNotAllowed;
-      if(errno == ENOENT)return  Status::eNotFound;
-      if(errno == ETIMEDOUT)return Status::eTimeout;
-      if(errno == ENOTDIR)return Status::eNoDirectory;
+      if(error == EACCES)return Status::eNotAllowed;
+      if(error == ENOENT)return  Status::eNotFound;
+      if(error == ETIMEDOUT)return Status::eTimeout;
+      if(error == ENOTDIR)return Status::eNoDirectory;
       throw Exception(msg);
    }
    return Status::eOK;
-- 
2.43.0


From aa5795814abf48189942a18f4ddc739df10ed27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 055/113] fix: a file whose closing failed was closed again

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 2b311d8..b7041ec 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -654,8 +654,8 @@ void File::close()
 {
    if(mHandle == nullptr)return;
    int32 eof = fclose(mHandle);
-   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
    mHandle = nullptr;
+   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
 }
 
 void File::seek(int64 position)
-- 
2.43.0


From bbf743f34b5c886fb4a0410dcd9be0a214b2d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 056/113] fix: the kind of a file that cannot be examined was
 taken from uninitialised memory

---
 src/core/File.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index b7041ec..77930ca 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -250,7 +250,7 @@ bool File::isDirectory() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISDIR(st.st_mode);
    return ret;
 
@@ -272,7 +272,7 @@ bool File::isFile() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISREG(st.st_mode);
    return ret;
 
@@ -312,7 +312,7 @@ bool File::isLink() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISLNK(st.st_mode);
    return ret;
 
@@ -336,7 +336,7 @@ bool File::isPipe() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISFIFO(st.st_mode);
    return ret;
 
-- 
2.43.0


From 1c35b86b2a62e9811a33ee5552c013c2a0268083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 057/113] fix: the modification time of a file counted
 microseconds as milliseconds and was random for missing files

---
 src/core/File.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 77930ca..0de8644 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -358,24 +358,26 @@ Date File::lastModified() const
    #if defined(__APPLE__) //macOS
 
    struct stat st;
+   memset(&st, 0, sizeof(st));
    lstat(mCstr.constData(), &st);
 
    //Umrechnen
    timespec tm = st.st_mtimespec;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
    #elif defined(__linux__) //Linux
 
    struct stat st;
+   memset(&st, 0, sizeof(st));
    lstat(mCstr.constData(), &st);
 
    //Umrechnen
    timespec tm = st.st_mtim;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
-- 
2.43.0


From 2d8cc0038dafa1bbc11240dfad1856b3935e413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 058/113] fix: listing a directory failed and leaked when
 entries were added meanwhile

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 0de8644..8d7dfa1 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -479,7 +479,7 @@ Array<File>* File::listFiles()const
    Array<File>* list = new Array<File>(fileCount);
    uint32 cnt = 0;
 
-   while((dirp = readdir(dp)) != nullptr)
+   while(cnt < fileCount && (dirp = readdir(dp)) != nullptr)
    {
       String filename = String(dirp->d_name);
       list->set(cnt++, File(*this, filename));
-- 
2.43.0


From ab456c99a1bb7dfd91521939ef372cef58c303c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 059/113] fix: File::createNewFile() emptied existing files

---
 src/core/File.cpp          | 7 ++++---
 src/core/ZipOutputFile.cpp | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 8d7dfa1..8b22068 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -585,10 +585,11 @@ bool File::isAbsolute() const
 bool File::createNewFile()
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
-   mHandle = fopen(mCstr.constData(), "wb");
-   bool exist = (mHandle != nullptr);
    close();
-   return exist;
+   mHandle = fopen(mCstr.constData(), "wbx");
+   bool created = (mHandle != nullptr);
+   close();
+   return created;
    #elif defined _WIN32 //Windows
    int64 ret = fopen_s(&mHandle, mCstr.constData(), "wb");
    close();
diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ca47756..2e17724 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -220,6 +220,7 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
    mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
+   mTemp->remove();
    mTemp->createNewFile();
    mTemp->open(FileMode::kReadWrite);
 
-- 
2.43.0


From dbb8bbb523d992fb179c09f1f02af982a0abfbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 060/113] fix: files without an extension returned their path
 as extension

---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 8b22068..e867a2f 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -573,7 +573,10 @@ String File::name() const
 
 String File::extension() const
 {
-   return mPathname.substring(mPathname.lastIndexOf('.') + 1);
+   String filename = name();
+   int64 idx = filename.lastIndexOf('.');
+   if(idx < 0)return kEmptyString;
+   return filename.substring(idx + 1);
 }
 
 bool File::isAbsolute() const
-- 
2.43.0


From f0b1ed24bb81764e1a68a3a708158947fe8563c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 061/113] fix: the parent of a file in the root directory was
 empty

---
 src/core/File.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index e867a2f..eb0f815 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -563,6 +563,7 @@ String File::parent() const
 {
    int64 idx = mPathname.lastIndexOf(DIR_SEP);
    if(idx < 0)idx = 0;
+   else if(idx == 0 && mPathname.size() > 1)idx = 1;
    return mPathname.substring(0, idx);
 }
 
-- 
2.43.0


From dce10240f250842b2fbe67c7275fad5c9e330882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 062/113] fix: File::isHidden() failed for files without a name

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index eb0f815..b12ad18 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -294,7 +294,7 @@ bool File::isHidden() const
 
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
-   return name().charAt(0) == '.';
+   return name().startsWith(".");
 
    #elif defined _WIN32//Windows
 
-- 
2.43.0


From fc2d3f64783c164b4f135f44f8c30b6dd1bd3a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 063/113] fix: renamed files and children named by separators
 had paths that are not normalized

---
 src/core/File.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index b12ad18..6b7db17 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -50,7 +50,7 @@ File::File(const String& pathname): Stream(), Comparable<File>()
 File::File(String parent, String child): Stream(), Comparable<File>()
 {
    if(child.size() < 1)throw Exception(Tr("Child is empty."));
-   mPathname = resolve(normalize(parent), normalize(child));
+   mPathname = normalize(resolve(normalize(parent), normalize(child)));
    setCString();
    mHandle = nullptr;
 }
@@ -58,7 +58,7 @@ File::File(String parent, String child): Stream(), Comparable<File>()
 File::File(const File& parent, String child): Stream(), Comparable<File>()
 {
    if(child.size() < 1)throw Exception(Tr("Child is empty."));
-   mPathname = resolve(parent.absolutePath(), normalize(child));
+   mPathname = normalize(resolve(parent.absolutePath(), normalize(child)));
    setCString();
    mHandle = nullptr;
 }
@@ -438,8 +438,8 @@ bool File::renameTo(const String& newPath)
 
    if(result == 0)
    {
-      mCstr = newname;
-      mPathname = String(mCstr);
+      mPathname = normalize(newPath);
+      setCString();
 
       return true;
    }
-- 
2.43.0


From 8e4940641341ba6521e6cc91d5ca5a09195e54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 064/113] fix: changing a tag of a file with very many tags
 lost the others

---
 src/core/File.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 6b7db17..110c766 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -779,14 +779,16 @@ StringList File::getTags()const
 
    #ifdef __linux__
 
-   const int sz = 4096;
-   char buffer[sz];
-   int result = getxattr(mCstr.constData(), "user.xdg.tags", buffer, sz);
+   ssize_t sz = getxattr(mCstr.constData(), "user.xdg.tags", nullptr, 0);
+   if(sz <= 0)return StringList();
+
+   ByteArray tagList = ByteArray(sz, 0);
+   ssize_t result = getxattr(mCstr.constData(), "user.xdg.tags", tagList.data(), sz);
 
    if(result > 0)
    {
       // Data is stored usually as comma(,) separated list.
-      ByteArray tagList = ByteArray((int8*)buffer, result);
+      tagList.resize(result);
       String string(tagList);
       return string.split(',');
    }
-- 
2.43.0


From 44120f60ded079aef5ecdeae0e4c6af44fe8051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 065/113] fix: relative paths were reported as absolute

---
 src/core/File.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 110c766..e7a14f8 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -582,7 +582,11 @@ String File::extension() const
 
 bool File::isAbsolute() const
 {
+   #if defined _WIN32//Windows
    return true;
+   #else
+   return mPathname.size() > 0 && mPathname.charAt(0) == DIR_SEP;
+   #endif
 }
 
 
-- 
2.43.0


From b0d2cbd49b1328786c0cf6c6060159310650474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 066/113] fix: a copied or assigned object took over the
 reference count of the original

---
 include/core/Object.h | 10 ++++++++++
 src/core/Object.cpp   | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/core/Object.h b/include/core/Object.h
index cea0532..d541158 100644
--- a/include/core/Object.h
+++ b/include/core/Object.h
@@ -54,6 +54,16 @@ namespace jm
           */
          Object() noexcept;
 
+         /*!
+          \brief Copy constructor. The copy is a new object with a reference count of its own.
+          */
+         Object(const Object& other) noexcept;
+
+         /*!
+          \brief Assignment. The reference count belongs to the object and does not change.
+          */
+         Object& operator=(const Object& other) noexcept;
+
          /*!
           \brief Destructor.
           */
diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ea2b55a..3b615c9 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -41,6 +41,17 @@ Object::Object() noexcept:
    //mRefCount=2;
 }
 
+Object::Object(const Object&) noexcept:
+   mRefCount(1),
+   mPool(System::autoreleasePool())
+{
+}
+
+Object& Object::operator=(const Object&) noexcept
+{
+   return *this;
+}
+
 Object::~Object() noexcept
 {
    mPool = nullptr;
-- 
2.43.0


From fd87dec96eeff8b843988fee6b0b786675bfae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 067/113] fix: retaining an object that was created without an
 autorelease pool crashed

---
 src/core/Object.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index 3b615c9..6369885 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -81,6 +81,8 @@ void Object::release() noexcept
 
 Object* Object::retain() noexcept
 {
+   if(mPool == nullptr)return this;
+
    Mutex* mutex = mPool->mutex();
    mutex->lock();
    mRefCount++;
@@ -90,7 +92,7 @@ Object* Object::retain() noexcept
 
 Object* Object::autorelease() noexcept
 {
-   mPool->add(this);
+   if(mPool != nullptr)mPool->add(this);
    return this;
 }
 
-- 
2.43.0


From 61b9120c4e50af3ccbe60a078a7b3a4aea950f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 068/113] fix: Object::setHighBit() could undo a concurrent
 change of the reference count

---
 src/core/Object.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index 6369885..7a9d5bc 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -118,7 +118,11 @@ void Object::printDiffInfo(DiffOperation, Object*) const
 
 void Object::setHighBit(bool status) noexcept
 {
+   Mutex* mutex = (mPool != nullptr) ? mPool->mutex() : nullptr;
+
+   if(mutex != nullptr)mutex->lock();
    mRefCount = referenceCount() | (status ? 0x80000000 : 0x00000000);
+   if(mutex != nullptr)mutex->unlock();
 }
 
 bool Object::highBit()const noexcept
-- 
2.43.0


From ae08dbdaa96857086d0d6003aea520d08a19de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 069/113] fix: objects that use the autorelease pool while they
 are released by it blocked forever

---
 src/core/AutoreleasePool.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/AutoreleasePool.cpp b/src/core/AutoreleasePool.cpp
index cdf32a9..23564da 100644
--- a/src/core/AutoreleasePool.cpp
+++ b/src/core/AutoreleasePool.cpp
@@ -47,7 +47,7 @@ AutoreleasePool::AutoreleasePool(): Object()
 AutoreleasePool::~AutoreleasePool()
 {
    // Cleanup autorelease
-   drain();
+   while(mPool->next != nullptr)drain();
 
    // Delete dummy
    delete mPool;
@@ -55,8 +55,12 @@ AutoreleasePool::~AutoreleasePool()
 
 void AutoreleasePool::drain()
 {
+   // Take all entries first: releasing objects may add new ones
    mPoolMutex.lock();
    PoolEntry* pool = mPool->next;
+   mPool->next = nullptr;
+   mTop = mPool;
+   mPoolMutex.unlock();
 
    while(pool != nullptr)
    {
@@ -67,10 +71,6 @@ void AutoreleasePool::drain()
       delete pool;
       pool = next;
    }
-
-   mTop = mPool;
-   mPool->next = nullptr;
-   mPoolMutex.unlock();
 }
 
 void AutoreleasePool::add(Object* object)
-- 
2.43.0


From 2d733208f506c5f0631485e0c474471a3ed97cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 070/113] fix: the mutex of the autorelease pool stayed locked
 when memory ran out

---
 src/core/AutoreleasePool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/AutoreleasePool.cpp b/src/core/AutoreleasePool.cpp
index 23564da..4237e87 100644
--- a/src/core/AutoreleasePool.cpp
+++ b/src/core/AutoreleasePool.cpp
@@ -75,10 +75,11 @@ void AutoreleasePool::drain()
 
 void AutoreleasePool::add(Object* object)
 {
-   mPoolMutex.lock();
    PoolEntry* entry = new PoolEntry();
    entry->object = object;
    entry->next = nullptr;
+
+   mPoolMutex.lock();
    mTop->next = entry;
    mTop = entry;
    mPoolMutex.unlock();
-- 
2.43.0


From 7091c67b7f182ab71c7797c2c16679fdff8c8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 071/113] fix: an exception while logging blocked all further
 logging

---
 src/core/System.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index 802ca29..7cad0bd 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -34,6 +34,20 @@
 jm::Mutex gSystemMutex;
 jm::String gSystemError;
 
+//! Keeps the system mutex locked as long as it exists, also if an exception is thrown.
+struct SystemLock
+{
+   SystemLock()
+   {
+      gSystemMutex.lock();
+   }
+
+   ~SystemLock()
+   {
+      gSystemMutex.unlock();
+   }
+};
+
 bool gSystemLogDate = true;
 jm::LogLevel mSystemLogLabel = jm::LogLevel::kDebug;
 jm::Preferences*  gPreferences = nullptr;
@@ -109,7 +123,7 @@ void jm::System::logEnableLabel(jm::LogLevel logLevel)
 
 void jm::System::log(const String& message, LogLevel logLevel)
 {
-   gSystemMutex.lock();
+   SystemLock lock;
 
    jm::String msg;
    if(gSystemLogDate)msg << '[' << jm::Date().toString() << "] ";
@@ -180,8 +194,6 @@ void jm::System::log(const String& message, LogLevel logLevel)
    }
 
    #endif
-
-   gSystemMutex.unlock();
 }
 
 const jm::String& jm::System::lastErrorMessage()
-- 
2.43.0


From 6b704e531c45f4ced2514f55248e8ace2114d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 072/113] fix: the last error message was read without its lock

---
 include/core/System.h | 2 +-
 src/core/System.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/core/System.h b/include/core/System.h
index 0989ea2..ae13bd5 100644
--- a/include/core/System.h
+++ b/include/core/System.h
@@ -124,7 +124,7 @@ namespace jm
          /*!
           \brief Returns the last error message
           */
-         static const String& lastErrorMessage();
+         static String lastErrorMessage();
 
          /*!
           \brief This method loads a dynamic library. On macOS *.dylib, Windows *.dll, and Linux *.so
diff --git a/src/core/System.cpp b/src/core/System.cpp
index 7cad0bd..e4846aa 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -196,8 +196,9 @@ void jm::System::log(const String& message, LogLevel logLevel)
    #endif
 }
 
-const jm::String& jm::System::lastErrorMessage()
+jm::String jm::System::lastErrorMessage()
 {
+   SystemLock lock;
    return gSystemError;
 }
 
-- 
2.43.0


From 3e71040072e8e0244e9b921adfc5a62af38a62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 073/113] fix: interrupting a thread that has not yet begun to
 run was lost

---
 src/core/Thread.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 8ce9893..cbcf74e 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -39,10 +39,6 @@ void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
 
-   pthread_mutex_lock(&t->criticalSection);
-   t->alive = true;
-   pthread_mutex_unlock(&t->criticalSection);
-
    t->run();
    pthread_exit(nullptr);
 }
@@ -96,8 +92,20 @@ void Thread::start()
    #if defined __APPLE__ || defined __linux__
    void* arg = (void*)this;
 
+   // The thread is alive from now on, so that it can be interrupted even before it runs
+   pthread_mutex_lock(&criticalSection);
+   alive = true;
+   pthread_mutex_unlock(&criticalSection);
+
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
-   if(ret != 0)throw Exception("Error on starting Thread");
+   if(ret != 0)
+   {
+      thread = 0;
+      pthread_mutex_lock(&criticalSection);
+      alive = false;
+      pthread_mutex_unlock(&criticalSection);
+      throw Exception("Error on starting Thread");
+   }
    #elif defined _WIN32
    void* arg = (void*)this;
    mHandle = CreateThread(0, 0, StartThread, arg, 0, &mThreadID);
-- 
2.43.0


From 71ddcf0d84e8529395fb152daa722ff01965a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 074/113] fix: a thread that began to sleep while it was
 interrupted never ended

---
 src/core/Thread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index cbcf74e..aab913d 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -133,7 +133,7 @@ void Thread::sleep(int64 millis)
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_timedwait(&cond, &criticalSection, &ts);
+   if(alive)pthread_cond_timedwait(&cond, &criticalSection, &ts);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    ::Sleep(millis);
@@ -162,7 +162,7 @@ void Thread::sleep()
 {
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_wait(&cond, &criticalSection);
+   if(alive)pthread_cond_wait(&cond, &criticalSection);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    //	EnterCriticalSection((CRITICAL_SECTION*)mCriticalSection);
-- 
2.43.0


From c9407b77c91775670c6f7275e0d1c3f9cba568dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 075/113] fix: interrupting a thread that was not started or is
 already interrupted crashed

---
 src/core/Thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index aab913d..6ac1701 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -187,7 +187,9 @@ void Thread::interrupt()
    alive = false;
    pthread_mutex_unlock(&criticalSection);
    pthread_cond_signal(&cond);
-   pthread_join(thread, nullptr);
+
+   if(thread != 0)pthread_join(thread, nullptr);
+   thread = 0;
    #elif defined _WIN32
    TerminateThread(mHandle, 0);
    #endif
-- 
2.43.0


From 4ae29ab976746ca683170d7497c7c1baa4cf1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 076/113] fix: Color::toGreyScale(): bright colours keep their
 brightness

---
 src/core/Color.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 6dbdcaf..65d113b 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -127,8 +127,8 @@ void Color::toGreyScale()
          // G = 0.2126 R + 0.7152 G + 0.0722 B.
          float grey = 0.2126f * col.rgb.red +
                       0.7152f * col.rgb.green +
-                      0.0733f * col.rgb.blue;
-         col.g.grey = std::min(static_cast<int8>(255), static_cast<int8>(grey));
+                      0.0722f * col.rgb.blue;
+         col.g.grey = static_cast<uint8>(grey + 0.5f);
          mAlpha = 255;
          break;
       }
-- 
2.43.0


From a3324801dfa55efcffb973d361c25fc5b1e41c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 077/113] fix: Color::toCmyk(): black is only key, not a
 division of zero by zero

---
 src/core/Color.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 65d113b..6a19b3b 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -163,6 +163,17 @@ void Color::toCmyk()
          //The black key (K) colour is calculated from the red (R'), green (G') and blue (B') colours:
          //K = 1-max(R', G', B')
          float k = 1.0f - std::max(r, std::max(g, b));
+         if(k >= 1.0f)
+         {
+            //Black: the other components are not defined by the formulas
+            mMode = ColorMode::kCmyk;
+            col.cmyk.cyan = 0;
+            col.cmyk.magenta = 0;
+            col.cmyk.yellow = 0;
+            col.cmyk.key = 255;
+            mAlpha = 255;
+            break;
+         }
          //The cyan colour (C) is calculated from the red (R') and black (K) colours:
          //C = (1-R'-K) / (1-K)
          float c = (1 - r - k) / (1 - k);
-- 
2.43.0


From d89265af0d886d5fbf9c11f472ab335087212544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 078/113] fix: blend(): two transparent colours do not divide
 by zero, components do not overflow

---
 src/core/Color.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 6a19b3b..f172f00 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -473,7 +473,8 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
    float alphaB = alphaBackground / 255.0f;
    float A = colourForeground / 255.0f;
    float B = colourBackground / 255.0f;
-   float alphaC = PorterDuffAlpha(alphaBackground, alphaForeground) / 255.0f;
+   float alphaC = alphaA + (1 - alphaA) * alphaB;
+   if(alphaC <= 0) return 0;
 
    float C = (alphaA * A + (1 - alphaA) * alphaB * B) / alphaC;
 
-- 
2.43.0


From 1296461a36e27431a444368e1e20cdfce5e9c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 079/113] fix: AutoreleasePool is not copied: both copies would
 free the same entries

---
 include/core/AutoreleasePool.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/AutoreleasePool.h b/include/core/AutoreleasePool.h
index d0d14d1..37f30c1 100644
--- a/include/core/AutoreleasePool.h
+++ b/include/core/AutoreleasePool.h
@@ -57,6 +57,16 @@ namespace jm
           */
          ~AutoreleasePool() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         AutoreleasePool(const AutoreleasePool& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         AutoreleasePool& operator=(const AutoreleasePool& other) = delete;
+
          /*!
           \brief Sends a release() to all objects accumulated in the AutoreleasePool.
           */
-- 
2.43.0


From b08748878f310ac67e884948060e1c7d3f98d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 080/113] fix: Charset and its decoders are not copied: both
 copies would free the same tables

---
 include/core/Charset.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/core/Charset.h b/include/core/Charset.h
index 6c79ad8..b3d5be5 100644
--- a/include/core/Charset.h
+++ b/include/core/Charset.h
@@ -56,6 +56,16 @@ namespace jm
           */
          ~CharsetDecoder() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         CharsetDecoder(const CharsetDecoder& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         CharsetDecoder& operator=(const CharsetDecoder& other) = delete;
+
          /*!
           \brief This method decodes a C-string using the encoding implemented in the decoder
           and converts it into a Unicode-encoded chararray.
@@ -113,6 +123,16 @@ namespace jm
           */
          virtual ~Charset();
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         Charset(const Charset& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         Charset& operator=(const Charset& other) = delete;
+
          /*!
           \brief This method returns the name of the character set.
           */
-- 
2.43.0


From ab805a5c92fd39e72ac3e37bf177c8d83c8c16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 081/113] fix: DateFormatter is not copied: both copies would
 free the same patterns

---
 include/core/Date.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/Date.h b/include/core/Date.h
index 50a28a8..3ef6885 100644
--- a/include/core/Date.h
+++ b/include/core/Date.h
@@ -474,6 +474,16 @@ namespace jm
 
          ~DateFormatter();
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         DateFormatter(const DateFormatter& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         DateFormatter& operator=(const DateFormatter& other) = delete;
+
          String format(const Date& date)const;
 
          static String format(const String& format, const Date& date);
-- 
2.43.0


From e2431280c33300297196fa936c5b81db90c20252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 082/113] fix: DiffDiag and DiffDistance are not copied: both
 copies would free the same diagonals

---
 include/core/DiffDiag.h     | 10 ++++++++++
 include/core/DiffDistance.h | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/core/DiffDiag.h b/include/core/DiffDiag.h
index 5eb89c5..e8af5c8 100644
--- a/include/core/DiffDiag.h
+++ b/include/core/DiffDiag.h
@@ -58,6 +58,16 @@ namespace jm
 
          ~DiffDiag();
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         DiffDiag(const DiffDiag& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         DiffDiag& operator=(const DiffDiag& other) = delete;
+
          DiffDiag* above();
          DiffDiag* below();
 
diff --git a/include/core/DiffDistance.h b/include/core/DiffDistance.h
index 91bf8b7..9c19f5f 100644
--- a/include/core/DiffDistance.h
+++ b/include/core/DiffDistance.h
@@ -71,6 +71,16 @@ namespace jm
           */
          ~DiffDistance();
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         DiffDistance(const DiffDistance& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         DiffDistance& operator=(const DiffDistance& other) = delete;
+
          /*!
           \brief Clears the internal state to prepare for a new calculation.
 
-- 
2.43.0


From 1ae866a5d1245eebc92c50af5923613db1a316d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 083/113] fix: Document is not assigned: both objects would
 delete the same undo manager

---
 include/core/Document.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/Document.h b/include/core/Document.h
index 056185a..9188cee 100644
--- a/include/core/Document.h
+++ b/include/core/Document.h
@@ -71,6 +71,16 @@ namespace jm
           */
          ~Document() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         Document(const Document& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         Document& operator=(const Document& other) = delete;
+
          /*
           *
           * UNDO AND REDO MANAGEMENT
-- 
2.43.0


From e37c6ab87b8e85d99f37c9324bf36ef17ec2df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 084/113] fix: Hashtable, Preferences and I18nBundle are not
 copied: both copies would free the same entries

---
 include/core/Hashtable.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/Hashtable.h b/include/core/Hashtable.h
index b50e12c..cd97eae 100644
--- a/include/core/Hashtable.h
+++ b/include/core/Hashtable.h
@@ -60,6 +60,16 @@ namespace jm
           */
          ~Hashtable() noexcept override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         Hashtable(const Hashtable& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         Hashtable& operator=(const Hashtable& other) = delete;
+
          /*!
           \brief This method inserts a new element into the hash table.
           \param key The key to which the object will be associated.
-- 
2.43.0


From f5461f294e24122d6457c7d93bc77568ac7cb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 085/113] fix: LinkedList is not copied: both copies would free
 the same elements

---
 include/core/LinkedList.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/LinkedList.h b/include/core/LinkedList.h
index e5e84f5..f8758a5 100644
--- a/include/core/LinkedList.h
+++ b/include/core/LinkedList.h
@@ -111,6 +111,16 @@ namespace jm
           */
          ~LinkedList() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         LinkedList(const LinkedList& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         LinkedList& operator=(const LinkedList& other) = delete;
+
          /*!
           \brief This method returns true if there is a next element in the list
           */
-- 
2.43.0


From 8d15a42f37793346905c8dd6260ff39c00c42c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 086/113] fix: Mutex and Thread are not copied: a mutex must
 not be moved bit by bit

---
 include/core/Mutex.h  | 10 ++++++++++
 include/core/Thread.h | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/core/Mutex.h b/include/core/Mutex.h
index 485dd6c..6b858fe 100644
--- a/include/core/Mutex.h
+++ b/include/core/Mutex.h
@@ -60,6 +60,16 @@ namespace jm
           */
          ~Mutex();
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         Mutex(const Mutex& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         Mutex& operator=(const Mutex& other) = delete;
+
          /*!
           \brief Lock the mutex object.
           */
diff --git a/include/core/Thread.h b/include/core/Thread.h
index f314b43..979eac6 100644
--- a/include/core/Thread.h
+++ b/include/core/Thread.h
@@ -123,6 +123,16 @@ namespace jm
           */
          ~Thread() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         Thread(const Thread& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         Thread& operator=(const Thread& other) = delete;
+
          /*!
           \brief This method starts the thread.
          */
-- 
2.43.0


From 63de0e810678dc1622ccca2f412b781b5f604c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 087/113] fix: PaintingBackend is not assigned: both objects
 would free the same stack and buffer

---
 include/core/PaintingBackend.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/PaintingBackend.h b/include/core/PaintingBackend.h
index 7dea76b..cf401c6 100644
--- a/include/core/PaintingBackend.h
+++ b/include/core/PaintingBackend.h
@@ -88,6 +88,16 @@ namespace jm
           */
          ~PaintingBackend() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         PaintingBackend(const PaintingBackend& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         PaintingBackend& operator=(const PaintingBackend& other) = delete;
+
          /*!
           \brief This method is called to interrupt the work of the drawing thread as soon as possible.
           \param status The status of the cancellation. If "true", the drawing thread should be interrupted.
-- 
2.43.0


From b2879457532fb717a31721031249638d8e479f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 088/113] fix: TestVector is not copied: both copies would
 delete the same tests

---
 include/core/Test.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/Test.h b/include/core/Test.h
index a3b0cee..be8ee21 100644
--- a/include/core/Test.h
+++ b/include/core/Test.h
@@ -349,6 +349,16 @@ namespace jm
          */
          ~TestVector();
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         TestVector(const TestVector& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         TestVector& operator=(const TestVector& other) = delete;
+
          /*!
           \brief Adds \p test to the test vector.
           \param test The test to be added.
-- 
2.43.0


From 53520bdaa758e67dabbcb77b8814a8f5df944bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 089/113] fix: UndoChange and UndoStep are not copied: both
 copies would release the same objects

---
 include/core/UndoData.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/core/UndoData.h b/include/core/UndoData.h
index ed002b2..f3a384b 100644
--- a/include/core/UndoData.h
+++ b/include/core/UndoData.h
@@ -80,6 +80,16 @@ namespace jm
           */
          virtual ~UndoChange() noexcept;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         UndoChange(const UndoChange& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         UndoChange& operator=(const UndoChange& other) = delete;
+
          /*!
           \brief This method performs an undo/redo step by swapping the stored value (here) with the value pointed to by the pointer.
           \note This method also triggers a regenerate() in EditableObjects.
@@ -683,6 +693,16 @@ namespace jm
           */
          ~UndoStep();
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         UndoStep(const UndoStep& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         UndoStep& operator=(const UndoStep& other) = delete;
+
          /*!
           \brief Adds a change to the step.
           \param change The change to be added.
-- 
2.43.0


From 8f47a98731cf2eab0ce0dc290c4a95b74df03e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 090/113] fix: UndoManager is not copied: both copies would
 delete the same steps

---
 include/core/UndoManager.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/UndoManager.h b/include/core/UndoManager.h
index 7677da8..6630fe0 100644
--- a/include/core/UndoManager.h
+++ b/include/core/UndoManager.h
@@ -85,6 +85,16 @@ namespace jm
           */
          ~UndoManager() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         UndoManager(const UndoManager& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         UndoManager& operator=(const UndoManager& other) = delete;
+
          /*!
           \brief Sets the document associated with this manager.
           This enables automatic tracking of changes.
-- 
2.43.0


From 9d44a92c611a5dfd5c0f886c7188972a0ff003c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 091/113] fix: XMLWriter is not copied: both copies would free
 the same stack

---
 include/core/XMLWriter.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/XMLWriter.h b/include/core/XMLWriter.h
index 26f83f2..65290c3 100644
--- a/include/core/XMLWriter.h
+++ b/include/core/XMLWriter.h
@@ -58,6 +58,16 @@ namespace jm
           */
          ~XMLWriter() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         XMLWriter(const XMLWriter& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         XMLWriter& operator=(const XMLWriter& other) = delete;
+
          /*!
           \brief This method must be called at the beginning. It opens the stream if it hasn't been opened yet.
           \return true if everything is fine.
-- 
2.43.0


From e85c76aea23f827aa252f4ba3cd94dd804fdf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 092/113] fix: ZipFile is not copied: both copies would release
 the same entries

---
 include/core/ZipFile.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 830d784..286c452 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -107,6 +107,16 @@ namespace jm
           */
          ~ZipFile() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         ZipFile(const ZipFile& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         ZipFile& operator=(const ZipFile& other) = delete;
+
          /*!
           \brief Opens the file for reading.
           */
-- 
2.43.0


From a024f9d1e286c74995b9860504cdab791bd2748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:00 +0000
Subject: [PATCH 093/113] fix: Stack is not copied: both copies would free the
 same elements

---
 include/core/Stack.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/Stack.h b/include/core/Stack.h
index 7bdf28e..82b7228 100644
--- a/include/core/Stack.h
+++ b/include/core/Stack.h
@@ -82,6 +82,16 @@ namespace jm
             clear();
          }
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         Stack(const Stack& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         Stack& operator=(const Stack& other) = delete;
+
          /*!
           \brief This method returns true if the stack is not empty.
           */
-- 
2.43.0


From 5182860a61e0f329640f2818022757ed49b74b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:15 +0000
Subject: [PATCH 094/113] fix: copies of a Nurbs have control points, knots and
 weights of their own

---
 include/core/Nurbs.h | 10 ++++++++++
 src/core/NURBS.cpp   | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/include/core/Nurbs.h b/include/core/Nurbs.h
index 814f367..318b019 100644
--- a/include/core/Nurbs.h
+++ b/include/core/Nurbs.h
@@ -77,11 +77,21 @@ namespace jm
                double* weights,
                uint32 weightCount);
 
+         /*!
+          \brief Copy constructor.
+          */
+         Nurbs(const Nurbs& other);
+
          /*!
           \brief Destructor
           */
          ~Nurbs() override;
 
+         /*!
+          \brief Assigns a copy of another curve.
+          */
+         Nurbs& operator=(const Nurbs& other);
+
          /*!
           \brief Returns a point on the curve at a given parameter value.
           \param t The parameter value on the curve. Should be in the range [0, t_max].
diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index 206a449..2f44215 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -68,6 +68,44 @@ Nurbs::Nurbs(uint32 degree,
    for(uint32 a = 0; a < mWeightCount; a++)mWeights[a] = weights[a];
 }
 
+Nurbs::Nurbs(const Nurbs& other): Object()
+{
+   mDegree = 1;
+   mControlpoints = nullptr;
+   mControlCount = 0;
+   mKnots = nullptr;
+   mKnotCount = 0;
+   mWeights = nullptr;
+   mWeightCount = 0;
+   *this = other;
+}
+
+Nurbs& Nurbs::operator=(const Nurbs& other)
+{
+   if(this == &other)return *this;
+
+   Vertex3* controlpoints = new Vertex3[other.mControlCount];
+   for(uint32 a = 0; a < other.mControlCount; a++)controlpoints[a] = other.mControlpoints[a];
+   double* knots = new double[other.mKnotCount];
+   for(uint32 a = 0; a < other.mKnotCount; a++)knots[a] = other.mKnots[a];
+   double* weights = new double[other.mWeightCount];
+   for(uint32 a = 0; a < other.mWeightCount; a++)weights[a] = other.mWeights[a];
+
+   if(mControlpoints != nullptr)delete[] mControlpoints;
+   if(mKnots != nullptr)delete[] mKnots;
+   if(mWeights != nullptr)delete[] mWeights;
+
+   mDegree = other.mDegree;
+   mControlCount = other.mControlCount;
+   mControlpoints = controlpoints;
+   mKnotCount = other.mKnotCount;
+   mKnots = knots;
+   mWeightCount = other.mWeightCount;
+   mWeights = weights;
+
+   return *this;
+}
+
 Nurbs::~Nurbs()
 {
    if(mControlpoints != nullptr)delete[] mControlpoints;
-- 
2.43.0


From d7807d6c82345bf6aa73b8c94d65cb55c7a74903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:15 +0000
Subject: [PATCH 095/113] fix: a copy of a DiffBacktrace has steps of its own

---
 include/core/DiffBacktrace.h |  5 +++++
 src/core/DiffBacktrace.cpp   | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/core/DiffBacktrace.h b/include/core/DiffBacktrace.h
index 9162138..45c0d7f 100644
--- a/include/core/DiffBacktrace.h
+++ b/include/core/DiffBacktrace.h
@@ -67,6 +67,11 @@ namespace jm
           */
          ~DiffBacktrace();
 
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         DiffBacktrace& operator=(const DiffBacktrace& another) = delete;
+
          /*!
           \brief Writes the result of Diff to the standard output stream if something is different
           */
diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 246c60a..845623c 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -49,8 +49,21 @@ DiffBacktrace::DiffBacktrace(const DiffBacktrace& another)
    mOperation = another.mOperation;
    mObj1 = another.mObj1;
    mObj2 = another.mObj2;
-   mPrev = another.mPrev;
-   mNext = another.mNext;
+   mPrev = nullptr;
+   mNext = nullptr;
+
+   DiffBacktrace* last = this;
+   for(const DiffBacktrace* step = another.mNext; step != nullptr; step = step->mNext)
+   {
+      DiffBacktrace* copy = new DiffBacktrace();
+      copy->mSize = step->mSize;
+      copy->mOperation = step->mOperation;
+      copy->mObj1 = step->mObj1;
+      copy->mObj2 = step->mObj2;
+      copy->mPrev = last;
+      last->mNext = copy;
+      last = copy;
+   }
 }
 
 DiffBacktrace::~DiffBacktrace()
-- 
2.43.0


From 0aed8e6fcd347ef0eed21b3f7af129e50306f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 096/113] fix: Inflater owns its output until it hands it over:
 no leak, no null buffer of a default constructed object

---
 include/core/Inflater.h | 10 ++++++++++
 src/core/Inflater.cpp   | 18 +++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/core/Inflater.h b/include/core/Inflater.h
index 6a4f354..00f4c2e 100644
--- a/include/core/Inflater.h
+++ b/include/core/Inflater.h
@@ -170,6 +170,16 @@ namespace jm
           */
          ~Inflater() override;
 
+         /*!
+          \brief Objects of this class cannot be copied.
+          */
+         Inflater(const Inflater& other) = delete;
+
+         /*!
+          \brief Objects of this class cannot be assigned.
+          */
+         Inflater& operator=(const Inflater& other) = delete;
+
          /*!
           \brief Passes a block of bytes to this class for decompression.
           \param buffer The compressed data
diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 2e4d98b..4dbc217 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -48,13 +48,14 @@ Inflater::Inflater(): Object()
    mCompLength = 0;
    mCompIndex = 0;
    mUncompBytes = nullptr;
-   mUncompLength = 1024;
+   mUncompLength = 0;
    mUncompIndex = 0;
    mTotalIn = 0;
    mTotalOut = 0;
    mBit = 0;
    mLastBlock = false;
    mEof = false;
+   MAX_BITS = 0;
 }
 
 Inflater::Inflater(bool wrap): Object()
@@ -62,10 +63,12 @@ Inflater::Inflater(bool wrap): Object()
    mUncompBytes = nullptr;
    Reset();
    mWrap = wrap;
+   MAX_BITS = 0;
 }
 
 Inflater::~Inflater()
 {
+   delete[] mUncompBytes;
 }
 
 void Inflater::SetInput(uint8* buffer, int64 length)
@@ -88,6 +91,11 @@ bool Inflater::Finished()
 void Inflater::Inflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
+   if(mUncompBytes == nullptr)
+   {
+      mUncompBytes = new uint8[1024];
+      mUncompLength = 1024;
+   }
 
    // You are at the beginning of the stream. Read in ZLIB header (RFC1950)
    if(mTotalIn == 0 && mWrap == false)
@@ -128,6 +136,10 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 
    buffer = mUncompBytes;
    length = mUncompIndex;
+
+   // The buffer belongs to the caller now
+   mUncompBytes = nullptr;
+   mUncompLength = 0;
 }
 
 void Inflater::Reset()
@@ -135,9 +147,9 @@ void Inflater::Reset()
    mCompBytes = nullptr;
    mCompLength = 0;
    mCompIndex = 0;
+   delete[] mUncompBytes;
    mUncompBytes = nullptr;
-   mUncompBytes = new uint8[1024];
-   mUncompLength = 1024;
+   mUncompLength = 0;
    mUncompIndex = 0;
    mTotalIn = 0;
    mTotalOut = 0;
-- 
2.43.0


From 33158415acdc3a7257ee7f8a115ac1364930dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:42 +0000
Subject: [PATCH 097/113] fix: Deflater reserves enough room for data that
 cannot be compressed and reports errors of zlib

---
 src/core/Deflater.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index 629650d..d18c1ad 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -35,6 +35,9 @@ using namespace jm;
 
 Deflater::Deflater(): Object()
 {
+   mUncompBytes = nullptr;
+   mUncompLength = 0;
+   mUncompIndex = 0;
    mTotalIn=0;
    mTotalOut=0;
 }
@@ -55,7 +58,8 @@ void Deflater::deflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
 
-   buffer = new uint8[mUncompLength];
+   buffer = nullptr;
+   length = 0;
 
    z_stream defstream;
    defstream.zalloc = Z_NULL;
@@ -64,15 +68,32 @@ void Deflater::deflate(uint8*& buffer, int64& length)
    // setup "a" as the input and "b" as the compressed output
    defstream.avail_in = (uInt) mUncompLength; // size of input, string + terminator
    defstream.next_in = reinterpret_cast<Bytef*>(mUncompBytes);  // input char array
-   defstream.avail_out = (uInt)mUncompLength; // size of output
-   defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
+
+   if(mUncompLength < 0 || (uint64)mUncompLength > 0xFFFFFFFFu)throw Exception("Block is too large to be compressed at once.");
+   if(deflateInit(&defstream, Z_BEST_COMPRESSION) != Z_OK)throw Exception("Cannot initialise the compression.");
+
+   // Data that cannot be compressed become larger
+   uLong capacity = deflateBound(&defstream, (uLong)mUncompLength);
+   if(capacity > 0xFFFFFFFFu)
+   {
+      deflateEnd(&defstream);
+      throw Exception("Block is too large to be compressed at once.");
+   }
+   uint8* output = new uint8[capacity];
+   defstream.avail_out = (uInt)capacity; // size of output
+   defstream.next_out = reinterpret_cast<Bytef*>(output);  // output char array
 
    // the actual compression work.
-   deflateInit(&defstream, Z_BEST_COMPRESSION);
-   ::deflate(&defstream, Z_FINISH);
+   int result = ::deflate(&defstream, Z_FINISH);
    deflateEnd(&defstream);
+   if(result != Z_STREAM_END)
+   {
+      delete[] output;
+      throw Exception("Compression failed.");
+   }
 
-   length = (uint32)defstream.total_out;
+   buffer = output;
+   length = (int64)defstream.total_out;
    mTotalOut += length;
 }
 
-- 
2.43.0


From 20eb359fb251e04dfc695c45771076702da1bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 098/113] fix: Charset reserves as many alternative names as it
 is given

---
 src/core/Charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 1401afd..3833d2b 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -112,8 +112,8 @@ Charset::Charset(const String& name, const String* alternatives, uint8 altCount,
                  CharsetDecoder* decoder): Object()
 {
    mName = name;
-   mAlternatives = new String[mAltCount];
    mAltCount = altCount;
+   mAlternatives = new String[mAltCount];
    for(uint8 a = 0; a < mAltCount; a++)mAlternatives[a] = alternatives[a];
    mDecoder = decoder;
 }
-- 
2.43.0


From ec26ffd96a02eb60f9190e369a1b2d751d90eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 099/113] fix: Inflater does not read behind the end of its
 input

---
 src/core/Inflater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 4dbc217..c8845a9 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -176,6 +176,7 @@ int64 Inflater::GetTotalOut()
 
 uint8 Inflater::nextBit()
 {
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of the compressed data.");
    uint8 ret = ((0x01 << mBit) & mCompBytes[mCompIndex]) >> mBit;
 
    mBit++;
@@ -199,6 +200,7 @@ void Inflater::skipByteBits()
 uint8 Inflater::nextAlignedUInt8()
 {
    if(mBit != 0)throw Exception("Incorrect bit order for uint8!");
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of the compressed data.");
    uint8 ret = mCompBytes[mCompIndex++];
    mTotalIn++;
    return ret;
-- 
2.43.0


From 13ea7f1d7587683fbe32d58948167c2c706d2e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 100/113] fix: Inflater throws its exceptions instead of
 ignoring errors in the compressed data

---
 src/core/Inflater.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index c8845a9..395d2a4 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -695,7 +695,7 @@ void Inflater::handleCompressedDynamicHuffman()
             writeUncompressed(mUncompBytes[src + a]);
          }
       }
-      else Exception("Code has unexpected value: " + String::valueOf(value));
+      else throw Exception("Code has unexpected value: " + String::valueOf(value));
 
 
    }
@@ -719,7 +719,7 @@ void Inflater::inflate()
    {
       //Blockheader lesen
       int8 bfinal = nextBit();
-      int8 btype = nextBit() + nextBit() * 2;
+      int8 btype = nextUIntXR(2);
       if(bfinal == 1)mLastBlock = true;
 
       //stored with no compression BTYPE = 00
@@ -736,7 +736,7 @@ void Inflater::inflate()
       {
          handleCompressedDynamicHuffman();
       }
-      else new Exception("Error in decompression process. Corrupt Block header");
+      else throw Exception("Error in decompression process. Corrupt Block header");
 
    }
    while(!mLastBlock);
@@ -771,7 +771,7 @@ uint16 Inflater::nextFixedHuffmanCode()
          if(code >= 0x190
                && code <= 0x1FF)  // (9 bit) 1 1001 0000 - 1 1111 1111 ( 400 - 511 | 0x190 - 0x1FF ) -> 144 - 255: -256 =-0x100
             code -= 0x100;
-         else new Exception("Wrong code");
+         else throw Exception("Wrong code");
       }
    }
    return code;
@@ -805,7 +805,6 @@ Inflater::HuffmanTree* Inflater::HuffmanTree::Find(uint16 _code, uint16 bits)
       uint16 target = msk & _code;
       if(target == 0 && this->node0 != nullptr)return this->node0->Find(_code, bits);
       else if(target != 0 && this->node1 != nullptr)return this->node1->Find(_code, bits);
-      else new Exception("Huffman Tree Error");
    }
 
    return nullptr;
-- 
2.43.0


From c627941c6e5be0c91a0f65f033da78bf9da5d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 101/113] fix: Inflater rejects stored blocks whose length does
 not match its complement

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 395d2a4..a1b9b3d 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -270,7 +270,7 @@ void Inflater::handleUncompressedBlock()
    uint16 len = nextAlignedUInt16();
    uint16 nlen = nextAlignedUInt16();//Komplement von len
 
-   if((nlen & len) != 0)throw Exception("Length of uncompressed block is corrupted.");
+   if(nlen != (uint16)~len)throw Exception("Length of uncompressed block is corrupted.");
 
    for(int32 a = 0; a < len; a++)
    {
-- 
2.43.0


From 241e209ffdcd66d4ae73c0fafe836ff16e1beb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 102/113] fix: Inflater resolves distances beyond 32 KiB of
 output and rejects distance codes 30 and 31

---
 src/core/Inflater.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index a1b9b3d..742706e 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -312,6 +312,7 @@ void Inflater::handleCompressedFixHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = nextUIntX(5);
+         if(code > 29)throw Exception("Invalid distance code: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -321,7 +322,7 @@ void Inflater::handleCompressedFixHuffman()
          //stream, and copy length bytes from this
          //position to the output stream.
 
-         int64 src = (mUncompIndex - distance) & 32767;
+         int64 src = mUncompIndex - distance;
          if(src < 0)throw Exception("Distance in fix hufmann refer before output stream beginning.");
          for(int64 a = 0; a < length; a++)
          {
@@ -679,6 +680,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = decodeHuffmanSymbol(htdist);
+         if(code > 29)throw Exception("Invalid distance code: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
-- 
2.43.0


From aafafe9dd43c65875f0a486363109995e00956e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 103/113] fix: Inflater does not reserve memory in proportion
 to the size of the input when the first bytes compress well

---
 src/core/Inflater.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 742706e..d7a3602 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -242,8 +242,7 @@ void Inflater::checkCapacity()
    if(mUncompIndex < mUncompLength)return;
 
    // Increase
-   double ratio = mCompIndex / (double)mCompLength;
-   int64 newLength = mUncompLength + max(int64(4096), int64(mUncompLength / ratio));
+   int64 newLength = mUncompLength + max(int64(4096), mUncompLength);
    uint8* tmp = new uint8[newLength];
    if(tmp == nullptr)throw Exception("Cannot allocate memory!");
    memcpy(tmp, mUncompBytes, mUncompIndex);
-- 
2.43.0


From 9886a36b9f0913d34b10869db8d4a5263047c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 104/113] fix: Inflater: incomplete and empty sets of Huffman
 codes are decoded, oversubscribed ones rejected

---
 src/core/Inflater.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index d7a3602..11b9400 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -429,7 +429,7 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
             HuffmanTree* nn = new HuffmanTree();
             nn->length = n1->length - 1;
 
-            if((n1->tmp & 0x01) == 0)nn->node0 = n1;
+            if((n1->code & 0x01) == 0)nn->node0 = n1;
             else nn->node1 = n1;
             nn->code = n1->tmp;
             nodes.push_back(nn);
@@ -445,7 +445,7 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
          HuffmanTree* nn = new HuffmanTree();
          nn->length = n1->length - 1;
 
-         if((n1->tmp & 0x01) == 0)nn->node0 = n1;
+         if((n1->code & 0x01) == 0)nn->node0 = n1;
          else nn->node1 = n1;
 
          nn->code = n1->tmp;
@@ -460,6 +460,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
    }
    while(nodes.size() > 1);
 
+   // There is no code at all
+   if(nodes.size() == 0)nodes.push_back(new HuffmanTree());
+
    return nodes[0];
 }
 
@@ -495,13 +498,8 @@ Array<uint16>* Inflater::huffmanCodes(Array<uint16>* codelengths)
    for(uint32 a = 0; a < codelengths->size();
          a++)MAX_BITS = (*codelengths)[a] > MAX_BITS ? (*codelengths)[a] : MAX_BITS;
 
-   uint16* blCount = new uint16[MAX_BITS + 1];
-   uint16* nextCode = new uint16[MAX_BITS + 1];
-   for(uint16 a = 0; a <= MAX_BITS; a++)
-   {
-      blCount[a] = 0;
-      nextCode[a] = 0;
-   }
+   std::vector<uint16> blCount(MAX_BITS + 1, 0);
+   std::vector<uint16> nextCode(MAX_BITS + 1, 0);
 
    //1. Zähle die Codelängen
    // Count the number of codes for each code length.  Let
@@ -522,6 +520,7 @@ Array<uint16>* Inflater::huffmanCodes(Array<uint16>* codelengths)
    {
       code = (code + blCount[bits - 1]) << 1;
       nextCode[bits] = code;
+      if(code + blCount[bits] > (1 << bits))throw Exception("Too many Huffman codes.");
    }
 
    //3)  Assign numerical values to all codes, using consecutive
@@ -543,10 +542,6 @@ Array<uint16>* Inflater::huffmanCodes(Array<uint16>* codelengths)
       else(*codes)[n] = 0;
    }
 
-   //Aufräumen
-   delete [] blCount;
-   delete [] nextCode;
-
    return codes;
 }
 
-- 
2.43.0


From ba7a240dcda90fa10fb30593eab36173697a62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:48 +0000
Subject: [PATCH 105/113] fix: Inflater reads both sets of code lengths as one
 sequence, repeats stay within it

---
 src/core/Inflater.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 11b9400..6778a2d 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -557,12 +557,14 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
    {
       length = decodeHuffmanSymbol(tree);
 
+      if(length == 16 && cnt == 0)throw Exception("There is no code length to repeat.");
 
       switch(length)
       {
          //16: Copy the previous code length 3 - 6 times.
          case 16:
             repeat = nextUIntXR(2) + 3;
+            if(cnt + repeat > count)throw Exception("Too many code lengths.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = (*target)[cnt - 1];
@@ -573,6 +575,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //17: Repeat a code length of 0 for 3 - 10 times.
          case 17:
             repeat = nextUIntXR(3) + 3;
+            if(cnt + repeat > count)throw Exception("Too many code lengths.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = 0;
@@ -583,6 +586,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //18: Repeat a code length of 0 for 11 - 138 times
          case 18:
             repeat = nextUIntXR(7) + 11;
+            if(cnt + repeat > count)throw Exception("Too many code lengths.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = 0;
@@ -629,11 +633,15 @@ void Inflater::handleCompressedDynamicHuffman()
 
    HuffmanTree* intermediate = createTree(codelengths, codes);
 
+   // Repetitions may cross the border between both sets
+   Array<uint16>* lengthdists = new Array<uint16>(HLIT + HDIST);
+   readLengthDists(lengthdists, intermediate, HLIT + HDIST);
+
    Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   readLengthDists(lengths2, intermediate, HLIT);
+   for(uint16 a = 0; a < HLIT; a++)(*lengths2)[a] = (*lengthdists)[a];
 
    Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   readLengthDists(distances2, intermediate, HDIST);
+   for(uint16 a = 0; a < HDIST; a++)(*distances2)[a] = (*lengthdists)[HLIT + a];
 
    Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
 
@@ -698,6 +706,7 @@ void Inflater::handleCompressedDynamicHuffman()
 
    delete codelengths;
    delete codes;
+   delete lengthdists;
    delete lengths2;
    delete distances2;
    delete lengthcodes2;
-- 
2.43.0


From 03f3b71f8bfb1507b920f336143a0e772fbcdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:48 +0000
Subject: [PATCH 106/113] fix: Inflater gives back its tables when the
 compressed data are corrupt

---
 src/core/Inflater.cpp | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 6778a2d..346a1ec 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -618,7 +618,7 @@ void Inflater::handleCompressedDynamicHuffman()
    const uint16 CODELENTH_ALPHABET[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
 
    //Codelängenarray erzeugen und Nullen
-   Array<uint16>* codelengths = new Array<uint16>(19);
+   std::unique_ptr<Array<uint16>> codelengths(new Array<uint16>(19));
    for(uint32 a = 0; a < codelengths->size(); a++)(*codelengths)[a] = 0;
 
    //Einlesen der definierten Codelängen (3 Bit feste Breite)
@@ -629,36 +629,36 @@ void Inflater::handleCompressedDynamicHuffman()
    }
 
    //Erzeuge aus den Codelängen die HuffmanCodes
-   Array<uint16>* codes = huffmanCodes(codelengths);
+   std::unique_ptr<Array<uint16>> codes(huffmanCodes(codelengths.get()));
 
-   HuffmanTree* intermediate = createTree(codelengths, codes);
+   std::unique_ptr<HuffmanTree> intermediate(createTree(codelengths.get(), codes.get()));
 
    // Repetitions may cross the border between both sets
-   Array<uint16>* lengthdists = new Array<uint16>(HLIT + HDIST);
-   readLengthDists(lengthdists, intermediate, HLIT + HDIST);
+   std::unique_ptr<Array<uint16>> lengthdists(new Array<uint16>(HLIT + HDIST));
+   readLengthDists(lengthdists.get(), intermediate.get(), HLIT + HDIST);
 
-   Array<uint16>* lengths2 = new Array<uint16>(HLIT);
+   std::unique_ptr<Array<uint16>> lengths2(new Array<uint16>(HLIT));
    for(uint16 a = 0; a < HLIT; a++)(*lengths2)[a] = (*lengthdists)[a];
 
-   Array<uint16>* distances2 = new Array<uint16>(HDIST);
+   std::unique_ptr<Array<uint16>> distances2(new Array<uint16>(HDIST));
    for(uint16 a = 0; a < HDIST; a++)(*distances2)[a] = (*lengthdists)[HLIT + a];
 
-   Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
+   std::unique_ptr<Array<uint16>> lengthcodes2(huffmanCodes(lengths2.get()));
 
-   Array<uint16>* distcodes2 = huffmanCodes(distances2);
+   std::unique_ptr<Array<uint16>> distcodes2(huffmanCodes(distances2.get()));
 
    //Workaround
    MAX_BITS = 15;
 
-   HuffmanTree* htvallen = createTree(lengths2, lengthcodes2);
-   HuffmanTree* htdist = createTree(distances2, distcodes2);
+   std::unique_ptr<HuffmanTree> htvallen(createTree(lengths2.get(), lengthcodes2.get()));
+   std::unique_ptr<HuffmanTree> htdist(createTree(distances2.get(), distcodes2.get()));
 
    bool endOfBlock = false;
    while(!endOfBlock)
    {
       uint16 value ;
 
-      value = decodeHuffmanSymbol(htvallen);
+      value = decodeHuffmanSymbol(htvallen.get());
 
       if(value < 256)
       {
@@ -681,7 +681,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //codes, with possible additional bits as shown in the table
          //shown in Paragraph 3.2.5, above.
 
-         uint16 code = decodeHuffmanSymbol(htdist);
+         uint16 code = decodeHuffmanSymbol(htdist.get());
          if(code > 29)throw Exception("Invalid distance code: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
@@ -703,17 +703,6 @@ void Inflater::handleCompressedDynamicHuffman()
 
 
    }
-
-   delete codelengths;
-   delete codes;
-   delete lengthdists;
-   delete lengths2;
-   delete distances2;
-   delete lengthcodes2;
-   delete distcodes2;
-   delete intermediate;
-   delete htvallen;
-   delete htdist;
 }
 
 
-- 
2.43.0


From 19092f2b615b244e47f2fdcdd9895898a981b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:29 +0000
Subject: [PATCH 107/113] fix: Inflater counts the last byte of the compressed
 data even when it reads only some of its bits

---
 src/core/Inflater.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 346a1ec..bf5c26d 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -735,6 +735,9 @@ void Inflater::inflate()
    }
    while(!mLastBlock);
 
+   // The rest of the last byte belongs to the compressed data
+   skipByteBits();
+
    mEof = true;
 }
 
-- 
2.43.0


From 8abee6b3b068d7d5b03c5ab39b570e69616b7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:41 +0000
Subject: [PATCH 108/113] fix: I18nBundle rejects translation files that refer
 to something outside of the file

---
 src/core/I18nBundle.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 5eb4f0b..19db3ca 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -71,6 +71,14 @@ void I18nBundle::appendMo(Stream* file)
    }
    uint8* buffer = (uint8*)buf.constData();
 
+   // Everything the file refers to must be within the file
+   auto inside = [length](uint64 offset, uint64 size) { return offset + size <= (uint64)length; };
+   if(!inside(0, 20))
+   {
+      System::log(Tr("Translation file is corrupted"), LogLevel::kError);
+      return;
+   }
+
    // Process content
    uint32 magic = jm::deserializeLEUInt32(buffer, 0);
    uint32 version = jm::deserializeLEUInt32(buffer, 4);
@@ -89,6 +97,12 @@ void I18nBundle::appendMo(Stream* file)
       return;
    }
 
+   if(!inside(origOffset, (uint64)stringCount * 8) || !inside(transOffset, (uint64)stringCount * 8))
+   {
+      System::log(Tr("Translation file is corrupted"), LogLevel::kError);
+      return;
+   }
+
    struct Record
    {
       uint32 origOffset = 0;
@@ -109,6 +123,12 @@ void I18nBundle::appendMo(Stream* file)
       rec.transLength = jm::deserializeLEUInt32(buffer, transOffset + offset);
       rec.transOffset = jm::deserializeLEUInt32(buffer, transOffset + offset + 4);
 
+      if(!inside(rec.origOffset, rec.origLength) || !inside(rec.transOffset, rec.transLength))
+      {
+         System::log(Tr("Translation file is corrupted"), LogLevel::kError);
+         return;
+      }
+
       offset += 8;
 
       records.push_back(rec);
-- 
2.43.0


From c3c29f986caf0fbd4662a3030867a3f1a3e824a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:41 +0000
Subject: [PATCH 109/113] fix: Preferences return texts as they were set, all
 of them survive saving and loading

---
 src/core/Preferences.cpp | 123 ++++++++++++++++++++-------------------
 1 file changed, 63 insertions(+), 60 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index fb03d1a..8025f4f 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -33,6 +33,58 @@
 
 using namespace jm;
 
+// Text as it is written to the file: all on one line, no blanks at its ends, no '=' within a key
+static String escape(const String& text, bool isKey)
+{
+   String result;
+   int64 length = text.size();
+
+   // "\\e" stands for nothing, it protects blanks at the ends
+   if(length > 0 ? text.charAt(0).isWhitespace() : isKey)result.append("\\e");
+
+   for(int64 a = 0; a < length; a++)
+   {
+      Char c = text.charAt(a);
+      if(c == '\\')result.append("\\\\");
+      else if(c == '\t')result.append("\\t");
+      else if(c == '\n')result.append("\\n");
+      else if(c == '\r')result.append("\\r");
+      else if(c == '=' && isKey)result.append("\\=");
+      else result.append(c);
+   }
+
+   if(length > 0 && text.charAt(length - 1).isWhitespace())result.append("\\e");
+   return result;
+}
+
+static String unescape(const String& text)
+{
+   String result;
+   int64 length = text.size();
+   for(int64 a = 0; a < length; a++)
+   {
+      Char c = text.charAt(a);
+      if(c == '\\' && a + 1 < length)
+      {
+         Char d = text.charAt(a + 1);
+         a++;
+         if(d == '\\')result.append('\\');
+         else if(d == 't')result.append('\t');
+         else if(d == 'n')result.append('\n');
+         else if(d == 'r')result.append('\r');
+         else if(d == '=')result.append('=');
+         else if(d == 'e')continue;
+         else
+         {
+            result.append(c);
+            result.append(d);
+         }
+      }
+      else result.append(c);
+   }
+   return result;
+}
+
 Preferences::Preferences(): Hashtable()
 {
 }
@@ -57,7 +109,7 @@ void Preferences::load(File file)
 
    int64 l = file.size();
    ByteArray buffer = ByteArray(l, 0);
-   file.open(FileMode::kRead);
+   if(file.open(FileMode::kRead) != Status::eOK)throw Exception("Property file cannot be opened.");
    int64 check = file.Stream::readFully(buffer);
    file.close();
    String data = String(buffer);
@@ -71,39 +123,14 @@ void Preferences::load(File file)
    {
       String line = st->next();
 
-      int64 pos = line.indexOf('=');
-      if(pos > 0)
-      {
-         String key = line.substring(0, pos).trim();
-         String value = line.substring(pos + 1).trim();
-
-         //Prüfe auf Zeilenumbruch
-         while((pos = value.indexOf("\\n")) > 0)
-         {
-            value = value.substring(0, pos) + "\n" + value.substring(pos + 2);
-         }
+      // The key ends at the first '=' that is not escaped
+      int64 pos = 0;
+      while(pos < line.size() && line.charAt(pos) != '=')pos += line.charAt(pos) == '\\' ? 2 : 1;
 
-         //Ersetze
-         int64 index = 0;
-         while(index < value.size())
-         {
-            Char c = value.charAt(index);
-
-            if(c == '\\' && index + 1 < value.size())
-            {
-               Char d = value.charAt(index + 1);
-               if(d == 't')
-               {
-                  value.setCharAt(index, '\t');
-                  value.deleteCharAt(index + 1);
-               }
-               if(d == '\\')
-               {
-                  value.deleteCharAt(index + 1);
-               }
-            }
-            index++;
-         }
+      if(pos > 0 && pos < line.size())
+      {
+         String key = unescape(line.substring(0, pos).trim());
+         String value = unescape(line.substring(pos + 1).trim());
 
          setValue(key, value);
       }
@@ -136,28 +163,8 @@ void Preferences::save(File file)
       while(keyiter->hasNext())
       {
          String key = *static_cast<String*>(keyiter->next());
-         String val = value(key);
-
-         //Ersetzungen
-         //Ersetze
-         uint32 index = 0;
-         while(index < val.size())
-         {
-            Char c = val.charAt(index);
-
-            if(c == '\\')
-            {
-               val.insert(index + 1, '\\');
-               index++;
-            }
-            else if(c == '\t')
-            {
-               val.setCharAt(index, '\\');
-               val.insert(index + 1, 't');
-               index++;
-            }
-            index++;
-         }
+         String val = escape(value(key), false);
+         key = escape(key, true);
 
          //Zeile bilden
          key.append('=');
@@ -193,11 +200,7 @@ bool Preferences::hasValue(const String& key)const
 
 void Preferences::setValue(const String& key, const String& value)
 {
-   String tmp = value;
-   tmp = tmp.replace("\r\n", "\\n");
-   tmp = tmp.replace("\r", "\\n");
-   tmp = tmp.replace("\n", "\\n");
-   String* actual = new String(tmp);
+   String* actual = new String(value);
    String* old = static_cast<String*>(put(key, actual));
    if(old != nullptr)delete old;
 }
-- 
2.43.0


From 9d42917949dc3d89c1967718deadf51b8792cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:51 +0000
Subject: [PATCH 110/113] fix: ZipFile rejects archives that refer to something
 outside of the file, knows comment and directories

---
 include/core/ZipFile.h |  8 ++++
 src/core/ZipFile.cpp   | 90 +++++++++++++++++++++++++++++++++---------
 2 files changed, 80 insertions(+), 18 deletions(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 286c452..13727b0 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -171,6 +171,14 @@ namespace jm
          //! The entries
          LinkedList mEntries;
 
+         //! The comment of the archive
+         String mComment;
+
+         /*!
+          \brief Forgets the entries and the comment
+          */
+         void clear();
+
    };
 
 
diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 2aa38d1..645150c 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -44,6 +44,11 @@ ZipFile::ZipFile(Stream* file): jm::Object(),
 }
 
 ZipFile::~ZipFile()
+{
+   clear();
+}
+
+void ZipFile::clear()
 {
    mEntries.rewind();
    while(mEntries.hasNext())
@@ -51,14 +56,19 @@ ZipFile::~ZipFile()
       ZipEntry* entry = static_cast<ZipEntry*>(mEntries.next());
       entry->release();
    }
+   mEntries.clear(nullptr);
+   mComment = kEmptyString;
 }
 
 void ZipFile::open()
 {
-   uint32 length = (uint32)mFile->size();
-   uint32 seek = length - 22;
+   // Nothing of an archive that was open before must remain
+   clear();
+
+   if(mFile->open(FileMode::kRead) != Status::eOK)throw jm::Exception(Tr("ZIP-File cannot be opened."));
 
-   mFile->open(FileMode::kRead);
+   int64 length = mFile->size();
+   int64 seek = length - 22;
 
    // If the file is empty, then we are done
    if(length == 0)return;
@@ -72,20 +82,20 @@ void ZipFile::open()
    uint32 signature;
    ByteArray eocd = ByteArray(22, 0);
    bool found = false;
-   do
+   while(seek >= 0)
    {
       mFile->seek(seek);
-      mFile->Stream::readFully(eocd);
+      if(mFile->Stream::readFully(eocd) != eocd.size())break;
       signature = jm::deserializeLEInt32((uint8*)eocd.constData(), 0);
-      seek--;
 
       if(signature == 0x06054b50)
       {
          found = true;
          break;
       }
+
+      seek--;
    }
-   while(seek > 0);
 
    if(!found)throw jm::Exception(Tr("ZIP-File is invalid."));
 
@@ -93,16 +103,37 @@ void ZipFile::open()
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
 
-   ByteArray dict = ByteArray(dictSize, 0);
-   mFile->seek(dictOffset);
-   mFile->Stream::readFully(dict);
+   int64 commentSize = jm::deserializeLEUInt16((uint8*)eocd.constData(), 20);
 
+   // The sizes are those of the file, they may refer to something outside of it
+   if((int64)dictOffset + dictSize > seek || seek + 22 + commentSize > length)
+   {
+      throw jm::Exception(Tr("ZIP-File is invalid."));
+   }
+
+   if(commentSize > 0)
+   {
+      ByteArray comment = ByteArray(commentSize, 0);
+      mFile->seek(seek + 22);
+      if(mFile->Stream::readFully(comment) != commentSize)throw jm::Exception(Tr("ZIP-File is invalid."));
+      mComment = jm::String(comment.constData(), commentSize);
+   }
+
+   ByteArray dict = ByteArray(dictSize, 0);
+   if(dictSize > 0)
+   {
+      mFile->seek(dictOffset);
+      if(mFile->Stream::readFully(dict) != dictSize)throw jm::Exception(Tr("ZIP-File is invalid."));
+   }
 
    uint32 index = 0;
    uint32 count = 0;
    while(count < recordCount)
    {
-      //signature = jm::DeserializeLEInt32(dict, index);
+      if((int64)index + 46 > dictSize)throw jm::Exception(Tr("ZIP-File is invalid."));
+      signature = jm::deserializeLEInt32((uint8*)dict.constData(), index);
+      if(signature != 0x02014b50)throw jm::Exception(Tr("ZIP-File is invalid."));
+
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
       uint32 fileNameLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 28);
@@ -110,6 +141,11 @@ void ZipFile::open()
       uint32 commentLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 32);
       uint32 offset = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 42);
 
+      if((int64)index + 46 + fileNameLength + extraFieldLength + commentLength > dictSize)
+      {
+         throw jm::Exception(Tr("ZIP-File is invalid."));
+      }
+
       jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
       jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
       jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
@@ -139,7 +175,7 @@ void ZipFile::close()
 
 jm::String ZipFile::comment()
 {
-   return kEmptyString;
+   return mComment;
 }
 
 ZipEntry* ZipFile::entry(const String& name)
@@ -167,12 +203,15 @@ uint32 ZipFile::entryCount() const
 
 jm::Stream* ZipFile::stream(const ZipEntry* entry)
 {
-   ByteArray input = ByteArray(entry->mCompressedSize, 0);
+   if(entry == nullptr)return nullptr;
+
+   int64 length = mFile->size();
+   if((int64)entry->mHeaderOffset + 30 > length)throw jm::Exception(Tr("ZIP-File is invalid."));
 
    //Local Header
    ByteArray localHeader = ByteArray(30, 0);
    mFile->seek(entry->mHeaderOffset);
-   mFile->Stream::readFully(localHeader);
+   if(mFile->Stream::readFully(localHeader) != 30)throw jm::Exception(Tr("ZIP-File is invalid."));
    uint32 signature = jm::deserializeLEUInt32((uint8*)localHeader.constData(), 0);
 
    if(signature != 0x04034b50)
@@ -185,23 +224,38 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
    uint32 el = jm::deserializeLEUInt16(localHeader, 28);
 
 
-   mFile->seek(entry->mHeaderOffset + 30 + fl + el);
-   mFile->Stream::readFully(input);
+   int64 dataOffset = (int64)entry->mHeaderOffset + 30 + fl + el;
+   if(dataOffset + entry->mCompressedSize > length)throw jm::Exception(Tr("ZIP-File is invalid."));
+
+   ByteArray input = ByteArray(entry->mCompressedSize, 0);
+   if(entry->mCompressedSize > 0)
+   {
+      mFile->seek(dataOffset);
+      if(mFile->Stream::readFully(input) != input.size())throw jm::Exception(Tr("ZIP-File is invalid."));
+   }
 
    uint8* buffer = nullptr;
    if(cm == 0) //Daten uncompressed
    {
+      if(entry->mCompressedSize != entry->mUncompressedSize)throw jm::Exception(Tr("ZIP-File is invalid."));
       buffer = new uint8[entry->mUncompressedSize];
       memcpy(buffer, input.constData(), entry->mCompressedSize);
    }
-   if(cm == 8) //Deflate
+   else if(cm == 8) //Deflate
    {
       Inflater inf = Inflater(true);
       int64 control;
       inf.SetInput(reinterpret_cast<uint8*>(input.data()), entry->mCompressedSize);
       // buffer is initialized and set by Inflater
       inf.Inflate(buffer, control);
+
+      if(control != (int64)entry->mUncompressedSize)
+      {
+         delete[] buffer;
+         throw jm::Exception(Tr("ZIP-File is invalid."));
+      }
    }
+   else throw jm::Exception(Tr("ZIP-File uses an unknown compression method."));
 
    return new MemoryStream(buffer, entry->mUncompressedSize, true);
 }
@@ -237,5 +291,5 @@ uint32 ZipEntry::uncompressedSize()const
 
 bool ZipEntry::isDirectory()const
 {
-   return false;
+   return mName.endsWith("/");
 }
-- 
2.43.0


From 62bf57675638e1204290d35981616ae2467fc330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:51 +0000
Subject: [PATCH 111/113] fix: ZipOutputFile replaces an older archive and
 keeps its temporary file beside it

---
 src/core/ZipOutputFile.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 2e17724..972399d 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -61,8 +61,10 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
 
 void ZipOutputFile::open()
 {
-   if(mFile->exists() == false)mFile->createNewFile();
-   mFile->open(FileMode::kReadWrite);
+   mEntries.clear(nullptr);
+
+   // The content of an existing file must not remain behind the new archive
+   if(mFile->open(FileMode::kWrite) != Status::eOK)throw Exception(Tr("ZIP-File cannot be opened."));
 }
 
 void ZipOutputFile::close()
@@ -161,11 +163,12 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 {
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
+   if(file->open(FileMode::kRead) != Status::eOK)throw Exception(Tr("File cannot be opened."));
    entry->mUncompressedSize = static_cast<uint32>(file->size());
-   file->open(FileMode::kRead);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
-   file->Stream::readFully(buffer);
+   int64 check = file->Stream::readFully(buffer);
    file->close();
+   if(check != buffer.size())throw Exception(Tr("File cannot be read."));
 
    mTemp->close();
    mTemp->remove();
@@ -219,10 +222,16 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
 
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
-   mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
+   // The temporary file is located beside the archive and belongs to this archive only
+   mTemp = new jm::File(mFile->absolutePath() + ".jmzipdata.tmp");
    mTemp->remove();
    mTemp->createNewFile();
-   mTemp->open(FileMode::kReadWrite);
+   if(mTemp->open(FileMode::kReadWrite) != Status::eOK)
+   {
+      delete mTemp;
+      mTemp = nullptr;
+      throw Exception(Tr("Temporary file cannot be opened."));
+   }
 
    mEntries.add(entry, nullptr);
 }
-- 
2.43.0


From 6abe41934b5e004a3b2be70206ff18704e87b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:38 +0000
Subject: [PATCH 112/113] fix: ZipOutputFile reports data that cannot be read
 back and gives back an unfinished entry

---
 include/core/ZipFile.h     |  5 +++++
 src/core/ZipOutputFile.cpp | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 13727b0..78be11b 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -196,6 +196,11 @@ namespace jm
          */
          explicit ZipOutputFile(File* file);
 
+         /*!
+         \brief Destructor. An entry that is not closed is discarded.
+         */
+         ~ZipOutputFile() override;
+
          /*!
          \brief Opens the file for writing.
          */
diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 972399d..5c78491 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -59,6 +59,17 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
    mTemp = nullptr;
 }
 
+ZipOutputFile::~ZipOutputFile()
+{
+   // An entry that was not completed
+   if(mTemp != nullptr)
+   {
+      mTemp->close();
+      mTemp->remove();
+      delete mTemp;
+   }
+}
+
 void ZipOutputFile::open()
 {
    mEntries.clear(nullptr);
@@ -133,11 +144,12 @@ void ZipOutputFile::closeEntry()
    entry->mUncompressedSize = static_cast<uint32>(mTemp->position());
    mTemp->seek(0);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
-   mTemp->Stream::readFully(buffer);
+   int64 check = mTemp->Stream::readFully(buffer);
    mTemp->close();
    mTemp->remove();
    delete mTemp;
    mTemp = nullptr;
+   if(check != buffer.size())throw Exception(Tr("Temporary file cannot be read."));
 
    //CRC berechnen
    entry->mCRC = CRC32(buffer.constData(), entry->mUncompressedSize);
@@ -228,6 +240,7 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    mTemp->createNewFile();
    if(mTemp->open(FileMode::kReadWrite) != Status::eOK)
    {
+      mTemp->remove();
       delete mTemp;
       mTemp = nullptr;
       throw Exception(Tr("Temporary file cannot be opened."));
-- 
2.43.0


From a164764aae2fa285830f5b2a5bd9b22a54787fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:58 +0000
Subject: [PATCH 113/113] fix: UndoManager does not record what a rollback
 exchanges

---
 src/core/UndoManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2d047fd..696aaf8 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -399,6 +399,10 @@ void UndoManager::rollback()
 
    if(mTransactionLevel == 0)
    {
+      // Exchanging the values must not be recorded again
+      const bool undoing = mUndoing;
+      mUndoing = true;
+
       UndoStep* step = mTransaction;
 
       // Undo all changes
@@ -409,6 +413,8 @@ void UndoManager::rollback()
          change = change->mPrev;
       }
 
+      mUndoing = undoing;
+
       delete mTransaction;
       mTransaction = nullptr;
       mTransactionStatus = Status::eOK;
-- 
2.43.0

