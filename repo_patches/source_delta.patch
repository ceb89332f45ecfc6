From 2eefc1fa15444ad2aaef3fa5b68a05add8bab4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 01/76] fix: write the bytes of a string slice, not only its
 length

serializeSubstring() returned right after the size prefix, so
PVString::serialize(buffer, flusher, offset, count) announced bytes it
never sent.  Also clip count without offset+count wrapping around.
---
 src/misc/serializeHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..e3428c5 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -83,10 +83,10 @@ namespace epics {
                 offset = 0;
             else*/ if(offset>value.length()) offset = value.length();
 
-            if(offset+count>value.length()) count = value.length()-offset;
+            if(count>value.length()-offset) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count==0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From 417ba6d454e9e977121aa47dbd5de7d005e99cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 02/76] fix: send and receive bit sets word by word

BitSet::serialize() asked the transport for the whole encoding at once,
which no transport with a bounded buffer can grant (serializeToVector()
hit an assert beyond 16 kB), and deserialize() sized itself from the
announced length before any data had arrived.
---
 src/misc/bitSet.cpp | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index d53aaeb..9c2ba70 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -325,40 +325,43 @@ namespace epics { namespace pvData {
             len++;
 
         SerializeHelper::writeSize(len, buffer, flusher);
-        flusher->ensureBuffer(len);
 
         n = len / 8;
-        for (uint32 i = 0; i < n; i++)
+        for (uint32 i = 0; i < n; i++) {
+            flusher->ensureBuffer(BYTES_PER_WORD);
             buffer->putLong(words[i]);
+        }
 
-        if (n < words.size())
+        if (n < words.size()) {
+            flusher->ensureBuffer(BYTES_PER_WORD);
             for (uint64 x = words[words.size() - 1]; x != 0; x >>= 8)
                 buffer->putByte((int8) (x & 0xff));
+        }
     }
 
     void BitSet::deserialize(ByteBuffer* buffer, DeserializableControl* control) {
 
-        uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
-
-        size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
-        words.resize(wordsInUse);
-
-        if (wordsInUse == 0)
-            return;
+        size_t bytes = SerializeHelper::readSize(buffer, control); // in bytes
+        if (bytes == (size_t)-1) // null
+            bytes = 0;
 
-        control->ensureData(bytes);
-
-        uint32 i = 0;
-        uint32 longs = bytes / 8;
-        while (i < longs)
-            words[i++] = buffer->getLong();
-
-        for (uint32 j = i; j < wordsInUse; j++)
-            words[j] = 0;
+        // don't trust the size, only allocate for data actually received
+        words_t received;
+        for (size_t longs = bytes / BYTES_PER_WORD; longs > 0; longs--) {
+            control->ensureData(BYTES_PER_WORD);
+            received.push_back(buffer->getLong());
+        }
 
-        for (uint32 remaining = (bytes - longs * 8), j = 0; j < remaining; j++)
-            words[i] |= (buffer->getByte() & 0xffLL) << (8 * j);
+        const uint32 remaining = bytes % BYTES_PER_WORD;
+        if (remaining > 0) {
+            control->ensureData(remaining);
+            uint64 word = 0;
+            for (uint32 j = 0; j < remaining; j++)
+                word |= (buffer->getByte() & 0xffULL) << (8 * j);
+            received.push_back(word);
+        }
 
+        words.swap(received);
         recalculateWordsInUse(); // Sender shouldn't add extra zero bytes, but don't fail it it does
     }
 
-- 
2.43.0


From 598da993f90407912d5de80abbdb1c67b6578ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 03/76] fix: refuse unknown status types when decoding a Status

The type byte was stored unchecked, leaving a status outside its
enumeration, which isOK()/maximize()/dump() then used (dump() reads past
the end of StatusTypeName).
---
 src/misc/status.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..fd06495 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -74,6 +74,8 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     }
     else
     {
+        if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+            throw std::runtime_error("Status: invalid status type");
         m_statusType = (StatusType)typeCode;
         m_message = SerializeHelper::deserializeString(buffer, flusher);
         m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
-- 
2.43.0


From a2bdc73b04774d1a72c7583537a4d4444e4f9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 04/76] fix: keep array data received by direct transfer

---
 src/factory/PVDataCreateFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6826e62..3ab7692 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,6 +330,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     if (!pbuffer->reverse<T>())
         if (pcontrol->directDeserialize(pbuffer, (char*)cur, size, sizeof(T)))
         {
+        value = freeze(nextvalue);
         // inform about the change?
         PVField::postPut();
         return;
-- 
2.43.0


From dd162be628cafc9e45dfcf5175f53376be247292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 05/76] fix: clip slices of structure and union arrays to the
 existing elements

---
 src/factory/PVStructureArray.cpp | 3 ++-
 src/factory/PVUnionArray.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 66577b5..ac03859 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -191,10 +191,11 @@ void PVStructureArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
-        SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+        SerializeHelper::writeSize(count, pbuffer, pflusher);
     else if (count != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 151bc5b..b7845a1 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -190,10 +190,11 @@ void PVUnionArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
-        SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+        SerializeHelper::writeSize(count, pbuffer, pflusher);
     else if (count != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-- 
2.43.0


From 3f1f1e418b243d6dc1a26d1a4eb83ce11ef4683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 06/76] fix: refuse to serialize part of a fixed size string
 array

---
 src/factory/PVDataCreateFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3ab7692..c2d207e 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -440,9 +440,10 @@ void PVValueArray<string>::serialize(ByteBuffer *pbuffer,
     const_svector temp(value);
     temp.slice(offset, count);
 
-    // TODO if fixed count == getArray()->getMaximumCapacity()
     if (this->getArray()->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+    else if (temp.size() != this->getArray()->getMaximumCapacity())
+        throw std::length_error("fixed array cannot be partially serialized");
 
     const string * pvalue = temp.data();
     for(size_t i = 0; i<temp.size(); i++) {
-- 
2.43.0


From 7bca5095b217edec824765629a6c0b710e7a0eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 07/76] fix: refuse a union selector that is out of range when
 deserializing

---
 src/factory/PVUnion.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index a52687b..f52c5d5 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -158,21 +158,27 @@ void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
     }
     else
     {
-        int32 previousSelector = selector;
-        selector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
-        if (selector != UNDEFINED_INDEX)
+        const size_t next = SerializeHelper::readSize(pbuffer, pcontrol);
+        if (next != size_t(-1))
         {
-            if (selector != previousSelector)
+            if (next >= unionPtr->getNumberFields())
+                throw std::out_of_range("union selector out of range");
+            const int32 index = static_cast<int32>(next);
+            if (selector != index)
             {
-                FieldConstPtr field = unionPtr->getField(selector);
+                FieldConstPtr field = unionPtr->getField(index);
                 // try to reuse existing field instance
                 if (!value.get() || *value->getField() != *field)
                     value = pvDataCreate->createPVField(field);
+                selector = index;
             }
             value->deserialize(pbuffer, pcontrol);
         }
         else
+        {
+            selector = UNDEFINED_INDEX;
             value.reset();
+        }
     }
 }
 
-- 
2.43.0


From ed9b6c942b5998ff9e96e978d176077123ccdb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 08/76] fix: refuse array types whose decoded element is not a
 structure or union

---
 src/factory/FieldCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 6c5f9b0..3eaeb2c 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1561,7 +1561,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.structureArray;
-            StructureConstPtr elementStructure = std::tr1::static_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            StructureConstPtr elementStructure = std::tr1::dynamic_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            if (!elementStructure)
+                throw std::invalid_argument("structureArray element is not a structure");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new StructureArray(elementStructure));
             Helper::cache(this, sp);
@@ -1574,7 +1576,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.unionArray;
-            UnionConstPtr elementUnion = std::tr1::static_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            UnionConstPtr elementUnion = std::tr1::dynamic_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            if (!elementUnion)
+                throw std::invalid_argument("unionArray element is not a union");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new UnionArray(elementUnion));
             Helper::cache(this, sp);
-- 
2.43.0


From aecbc3b48d9a54d71101379b39dd42e0f65b3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 09/76] fix: refuse null sizes as bounds and field counts in
 type descriptions

---
 src/factory/FieldCreateFactory.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 3eaeb2c..f256677 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -247,8 +247,9 @@ static StructureConstPtr deserializeStructureField(const FieldCreate* fieldCreat
 {
     string id = SerializeHelper::deserializeString(buffer, control);
     const std::size_t size = SerializeHelper::readSize(buffer, control);
-    FieldConstPtrArray fields; fields.reserve(size);
-    StringArray fieldNames; fieldNames.reserve(size);
+    // the size is not trusted to allocate memory before the fields arrive
+    FieldConstPtrArray fields;
+    StringArray fieldNames;
     for (std::size_t i = 0; i < size; i++)
     {
         fieldNames.push_back(SerializeHelper::deserializeString(buffer, control));
@@ -286,8 +287,9 @@ static UnionConstPtr deserializeUnionField(const FieldCreate* fieldCreate, ByteB
 {
     string id = SerializeHelper::deserializeString(buffer, control);
     const std::size_t size = SerializeHelper::readSize(buffer, control);
-    FieldConstPtrArray fields; fields.reserve(size);
-    StringArray fieldNames; fieldNames.reserve(size);
+    // the size is not trusted to allocate memory before the fields arrive
+    FieldConstPtrArray fields;
+    StringArray fieldNames;
     for (std::size_t i = 0; i < size; i++)
     {
         fieldNames.push_back(SerializeHelper::deserializeString(buffer, control));
@@ -1512,6 +1514,8 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
             // bounded string
 
             size_t size = SerializeHelper::readSize(buffer, control);
+            if (size == size_t(-1))
+                throw std::invalid_argument("invalid bounded string length");
 
             std::tr1::shared_ptr<Field> sp(
                         new BoundedString(size));
@@ -1528,6 +1532,8 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
         bool isFixed = (scalarOrArray == 0x18);
 
         size_t size = (isVariable ? 0 : SerializeHelper::readSize(buffer, control));
+        if (size == size_t(-1))
+            throw std::invalid_argument("invalid array size");
 
         if (typeCode < 0x80)
         {
-- 
2.43.0


From 6ac13c380e5360f7e827d534ad7c1cbd9cb3190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 10/76] fix: enforce string and array bounds when deserializing

---
 src/factory/PVDataCreateFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index c2d207e..bc1172a 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -128,8 +128,8 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
-    storage.value = SerializeHelper::deserializeString(pbuffer, pflusher);
-    // TODO: check for violations of maxLength?
+    // throws if longer than a bounded string allows
+    storage.store(SerializeHelper::deserializeString(pbuffer, pflusher));
 }
 
 PVString::PVString(ScalarConstPtr const & scalar)
@@ -319,6 +319,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
@@ -413,6 +414,7 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
 
-- 
2.43.0


From c8f58c44276c75bb217734fe14b114bc3c9441ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 11/76] fix: drop the previous message when decoding the OK
 status

---
 src/misc/status.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index fd06495..869b401 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -64,13 +64,9 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     int8 typeCode = buffer->getByte();
     if (typeCode == (int8)-1)
     {
-       // in most of the cases status will be OK, we statistically optimize
-       if (m_statusType != STATUSTYPE_OK)
-       {
-           m_statusType = STATUSTYPE_OK;
-           m_message.clear();
-           m_stackDump.clear();
-       }
+       m_statusType = STATUSTYPE_OK;
+       m_message.clear();
+       m_stackDump.clear();
     }
     else
     {
-- 
2.43.0


From f0c0690d9a0de4a3de4842d9fbdb6310696a5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 12/76] fix: compare a variant union holding a value with an
 empty one

---
 src/factory/Compare.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 1e53608..ad1e6a9 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -275,7 +275,7 @@ bool compareField(const PVUnion* left, const PVUnion* right)
         if (lval.get() == 0)
             return right->get().get() == 0;
         else
-            return *(lval.get()) == *(right->get().get());
+            return right->get().get() != 0 && *(lval.get()) == *(right->get().get());
     }
     else
     {
-- 
2.43.0


From c0d5d074fd5e9fd07eff8e17f299562b0b3bbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 13/76] fix: compare bounds of strings and scalar arrays

---
 src/factory/Compare.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index ad1e6a9..b51a766 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -69,14 +69,22 @@ bool compare(const Scalar& a, const Scalar& b)
 {
     if(&a==&b)
         return true;
-    return a.getScalarType()==b.getScalarType();
+    if(a.getScalarType()!=b.getScalarType())
+        return false;
+    const BoundedString *A=dynamic_cast<const BoundedString*>(&a),
+                        *B=dynamic_cast<const BoundedString*>(&b);
+    if(!A || !B)
+        return !A && !B;
+    return compare(*A, *B);
 }
 
 bool compare(const ScalarArray& a, const ScalarArray& b)
 {
     if(&a==&b)
         return true;
-    return a.getElementType()==b.getElementType();
+    return a.getElementType()==b.getElementType()
+        && a.getArraySizeType()==b.getArraySizeType()
+        && a.getMaximumCapacity()==b.getMaximumCapacity();
 }
 
 bool compare(const Structure& a, const Structure& b)
@@ -164,7 +172,7 @@ bool compareArray(const PVValueArray<T>* left, const PVValueArray<T>* right)
 bool compareField(const PVScalar* left, const PVScalar* right)
 {
     ScalarType lht = left->getScalar()->getScalarType();
-    if(lht != right->getScalar()->getScalarType())
+    if(*left->getScalar() != *right->getScalar())
         return false;
     switch(lht) {
 #define OP(ENUM, TYPE) case ENUM: return compareScalar(static_cast<const PVScalarValue<TYPE>*>(left), static_cast<const PVScalarValue<TYPE>*>(right))
@@ -191,7 +199,7 @@ bool compareField(const PVScalar* left, const PVScalar* right)
 bool compareField(const PVScalarArray* left, const PVScalarArray* right)
 {
     ScalarType lht = left->getScalarArray()->getElementType();
-    if(lht != right->getScalarArray()->getElementType())
+    if(*left->getScalarArray() != *right->getScalarArray())
         return false;
 
     if(left->getLength()!=right->getLength())
-- 
2.43.0


From 6dc18b55cefd48718893e182136ae39da9344ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 14/76] fix: keep the elements when a structure or union array
 is set to its current length

---
 src/factory/PVUnionArray.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index b7845a1..af4cf0b 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -123,13 +123,13 @@ void PVUnionArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-    if (length == value.size())
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
     if (length < value.size()) {
         value.slice(0, length);
     } else {
-- 
2.43.0


From 7d4cf1e79f939263c4b6498177f7c7aa4450eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 15/76] fix: refuse to remove a range that wraps around from a
 structure or union array

---
 src/factory/PVStructureArray.cpp | 2 +-
 src/factory/PVUnionArray.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index ac03859..ababd05 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -46,7 +46,7 @@ bool PVStructureArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index af4cf0b..a38275b 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -46,7 +46,7 @@ bool PVUnionArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
-- 
2.43.0


From 6e2173d7d3d5d2baae27c6fa81892a9a09d2fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 16/76] fix: clone a structure instead of taking over the
 fields of the original

---
 src/factory/PVDataCreateFactory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index bc1172a..62af409 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -520,9 +520,7 @@ PVFieldPtr PVDataCreate::createPVField(PVFieldPtr const & fieldToClone)
          {
              PVStructurePtr pvStructure
                    = static_pointer_cast<PVStructure>(fieldToClone);
-             StringArray const & fieldNames = pvStructure->getStructure()->getFieldNames();
-             PVFieldPtrArray const & pvFieldPtrArray = pvStructure->getPVFields();
-             return createPVStructure(fieldNames,pvFieldPtrArray);
+             return createPVStructure(pvStructure);
          }
      case structureArray:
          {
-- 
2.43.0


From 8a5e53948f50a4b4a727fd51f5043e40b16f5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 17/76] fix: clone a union that holds no value

---
 src/factory/PVDataCreateFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 62af409..2ff954a 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -712,7 +712,7 @@ PVUnionPtr PVDataCreate::createPVUnion(PVUnionPtr const & unionToClone)
 {
     PVUnionPtr punion(new PVUnion(unionToClone->getUnion()));
     // set cloned value
-    punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
+    punion->copyUnchecked(*unionToClone);
     return punion;
 }
 
-- 
2.43.0


From e842d20b4396b53f925d40611f39867dc4951cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 18/76] fix: keep the bounds when cloning a bounded string or
 array

---
 src/factory/PVDataCreateFactory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 2ff954a..d12cfc0 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -592,8 +592,7 @@ PVScalarPtr PVDataCreate::createPVScalar(ScalarType scalarType)
 
 PVScalarPtr PVDataCreate::createPVScalar(PVScalarPtr const & scalarToClone)
 {
-     ScalarType scalarType = scalarToClone->getScalar()->getScalarType();
-     PVScalarPtr pvScalar = createPVScalar(scalarType);
+     PVScalarPtr pvScalar = createPVScalar(scalarToClone->getScalar());
      pvScalar->copyUnchecked(*scalarToClone);
      return pvScalar;
 }
@@ -642,7 +641,7 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
         PVScalarArrayPtr const & arrayToClone)
 {
      PVScalarArrayPtr pvArray = createPVScalarArray(
-          arrayToClone->getScalarArray()->getElementType());
+          arrayToClone->getScalarArray());
      pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
-- 
2.43.0


From 5bdb24adea2f6fdc7a465f11523684139122c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 19/76] fix: create fixed size arrays with their size

---
 src/factory/PVDataCreateFactory.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index d12cfc0..d1475eb 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -190,8 +190,13 @@ template<typename T>
 PVValueArray<T>::PVValueArray(ScalarArrayConstPtr const & scalarArray)
     :base_t(scalarArray)
     ,value()
-
-{}
+{
+    // a fixed size array never has another length
+    if(scalarArray->getArraySizeType()==Array::fixed) {
+        svector initial(scalarArray->getMaximumCapacity(), T());
+        value = freeze(initial);
+    }
+}
 
 PVValueArray<PVStructurePtr>::PVValueArray(StructureArrayConstPtr const & structureArray)
     :base_t(structureArray)
-- 
2.43.0


From 2859e54feac1cf14fd408c771034e9f1df0715e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 20/76] fix: keep the elements when a structure array is set to
 its current length

---
 src/factory/PVStructureArray.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index ababd05..722d6aa 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -123,14 +123,14 @@ void PVStructureArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
 
-    if (length == value.size())
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
     if (length < value.size()) {
         value.slice(0, length);
     } else {
-- 
2.43.0


From 5d54dc5340e87babd6468205923349cad6b9034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 21/76] fix: normalize a time stamp set from milliseconds
 before the epoch

---
 src/property/timeStamp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..55b87ad 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
-- 
2.43.0


From b10029f40389c147e0eda4ece04a7ddcf2471013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 22/76] fix: normalize a time stamp after adding fractional
 seconds

---
 src/property/timeStamp.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 55b87ad..ba98318 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -164,14 +164,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From e87d82da0fc8e37a62aa77274ed329a6f151a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 23/76] fix: order time stamps that are centuries apart

---
 src/property/timeStamp.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index ba98318..78e1c81 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -91,10 +91,9 @@ int64 TimeStamp::diffInt(TimeStamp const & left,TimeStamp  const&right )
     int32 nl = left.nanoseconds;
     int64 sr = right.secondsPastEpoch;
     int32 nr = right.nanoseconds;
-    int64 sdiff = sl - sr;
-    sdiff *= nanoSecPerSec;
-    sdiff += nl - nr;
-    return sdiff;
+    // only the sign matters, the difference in nanoseconds may not fit
+    if(sl!=sr) return sl<sr ? -1 : 1;
+    return nl - nr;
 }
 
 bool TimeStamp::operator==(TimeStamp const &right) const
-- 
2.43.0


From 351eebac66209604632fda5eb1e3124bcaed7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 24/76] fix: report an attached display as attached

---
 src/property/pvDisplay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index 0027cb7..df207c5 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -62,7 +62,7 @@ void PVDisplay::detach()
 }
 
 bool PVDisplay::isAttached() {
-    if(pvDescription.get()) return false;
+    if(pvDescription.get()==NULL) return false;
     return true;
 }
 
-- 
2.43.0


From 765ee6b1d52435789acbd2f0588922df5cab4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 25/76] fix: report mutable choices as mutable

---
 src/property/pvEnumerated.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 5aa61d0..45d2b9a 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -86,7 +86,7 @@ bool PVEnumerated::choicesMutable()
     if(pvIndex.get()==NULL ) {
          throw std::logic_error(notAttached);
     }
-    return pvChoices->isImmutable();
+    return !pvChoices->isImmutable();
 }
 
 int32 PVEnumerated::getNumberChoices()
-- 
2.43.0


From 486d833b6399ad3f259ef316186b9f611c8de2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 26/76] fix: attach a time stamp to the new structure, not to
 the previous one

---
 src/property/pvTimeStamp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 07976bf..2f0f17e 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -28,6 +28,7 @@ bool PVTimeStamp::attach(PVFieldPtr const & pvField)
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr xxx = static_pointer_cast<PVStructure>(pvField);
     PVStructure* pvStructure = xxx.get();
+    detach();
     while(true) {
         PVLongPtr pvLong = pvStructure->getSubField<PVLong>("secondsPastEpoch");
         if(pvLong) {
-- 
2.43.0


From bfc8a88bcc12011c6baad66ba37286679abbaa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 27/76] fix: detach property helpers when attaching to a field
 that is no structure

---
 src/property/pvAlarm.cpp      | 5 ++++-
 src/property/pvControl.cpp    | 5 ++++-
 src/property/pvDisplay.cpp    | 5 ++++-
 src/property/pvEnumerated.cpp | 5 ++++-
 src/property/pvTimeStamp.cpp  | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 213d4d0..335ecf1 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -25,7 +25,10 @@ string PVAlarm::notAttached("Not attached to an alarm structure");
 
 bool PVAlarm::attach(PVFieldPtr const & pvField)
 {
-    if(pvField->getField()->getType()!=structure) return false;
+    if(pvField->getField()->getType()!=structure) {
+        detach();
+        return false;
+    }
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvSeverity = pvStructure->getSubField<PVInt>("severity");
     if(pvSeverity.get()==NULL) return false;
diff --git a/src/property/pvControl.cpp b/src/property/pvControl.cpp
index be023e1..4753526 100644
--- a/src/property/pvControl.cpp
+++ b/src/property/pvControl.cpp
@@ -25,7 +25,10 @@ string PVControl::notAttached("Not attached to an control structure");
 
 bool PVControl::attach(PVFieldPtr const & pvField)
 {
-    if(pvField->getField()->getType()!=structure) return false;
+    if(pvField->getField()->getType()!=structure) {
+        detach();
+        return false;
+    }
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvLow = pvStructure->getSubField<PVDouble>("limitLow");
     if(pvLow.get()==NULL) return false;
diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index df207c5..100211d 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -25,7 +25,10 @@ string PVDisplay::notAttached("Not attached to an display structure");
 
 bool PVDisplay::attach(PVFieldPtr const & pvField)
 {
-    if(pvField->getField()->getType()!=structure) return false;
+    if(pvField->getField()->getType()!=structure) {
+        detach();
+        return false;
+    }
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvDescription = pvStructure->getSubField<PVString>("description");
     if(pvDescription.get()==NULL) return false;
diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 45d2b9a..898814c 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -25,7 +25,10 @@ string PVEnumerated::notAttached("Not attached to an enumerated structure");
 
 bool PVEnumerated::attach(PVFieldPtr const & pvField)
 {
-    if(pvField->getField()->getType()!=structure) return false;
+    if(pvField->getField()->getType()!=structure) {
+        detach();
+        return false;
+    }
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvIndex = pvStructure->getSubField<PVInt>("index");
     if(pvIndex.get()==NULL) return false;
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 2f0f17e..c969d74 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -25,7 +25,10 @@ string PVTimeStamp::notAttached("Not attached to a timeStamp structure");
 
 bool PVTimeStamp::attach(PVFieldPtr const & pvField)
 {
-    if(pvField->getField()->getType()!=structure) return false;
+    if(pvField->getField()->getType()!=structure) {
+        detach();
+        return false;
+    }
     PVStructurePtr xxx = static_pointer_cast<PVStructure>(pvField);
     PVStructure* pvStructure = xxx.get();
     detach();
-- 
2.43.0


From 5648c8aad19791dbb8b20f792a230a6a67bc4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 28/76] fix: set a time stamp whose fields are not normalized

---
 src/property/pvTimeStamp.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index c969d74..cd75e75 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -77,20 +77,19 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
         throw std::logic_error(notAttached);
     }
     if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
-    TimeStamp current;
-    get(current);
+    // compare with the fields themselves, get() would normalize them
     bool returnValue = false;
-    if(current.getSecondsPastEpoch()!=timeStamp.getSecondsPastEpoch())
+    if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
     {
         pvSecs->put(timeStamp.getSecondsPastEpoch());
         returnValue = true;
     }
-    if(current.getNanoseconds()!=timeStamp.getNanoseconds())
+    if(pvNano->get()!=timeStamp.getNanoseconds())
     {
         pvNano->put(timeStamp.getNanoseconds());
         returnValue = true;
     }
-    if(current.getUserTag()!=timeStamp.getUserTag())
+    if(pvUserTag->get()!=timeStamp.getUserTag())
     {
         pvUserTag->put(timeStamp.getUserTag());
         returnValue = true;
-- 
2.43.0


From 9aa36d49eed18182326f085aa8f0896ccbd4423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 29/76] fix: set an alarm whose fields hold undefined codes

---
 src/property/pvAlarm.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 335ecf1..5733f9d 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -75,20 +75,19 @@ bool PVAlarm::set(Alarm const & alarm)
         throw std::logic_error(notAttached);
     }
     if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
-    Alarm current;
-    get(current);
+    // compare with the fields themselves, get() throws for undefined codes
     bool returnValue = false;
-    if(current.getSeverity()!=alarm.getSeverity())
+    if(pvSeverity->get()!=alarm.getSeverity())
     {
         pvSeverity->put(alarm.getSeverity());
         returnValue = true;
     }
-    if(current.getStatus()!=alarm.getStatus())
+    if(pvStatus->get()!=alarm.getStatus())
     {
         pvStatus->put(alarm.getStatus());
         returnValue = true;
     }
-    if(current.getMessage()!=alarm.getMessage())
+    if(pvMessage->get()!=alarm.getMessage())
     {
         pvMessage->put(alarm.getMessage());
         returnValue = true;
-- 
2.43.0


From 27badb77dfe55b2bf41efa5bc8b0a33f200bc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 30/76] fix: never change an immutable alarm status or user tag

---
 src/property/pvAlarm.cpp     | 2 +-
 src/property/pvTimeStamp.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 5733f9d..6692aba 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -74,7 +74,7 @@ bool PVAlarm::set(Alarm const & alarm)
     if(pvSeverity.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
+    if(pvSeverity->isImmutable() || pvStatus->isImmutable() || pvMessage->isImmutable()) return false;
     // compare with the fields themselves, get() throws for undefined codes
     bool returnValue = false;
     if(pvSeverity->get()!=alarm.getSeverity())
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index cd75e75..d417857 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -76,7 +76,7 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
     if(pvSecs.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
+    if(pvSecs->isImmutable() || pvNano->isImmutable() || pvUserTag->isImmutable()) return false;
     // compare with the fields themselves, get() would normalize them
     bool returnValue = false;
     if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
-- 
2.43.0


From 71d2fdc337378b8a044a3d850a6021d766188429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 31/76] fix: do not queue a periodic timer callback twice when
 it is rescheduled while it runs

---
 src/misc/timer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 14a207b..83b49a2 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -109,14 +109,19 @@ void Timer::run()
             work->onList = false;
             queue.pop_front();
 
+            // may be changed if re-scheduled while callback() runs
+            const epicsTime timeToRun(work->timeToRun);
+            const double period = work->period;
+
             {
                 epicsGuardRelease<epicsMutex> U(G);
 
                 work->callback();
             }
 
-            if(work->period > 0.0 && alive) {
-                work->timeToRun += work->period;
+            if(period > 0.0 && alive && !work->onList) {
+                work->timeToRun = timeToRun + period;
+                work->period = period;
                 addElement(work);
             }
 
-- 
2.43.0


From 96132e357602c7f7d2811776e331486f6b67ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 32/76] fix: wait for the next timer callback no longer than
 until it is due

---
 src/misc/timer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 83b49a2..f3858e3 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -128,6 +128,12 @@ void Timer::run()
             // don't update 'now' until all expired jobs run
 
         } else {
+            // the jobs just executed may have taken some time
+            now = epicsTime::getCurrent();
+            waitfor = queue.front()->timeToRun - now;
+            if(waitfor <= 0)
+                continue;
+
             waiting = true;
             // wait for first un-expired
             epicsGuardRelease<epicsMutex> U(G);
-- 
2.43.0


From 5dd4d9fa1f9410a5adef830b5bb70cc65575681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 33/76] fix: print the counts in epicsRefSnapshotCurrent

---
 src/misc/reftrack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 7c1a88a..13f6ee3 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -270,7 +270,8 @@ char* epicsRefSnapshotCurrent()
         epics::RefSnapshot snap;
         snap.update();
         std::ostringstream strm;
-        strm<<snap;
+        // relative to nothing, so that all non-zero counts are printed
+        strm<<(snap-epics::RefSnapshot());
         std::string str = strm.str();
         char *ret = (char*)malloc(str.length()+1);
         if(ret)
-- 
2.43.0


From 5011492df1119d37e35fabf6d873903ff0bea274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 34/76] fix: forget an unused wakeup when the reference monitor
 restarts

---
 src/misc/reftrack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 13f6ee3..d34ceb8 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -204,6 +204,8 @@ void RefMonitor::start(double period)
 
     impl->done = false;
     impl->period = period;
+    // forget the wakeup of a stop() which came before the worker began to run
+    impl->wakeup.tryWait();
     impl->worker.reset(new epicsThread(*impl,
                                        "RefMonitor",
                                        epicsThreadGetStackSize(epicsThreadStackBig),
-- 
2.43.0


From 798747b70af39dbfa23b06b968ce90abc78a05bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 35/76] fix: make owner_before of the debug shared_ptr compile

---
 src/misc/pv/debugPtr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 3ce0771..96243e4 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -203,9 +203,9 @@ public:
     bool operator<(const shared_ptr<T>& o) const { return real<o.real; }
 
     template<typename A>
-    bool owner_before(const shared_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const shared_ptr<A>& o) { return real.owner_before(o.real); }
     template<typename A>
-    bool owner_before(const weak_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const weak_ptr<A>& o) { return real.owner_before(o.real); }
 
     template<typename TO, typename FROM>
     friend
-- 
2.43.0


From 58895b24d28a6e2a66b2b49af8b82b6c03305b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 36/76] fix: do not register null results of debug casts and
 lock as references

---
 src/misc/pv/debugPtr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 96243e4..e42fc71 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -124,9 +124,9 @@ class shared_ptr : public shared_ptr_base {
     template<typename A>
     friend class weak_ptr;
 
-    // ctor for casts
+    // ctor for casts and weak_ptr::lock().  Only a non-NULL result is a reference
     shared_ptr(const real_type& r, const ptr_base::track_t& t)
-        :shared_ptr_base(t), real(r)
+        :shared_ptr_base(r ? t : ptr_base::track_t()), real(r)
     {track_new();}
 public:
     typedef typename real_type::element_type element_type;
-- 
2.43.0


From 99abeb5b7158f8eda946aed68aba80a2f608b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 37/76] fix: track debug pointers made from a unique_ptr

---
 src/misc/pv/debugPtr.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index e42fc71..57905a8 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -153,7 +153,12 @@ public:
 
     // takeover from unique_ptr
     template<typename A>
-    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real(a.release()) {track_new();}
+    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base() {
+        A* p = a.get();
+        real = std::move(a);
+        track_new(p);
+        do_enable_shared_from_this(*this, p);
+    }
 
     ~shared_ptr() {}
 
-- 
2.43.0


From 2e260fbf056d0b0657c71927ce18b27deb864308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 38/76] fix: allow null for debug pointers to types with
 shared_from_this

---
 src/misc/pv/debugPtr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 57905a8..9d3cc0d 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -316,6 +316,8 @@ do_enable_shared_from_this(const shared_ptr<Store>& dest,
                             enable_shared_from_this<Actual>* self
                             )
 {
+    if(!self)
+        return;
     shared_ptr<Actual> actual(dynamic_pointer_cast<Actual>(dest));
     if(!actual)
         throw std::logic_error("epics::debug::enabled_shared_from_this fails");
-- 
2.43.0


From 2ffe1d5c042c176951a0b470be02ee04550db348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 39/76] fix: keep both references when debug pointers to one
 object are swapped

---
 src/misc/debugPtr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 3cd3210..70056e1 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -73,6 +73,9 @@ void shared_ptr_base::track_clear()
 
 void shared_ptr_base::swap(shared_ptr_base &o)
 {
+    // both refer to the same object (or to none), and remain registered
+    if(track==o.track)
+        return;
     // we cheat a bit here to avoid lock order, and to lock only twice
     if(track) {
         Guard G(track->mutex);
-- 
2.43.0


From eccde2bf633567f8e599929801db0e75b921a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 40/76] fix: assign debug pointers by ownership, not by address

---
 src/misc/pv/debugPtr.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 9d3cc0d..5205d94 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -171,10 +171,8 @@ public:
     }
     template<typename A>
     shared_ptr& operator=(const shared_ptr<A>& o) {
-        if(get()!=o.get()) {
-            real = o.real;
-            track_assign(o);
-        }
+        real = o.real;
+        track_assign(o);
         return *this;
     }
 
-- 
2.43.0


From 430401250c1d0a831f9483b4c9436f2d5d16cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 41/76] fix: do not copy the self reference of debug
 enable_shared_from_this

---
 src/misc/pv/debugPtr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 5205d94..6564e9f 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -302,6 +302,12 @@ class enable_shared_from_this {
     do_enable_shared_from_this(const shared_ptr<Store>& dest,
                                 enable_shared_from_this<Actual>* self
                                 );
+protected:
+    enable_shared_from_this() noexcept {}
+    // the copy is another object
+    enable_shared_from_this(const enable_shared_from_this&) noexcept {}
+    enable_shared_from_this& operator=(const enable_shared_from_this&) noexcept { return *this; }
+    ~enable_shared_from_this() {}
 public:
     shared_ptr<Base> shared_from_this() const {
         return shared_ptr<Base>(xxInternalSelf);
-- 
2.43.0


From caed669fa2bb9e460d782e7e9db926cc23424e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 42/76] fix: shared_vector::at() accepts the index size()

at(size()) returned a reference one past the end instead of throwing std::out_of_range
---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..6648087 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -623,7 +623,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From 09eab5682affe79f2535a8cf02e56851cde49d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 43/76] fix: shared_vector::reserve() drops elements of a
 shared array

reserve(i) with i < size() on a vector which shares its data truncated it to i elements
---
 src/misc/pv/sharedVector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 6648087..38d5030 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -428,9 +428,9 @@ public:
     void reserve(size_t i) {
         if(this->unique() && i<=this->m_total)
             return;
-        size_t new_count = this->m_count;
-        if(new_count > i)
-            new_count = i;
+        const size_t new_count = this->m_count;
+        if(i < new_count)
+            i = new_count; // never drop elements
         _E_non_const* temp=new _E_non_const[i];
         try{
             std::copy(begin(), begin()+new_count, temp);
-- 
2.43.0


From d81f32248046f8c7eee1b7dc0008da5c0630d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 44/76] fix: shared_vector::push_back() and resize() of an own
 element

push_back(v[i]) and resize(n, v[i]) of a vector of strings used the element after the storage holding it was freed
---
 src/misc/pv/sharedVector.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 38d5030..33ba9c8 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -497,10 +497,13 @@ public:
      */
     void resize(size_t i, param_type v) {
         size_t oldsize=this->size();
-        resize(i);
-        if(this->size()>oldsize) {
-            std::fill(begin()+oldsize, end(), v);
+        if(i<=oldsize) {
+            resize(i);
+            return;
         }
+        const _E_non_const temp(v); // v may be an element of this vector
+        resize(i);
+        std::fill(begin()+oldsize, end(), temp);
     }
 
     /** @brief Ensure (by copying) that this shared_vector is the sole
@@ -601,8 +604,9 @@ public:
 
     void push_back(param_type v)
     {
+        const _E_non_const temp(v); // v may be an element of this vector
         _push_resize();
-        back() = v;
+        back() = temp;
     }
 
     void pop_back()
-- 
2.43.0


From 4fdf5c897ad4e10ba2b3fd45d0d46a67df134ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 45/76] fix: thaw() of a shared slice

thaw() of a vector sharing its data with offset != 0 copied the elements and then applied the offset again, so it showed the wrong elements and reached past the new storage
---
 src/misc/pv/sharedVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 33ba9c8..fe21f4d 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -160,6 +160,7 @@ namespace detail {
             ,m_total(O.m_total)
         {
             O.make_unique();
+            m_offset = O.m_offset; // changed by copying
 #if __cplusplus >= 201103L
             m_sdata = std::move(std::tr1::const_pointer_cast<E>(O.m_sdata));
 #else
-- 
2.43.0


From 929ad3e2084e84f22b7910fa0461da15e89b4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 46/76] fix: FieldBuilder ignores the identifier of an empty
 union

createUnion() of a builder with an identifier and no fields returned the variant union "any" instead of refusing the identifier
---
 src/factory/FieldCreateFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index f256677..97c6696 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1074,7 +1074,7 @@ FieldBuilderPtr FieldBuilder::addArray(string const & name, FieldConstPtr const
 FieldConstPtr FieldBuilder::createFieldInternal(Type type)
 {
     // minor optimization
-    if (fieldNames.size() == 0 && type == union_)
+    if (fieldNames.size() == 0 && type == union_ && !idSet)
         return fieldCreate->createVariantUnion();
 
     if (type == structure)
-- 
2.43.0


From 6a131ef8a5f635a4284ef8e6c6e0d38e93ee0cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 47/76] fix: creating an array type of a null element type

createStructureArray(), createUnionArray() and FieldBuilder::addArray() dereferenced a null element type instead of refusing it
---
 src/factory/FieldCreateFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 97c6696..8f10f95 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1045,6 +1045,8 @@ FieldBuilderPtr FieldBuilder::addBoundedArray(string const & name, ScalarType sc
 
 FieldBuilderPtr FieldBuilder::addArray(string const & name, FieldConstPtr const & element)
 {
+    if (!element)
+        THROW_EXCEPTION2(std::invalid_argument, "NULL array element type : "+name);
     FieldConstPtr fld;
     switch (element->getType())
     {
@@ -1351,6 +1353,8 @@ StructureConstPtr FieldCreate::createStructure (
 StructureArrayConstPtr FieldCreate::createStructureArray(
     StructureConstPtr const & structure) const
 {
+     if(!structure)
+         THROW_EXCEPTION2(std::invalid_argument, "Can't construct StructureArray, NULL structure");
      std::tr1::shared_ptr<StructureArray> sp(new StructureArray(structure));
      Helper::cache(this, sp);
      return sp;
@@ -1384,6 +1388,8 @@ UnionConstPtr FieldCreate::createVariantUnion () const
 UnionArrayConstPtr FieldCreate::createUnionArray(
     UnionConstPtr const & punion) const
 {
+     if(!punion)
+         THROW_EXCEPTION2(std::invalid_argument, "Can't construct UnionArray, NULL union");
      std::tr1::shared_ptr<UnionArray> sp(new UnionArray(punion));
      Helper::cache(this, sp);
      return sp;
-- 
2.43.0


From c07299115890484cb5947265723fa41dbee15d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 48/76] fix: FieldBuilder given a null type

FieldBuilder::add() of a null field and a builder started from a null structure dereferenced it instead of refusing it
---
 src/factory/FieldCreateFactory.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 8f10f95..a8bfb2e 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -995,6 +995,8 @@ FieldBuilderPtr FieldBuilder::begin()
 
 FieldBuilderPtr FieldBuilder::begin(StructureConstPtr S)
 {
+    if(!S)
+        THROW_EXCEPTION2(std::invalid_argument, "NULL structure");
     FieldBuilderPtr ret(new FieldBuilder(S.get()));
     return ret;
 }
@@ -1019,6 +1021,8 @@ FieldBuilderPtr FieldBuilder::addBoundedString(std::string const & name, std::si
 
 FieldBuilderPtr FieldBuilder::add(string const & name, FieldConstPtr const & field)
 {
+    if(!field)
+        THROW_EXCEPTION2(std::invalid_argument, "NULL field : "+name);
     const Field* cur = findField(name, field->getType());
     if(!cur) {
         fields.push_back(field); fieldNames.push_back(name);
@@ -1221,8 +1225,7 @@ FieldBuilderPtr FieldCreate::createFieldBuilder() const
 
 FieldBuilderPtr FieldCreate::createFieldBuilder(StructureConstPtr S) const
 {
-    FieldBuilderPtr ret(new FieldBuilder(S.get()));
-    return ret;
+    return FieldBuilder::begin(S);
 }
 
 ScalarConstPtr FieldCreate::createScalar(ScalarType scalarType) const
-- 
2.43.0


From 84ae6dfb113910327243da6ec9f67cd131fa1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 49/76] fix: appendFields() with fewer fields than names

appendFields() read beyond the array of fields if there were fewer of them than names, and appendField(s) dereferenced a null structure
---
 src/factory/FieldCreateFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index a8bfb2e..efcb431 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1408,6 +1408,8 @@ StructureConstPtr FieldCreate::appendField(
     string const & fieldName,
     FieldConstPtr const & field) const
 {
+    if(!structure)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't append to NULL structure");
     StringArray const & oldNames = structure->getFieldNames();
     FieldConstPtrArray const & oldFields = structure->getFields();
     size_t oldLen = oldNames.size();
@@ -1427,6 +1429,10 @@ StructureConstPtr FieldCreate::appendFields(
     StringArray const & fieldNames,
     FieldConstPtrArray const & fields) const
 {
+    if(!structure)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't append to NULL structure");
+    if(fieldNames.size()!=fields.size())
+        THROW_EXCEPTION2(std::invalid_argument, "Can't append fields, fieldNames.size()!=fields.size()");
     validateFieldNames(fieldNames);
     StringArray const & oldNames = structure->getFieldNames();
     FieldConstPtrArray const & oldFields = structure->getFields();
-- 
2.43.0


From f8e4771ff852172139a2c5d73d25ecf95e58b794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 50/76] fix: name the element which failed to convert

castUnsafeV() of several elements always reported the failure at index 0
---
 src/misc/typeCast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/misc/typeCast.cpp b/src/misc/typeCast.cpp
index 8ae3688..7bb93d6 100644
--- a/src/misc/typeCast.cpp
+++ b/src/misc/typeCast.cpp
@@ -33,8 +33,9 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
 
     //std::transform(src, src+count, dest, castUnsafe<TO,FROM>);
 
+    size_t i=0;
     try {
-        for(size_t i=0; i<count; i++) {
+        for(; i<count; i++) {
             dest[i] = castUnsafe<TO,FROM>(src[i]);
         }
     } catch (std::exception& ex) {
@@ -42,7 +43,7 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
         if (count > 1)
         {
             std::ostringstream os;
-            os << "failed to parse element at index " << (src - (FROM*)sraw);
+            os << "failed to parse element at index " << i;
             os << ": " << ex.what();
             throw std::runtime_error(os.str());
         }
-- 
2.43.0


From 1670cc56ecb389e9e815080428e27ac8ed8a9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 51/76] fix: Convert::toLong() returns all 64 bits

toLong() converted through int32 and so lost the upper half of the value
---
 src/pv/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/convert.h b/src/pv/convert.h
index 2a4395b..1967166 100644
--- a/src/pv/convert.h
+++ b/src/pv/convert.h
@@ -167,7 +167,7 @@ public:
      * @return converted value
      * @throws std::invalid_argument if the Type is not a numeric scalar
      */
-    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int32>();}
+    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int64>();}
     /**
      * Convert a PV to a ubyte.
      * @param pv a PV
-- 
2.43.0


From e4233e5365fa604b82a032757d72a37058a9ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 52/76] fix: Convert::toStringArray() stores at toOffset

toStringArray() skipped toOffset elements of the source and stored the rest at the start of the target
---
 src/factory/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index af39b21..e54fd9b 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -146,7 +146,7 @@ size_t Convert::toStringArray(PVScalarArrayPtr const & pv,
     data.slice(offset, length);
     if(toOffset+data.size() > to.size())
         to.resize(toOffset+data.size());
-    std::copy(data.begin()+toOffset, data.end(), to.begin());
+    std::copy(data.begin(), data.end(), to.begin()+toOffset);
     return data.size();
 }
 
-- 
2.43.0


From a78b99c5f333ccd946723d41fec6129a32eef91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 53/76] fix: splitting a list of three or more values

Convert::fromString() of an array took a too long piece of text for all but the first and last value of a list
---
 src/factory/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index e54fd9b..c99b4ad 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -40,7 +40,7 @@ static std::vector<string> split(const string& commaSeparatedList) {
     index=0;
     for(size_t i=0; i<numValues; i++) {
         size_t pos = commaSeparatedList.find(',',index);
-        string value = commaSeparatedList.substr(index,pos);
+        string value = commaSeparatedList.substr(index,pos==string::npos ? pos : pos-index);
         valueList[i] = value;
         index = pos +1;
     }
-- 
2.43.0


From d9e56c89260348a4356dcefb903c21c957a73505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 54/76] fix: Convert::fromString() of a list in brackets

Convert::fromString() of an array never recognized a bracketed list, whose closing bracket it looked for behind the end
---
 src/factory/Convert.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index c99b4ad..ecc4ee3 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -99,11 +99,14 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
 
 size_t Convert::fromString(PVScalarArrayPtr const &pv, string from)
 {
-   if(from[0]=='[' && from[from.length()]==']') {
-        size_t offset = from.rfind(']');
-        from = from.substr(1, offset);
+    std::vector<string> valueList;
+    if(from.length()>=2 && from[0]=='[' && from[from.length()-1]==']') {
+        from = from.substr(1, from.length()-2);
+        if(!from.empty()) // [] is an empty list
+            valueList = split(from);
+    } else {
+        valueList = split(from);
     }
-    std::vector<string> valueList(split(from));
     size_t length = valueList.size();
     size_t num = fromStringArray(pv,0,length,valueList,0);
     if(num<length) length = num;
-- 
2.43.0


From cd7b7498de620e10289bb7677c1dcd6803bd2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 55/76] fix: Convert::fromString() into a longer array

Convert::fromString() refused to replace the contents of an array by a list shorter than it
---
 src/factory/Convert.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index ecc4ee3..a58126b 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -107,11 +107,11 @@ size_t Convert::fromString(PVScalarArrayPtr const &pv, string from)
     } else {
         valueList = split(from);
     }
-    size_t length = valueList.size();
-    size_t num = fromStringArray(pv,0,length,valueList,0);
-    if(num<length) length = num;
-    pv->setLength(length);
-    return length;
+    PVStringArray::svector data(valueList.size());
+    std::copy(valueList.begin(), valueList.end(), data.begin());
+    PVStringArray::const_svector temp(freeze(data));
+    pv->putFrom<string>(temp);
+    return temp.size();
 }
 
 size_t Convert::fromStringArray(PVScalarArrayPtr const &pv,
-- 
2.43.0


From d4718f32d307d9b397249d62775034587147bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 56/76] fix: Convert::fromStringArray() is bounded by the
 source

fromStringArray() aborted the process when asked for more elements than the source holds
---
 src/factory/Convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index a58126b..c305796 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -121,10 +121,13 @@ size_t Convert::fromStringArray(PVScalarArrayPtr const &pv,
 {
     size_t alen = pv->getLength();
 
+    if(fromOffset>from.size())
+        fromOffset = from.size();
+    if(length>from.size()-fromOffset)
+        length = from.size()-fromOffset;
+
     if(offset==0 && length>=alen) {
         // replace all existing elements
-        assert(from.size()>=fromOffset+length);
-
         PVStringArray::svector data(length);
         std::copy(from.begin()+fromOffset,
                   from.begin()+fromOffset+length,
-- 
2.43.0


From 150d884cf3cb966dff21393b0554650765dc43a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 57/76] fix: Convert::fromString() of a structure with arrays

Convert::fromString() of a structure advanced by the number of elements of an array instead of by the one text it had used
---
 src/factory/Convert.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index c305796..8264e04 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -76,9 +76,8 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
             }
             else if(type==scalarArray) {
                 PVScalarArrayPtr pv = static_pointer_cast<PVScalarArray>(fieldField);
-                size_t count = fromString(pv, from[fromStartIndex]);
-                processed += count;
-                fromStartIndex += count;
+                fromString(pv, from[fromStartIndex++]);
+                processed++;
             }
             else if(type==scalar) {
                 PVScalarPtr pv = static_pointer_cast<PVScalar>(fieldField);
-- 
2.43.0


From fffa83388d8b3262ce250986b76045d99c5e4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 58/76] fix: Convert::fromString() of a structure with too few
 values

Convert::fromString() of a structure read beyond the end of the values given
---
 src/factory/Convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 8264e04..bfb48e1 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -68,6 +68,8 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
             PVFieldPtr fieldField = fieldsData[i];
 
             Type type = fieldField->getField()->getType();
+            if((type==scalar || type==scalarArray) && fromStartIndex>=from.size())
+                throw std::logic_error("Convert::fromString fewer values than fields");
             if(type==structure) {
                 PVStructurePtr pv = static_pointer_cast<PVStructure>(fieldField);
                 size_t count = fromString(pv, from, fromStartIndex);
-- 
2.43.0


From ef2c1939d6359f33e4f91d26f0ea9afcecd69ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 59/76] fix: sub-array copy from beyond the end of the source

a sub-array copy whose fromOffset lies beyond the end of the source, or with a huge stride, was not refused but read outside the source
---
 src/factory/pvSubArrayCopy.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 35b03ed..4f6ffa1 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -32,7 +32,7 @@ void copy(
     if(pvTo.isImmutable()) throw std::invalid_argument("pvSubArrayCopy: pvTo is immutable");
     if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     size_t fromLength = pvFrom.getLength();
-    size_t maxcount = (fromLength -fromOffset + fromStride -1)/fromStride;
+    size_t maxcount = fromOffset<fromLength ? (fromLength-fromOffset-1)/fromStride + 1 : 0;
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
@@ -170,7 +170,7 @@ void copy(
             "pvSubArrayCopy structureArray pvTo and pvFrom have different structures");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
+    size_t maxcount = pvFromOffset<pvFromLength ? (pvFromLength-pvFromOffset-1)/pvFromStride + 1 : 0;
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
@@ -206,7 +206,7 @@ void copy(
             "pvSubArrayCopy unionArray pvTo and pvFrom have different unions");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
+    size_t maxcount = pvFromOffset<pvFromLength ? (pvFromLength-pvFromOffset-1)/pvFromStride + 1 : 0;
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
-- 
2.43.0


From 5260430c009be38a488a151b6866c57c0c3b6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 60/76] fix: length of the target of a sub-array copy

a sub-array copy grew the target to its capacity or by a whole last stride, so that copies which fit a fixed or bounded array were refused, and wrote outside of the target if its length calculation overflowed
---
 src/factory/pvSubArrayCopy.cpp | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 4f6ffa1..d360aee 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -19,6 +19,17 @@ using std::string;
 
 namespace epics { namespace pvData {
 
+// the length of the target after the copy
+static size_t targetLength(size_t length, size_t toOffset, size_t toStride, size_t count)
+{
+    if(count==0) return length;
+    size_t room = (size_t)-1 - toOffset;
+    if(room==0 || (count-1) > (room-1)/toStride)
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
+    size_t needed = toOffset + (count-1)*toStride + 1;
+    return needed>length ? needed : length;
+}
+
 template<typename T>
 void copy(
     PVValueArray<T> & pvFrom,
@@ -34,14 +45,12 @@ void copy(
     size_t fromLength = pvFrom.getLength();
     size_t maxcount = fromOffset<fromLength ? (fromLength-fromOffset-1)/fromStride + 1 : 0;
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<T> temp(capacity);
+    size_t newLength = targetLength(pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<T> temp(newLength);
     typename PVValueArray<T>::const_svector vecFrom = pvFrom.view();
     typename PVValueArray<T>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i) temp[i] = T();
+    for(size_t i=pvTo.getLength(); i< newLength; ++i) temp[i] = T();
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*fromStride+fromOffset];
     shared_vector<const T> temp2(freeze(temp));
     pvTo.replace(temp2);
@@ -172,14 +181,12 @@ void copy(
     size_t pvFromLength = pvFrom.getLength();
     size_t maxcount = pvFromOffset<pvFromLength ? (pvFromLength-pvFromOffset-1)/pvFromStride + 1 : 0;
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVStructurePtr> temp(capacity);
+    size_t newLength = targetLength(pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVStructurePtr> temp(newLength);
     PVValueArray<PVStructurePtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVStructurePtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVStructure(toStructure->getStructure());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVStructurePtr> temp2(freeze(temp));
@@ -208,14 +215,12 @@ void copy(
     size_t pvFromLength = pvFrom.getLength();
     size_t maxcount = pvFromOffset<pvFromLength ? (pvFromLength-pvFromOffset-1)/pvFromStride + 1 : 0;
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVUnionPtr> temp(capacity);
+    size_t newLength = targetLength(pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVUnionPtr> temp(newLength);
     PVValueArray<PVUnionPtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVUnionPtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVUnion(toUnion->getUnion());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVUnionPtr> temp2(freeze(temp));
-- 
2.43.0


From 9dbd82e3aa65a61affb40f035c7c81bd5e3b2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 61/76] fix: a trailing comma after a nested field is an error

an empty field name after the last comma of a request was accepted if the field before it was nested
---
 src/copy/createRequest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 2616550..62d3b72 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -236,7 +236,7 @@ struct CreateRequestImpl {
             createSubNode(subNode,subRequest);
             node.nodes.push_back(subNode);
             size_t next = endField+1;
-            if(next>=request.size()) {
+            if(next>request.size()) {
                 fullFieldName = saveFullName;
                 return;
             }
@@ -259,7 +259,7 @@ struct CreateRequestImpl {
             createSubNode(subNode,subRequest);
             node.nodes.push_back(subNode);
             size_t next = endBrace + 1;
-            if(next>=request.size()) {
+            if(next>request.size()) {
                 fullFieldName = saveFullName;
                 return;
             }
-- 
2.43.0


From ae0f8d62ecfe70cce247ff775e670af443118d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 62/76] fix: short illegal record options are an error

options of a record of one or two characters were ignored instead of refused
---
 src/copy/createRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 62d3b72..a20e2df 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -369,7 +369,7 @@ struct CreateRequestImpl {
                         throw std::runtime_error(request.substr(offsetRecord) +
                             "record[ does not have matching ]");
                     }
-                    if(closeBracket-openBracket > 3) {
+                    if(closeBracket-openBracket > 1) {
                         Node node("record");
                         Node optNode = createRequestOptions(
                                 request.substr(openBracket+1,closeBracket-openBracket-1));
-- 
2.43.0


From 1598c03e29363aab2e1a87f11b15155a29a39b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 63/76] fix: a field whose name looks like a section

options of a field whose name ends with record were also taken for a record section
---
 src/copy/createRequest.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index a20e2df..bd68bb8 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -3,6 +3,7 @@
  * found in the file LICENSE that is included with the distribution
  */
 
+#include <ctype.h>
 #include <string>
 #include <sstream>
 
@@ -121,6 +122,24 @@ struct CreateRequestImpl {
         return request.size();
     }
 
+    // position of a section, which is not part of a name or of another section
+    static size_t findSection(string const & request, string const & head) {
+        size_t pos = request.find(head);
+        for(; pos!=string::npos; pos = request.find(head,pos+1)) {
+            int depth = 0;
+            for(size_t i=0; i<pos; ++i) {
+                char chr = request[i];
+                if(chr=='(' || chr=='{' || chr=='[') depth++;
+                if(chr==')' || chr=='}' || chr==']') depth--;
+            }
+            if(depth>0) continue;
+            char prev = pos>0 ? request[pos-1] : ',';
+            if(isalnum((unsigned char)prev) || prev=='_' || prev=='.') continue;
+            break;
+        }
+        return pos;
+    }
+
     vector<string> split(string const & commaSeparatedList) {
         string::size_type numValues = 1;
         string::size_type index=0;
@@ -320,10 +339,10 @@ struct CreateRequestImpl {
             {
                 return fieldCreate->createStructure()->build();
             }
-            size_t offsetRecord = request.find("record[");
-            size_t offsetField = request.find("field(");
-            size_t offsetPutField = request.find("putField(");
-            size_t offsetGetField = request.find("getField(");
+            size_t offsetRecord = findSection(request, "record[");
+            size_t offsetField = findSection(request, "field(");
+            size_t offsetPutField = findSection(request, "putField(");
+            size_t offsetGetField = findSection(request, "getField(");
             if(offsetRecord==string::npos
             && offsetField==string::npos
             && offsetPutField==string::npos
-- 
2.43.0


From 0e10f86c11fd9757f2179ec977135fb816e6a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 64/76] fix: parentheses in a list of fields are an error

fields after a closing parenthesis in a request without sections were ignored
---
 src/copy/createRequest.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index bd68bb8..d67e2f9 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -348,6 +348,8 @@ struct CreateRequestImpl {
             && offsetPutField==string::npos
             && offsetGetField==string::npos)
             {
+                 if(request.find_first_of("()")!=string::npos)
+                     throw std::runtime_error("mismatched ()");
                  request = "field(" + request + ")";
                  offsetField = request.find("field(");
             }
-- 
2.43.0


From 979699cc405d7be7fe16228e2fc54f9c09937dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:03 +0000
Subject: [PATCH 65/76] fix: request mapping in Mask mode ignores fields not
 selected

copying or translating from the requested structure in Mask mode aborted when the mask marked a field which was not selected
---
 src/copy/requestmapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6fd2fcd..fd16929 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -256,7 +256,8 @@ void PVRequestMapper::_map(const PVStructure& src, const BitSet& maskSrc,
         for(int32 i=scratch.nextSetBit(0), N=map.size(); i>=0 && i<N; i=scratch.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  base -> requested mapping can have holes,
+                // as can requested -> base in Mask mode.
 
             } else if(M.leaf) {
                 // just copy
@@ -289,7 +290,7 @@ void PVRequestMapper::_mapMask(const BitSet& maskSrc,
         for(int32 i=maskSrc.nextSetBit(0), N=map.size(); i>=0 && i<N; i=maskSrc.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  see _map()
 
             } else {
                 maskDest.set(M.to);
-- 
2.43.0


From c370dc5cfe239bb98d961c05d40ec659cef97d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:03 +0000
Subject: [PATCH 66/76] fix: refuse a nested invalid request

an invalid part of a request was refused only at the top level, but ignored below it
---
 src/copy/requestmapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index fd16929..5106a50 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -211,9 +211,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
             if(keepids)
                 builder = builder->setId(substruct.getStructure()->getID());
 
-            _compute(substruct,
-                     static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
-                     builder, keepids, depth+1u);
+            ok &= _compute(substruct,
+                           static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
+                           builder, keepids, depth+1u);
 
             builder = builder->endNested();
         }
-- 
2.43.0


From ca9507f52a891f4b0eaf7de7d381f80956035e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 67/76] fix: adding an array to a value builder leaked the
 field it replaced

ValueBuilder::add() of an array leaked the scalar or array which it replaced
---
 src/pv/valueBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index a12ee88..72b7ccf 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -218,6 +218,10 @@ void ValueBuilder::_add(const std::string& name, const shared_vector<const void>
 
     epics::auto_ptr<child> store(new child_scalar_array(V));
 
+    if(it!=children.end()) {
+        delete it->second;
+        children.erase(it);
+    }
     children[name] = store.get();
     store.release();
 }
-- 
2.43.0


From 0c9e48a3469db79ed4cb2e288f02488927144989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 68/76] fix: a value builder which fails to clone leaked

ValueBuilder leaked the fields cloned so far when refusing to clone a structure with other than scalar or structure fields
---
 src/pv/valueBuilder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index 72b7ccf..2be808f 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -148,7 +148,14 @@ ValueBuilder::ValueBuilder(const PVStructure& clone) :parent(0)
 {
     StructureConstPtr ctype(clone.getStructure());
     id = ctype->getID();
-    child_struct::fillStruct(*this, clone);
+    try {
+        child_struct::fillStruct(*this, clone);
+    }catch(...){
+        // no destructor call for a partially constructed object
+        for(children_t::const_iterator it=children.begin(), end=children.end(); it!=end; ++it)
+            delete it->second;
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 331e8bee427c2cc3525dfaabf68eb526c6030291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 69/76] fix: line breaks in JSON text were dropped

JSON text was parsed without its line breaks, so that tokens on both sides of one ran together (1 newline 2 was 12), an escaped line break changed the next character, and a // comment swallowed the rest of the document
---
 src/json/parsehelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json/parsehelper.cpp b/src/json/parsehelper.cpp
index 9cc44c3..259293c 100644
--- a/src/json/parsehelper.cpp
+++ b/src/json/parsehelper.cpp
@@ -37,6 +37,8 @@ bool yajl_parse_helper(std::istream& src,
     std::string line;
     while(std::getline(src, line)) {
         linenum++;
+        // a line break separates tokens, and ends comments
+        line.push_back('\n');
 
 #ifndef EPICS_YAJL_VERSION
         if(done) {
-- 
2.43.0


From 9c711e86625d8158fa93beb5823d1da4a610c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 70/76] fix: JSON values of the wrong shape for an array

parsing JSON into an array field: a bare value was appended to a scalar array and left the parser in a wrong state (assertion failure), a map directly into a structure array and nested arrays likewise, the elements were appended to the previous contents, and fixed or bounded arrays could not be assigned
---
 src/json/parseinto.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 601fa4c..e846ca9 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -25,8 +25,9 @@ struct context {
     struct frame {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
-        frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
-            :fld(fld), assigned(assigned)
+        bool inarray; // fld is a scratch array collecting the elements for the next lower frame
+        frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned, bool inarray=false)
+            :fld(fld), assigned(assigned), inarray(inarray)
         {}
     };
 
@@ -66,7 +67,7 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         self->stack.pop_back();
         // structure at the top of the stack
 
-    } else if(type==pvd::scalarArray) {
+    } else if(type==pvd::scalarArray && back.inarray) {
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
         pvd::shared_vector<const void> carr;
@@ -182,7 +183,7 @@ int jtree_start_map(void * ctx)
         pvd::Type type = back.fld->getField()->getType();
         if(type==pvd::structure) {
             // will fill in
-        } else if(type==pvd::structureArray) {
+        } else if(type==pvd::structureArray && back.inarray) {
             // starting new element in structure array
             pvd::PVStructureArray* sarr(static_cast<pvd::PVStructureArray*>(back.fld.get()));
 
@@ -251,18 +252,41 @@ int jtree_start_array(void * ctx)
 {
     TRY {
         assert(!self->stack.empty());
-        pvd::PVFieldPtr& back(self->stack.back().fld);
-        pvd::Type type = back->getField()->getType();
-        if(type!=pvd::structureArray && type!=pvd::scalarArray)
+        context::frame& back = self->stack.back();
+        pvd::FieldConstPtr ftype(back.fld->getField());
+        pvd::PVFieldPtr scratch;
+        if(back.inarray)
+            throw std::runtime_error("Can't assign nested array");
+        else if(ftype->getType()==pvd::scalarArray)
+            scratch = pvd::getPVDataCreate()->createPVScalarArray(
+                        static_cast<const pvd::ScalarArray*>(ftype.get())->getElementType());
+        else if(ftype->getType()==pvd::structureArray)
+            scratch = pvd::getPVDataCreate()->createPVStructureArray(
+                        static_cast<const pvd::StructureArray*>(ftype.get())->getStructure());
+        else
             throw std::runtime_error("Can't assign array");
 
+        self->stack.push_back(context::frame(scratch, 0, true));
         return 1;
     }CATCH()
 }
 int jtree_end_array(void * ctx)
 {
     TRY {
-        assert(!self->stack.empty());
+        assert(self->stack.size()>=2 && self->stack.back().inarray);
+
+        pvd::PVFieldPtr scratch(self->stack.back().fld);
+        self->stack.pop_back();
+
+        pvd::PVField *fld = self->stack.back().fld.get();
+        if(fld->getField()->getType()==pvd::scalarArray) {
+            pvd::shared_vector<const void> val;
+            static_cast<pvd::PVScalarArray*>(scratch.get())->getAs(val);
+            static_cast<pvd::PVScalarArray*>(fld)->putFrom(val);
+        } else {
+            static_cast<pvd::PVStructureArray*>(fld)->replace(
+                        static_cast<pvd::PVStructureArray*>(scratch.get())->view());
+        }
 
         if(self->stack.back().assigned)
             self->stack.back().assigned->set(self->stack.back().fld->getFieldOffset());
-- 
2.43.0


From a50a9a5cd5ec70317c7271ff93bf875b600cf8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 71/76] fix: unlimited nesting of JSON documents

parsing JSON into a new structure took time with the cube of the depth of nesting, and exhausted the stack for deeply nested documents; the same limit as for printing now applies
---
 src/json/parseany.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json/parseany.cpp b/src/json/parseany.cpp
index e860da3..6163ac4 100644
--- a/src/json/parseany.cpp
+++ b/src/json/parseany.cpp
@@ -163,6 +163,8 @@ int jtree_start_map(void * ctx)
         if(self->depth>0) {
             if(self->key.empty())
                 throw std::logic_error("anonymous dict not top level?");
+            if(self->depth>=128) // as limit of yajl when printing
+                throw std::runtime_error("Nested too deeply");
             self->cur = &self->cur->addNested(self->key);
             self->key.clear();
         }
-- 
2.43.0


From 896f4576224bfccc551660ed393754dec254a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:36 +0000
Subject: [PATCH 72/76] fix: JSON booleans in numeric arrays, and numbers in
 boolean arrays

JSON array elements were converted more freely than scalar fields are: numbers into boolean arrays (giving booleans other than 0 and 1), and true and false into numeric arrays
---
 src/json/parseinto.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index e846ca9..dc0db97 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -80,7 +80,9 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 #define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case epics::pvData::pv##PVACODE: { \
             pvd::shared_vector<const PVATYPE> arr(pvd::static_shared_vector_cast<const PVATYPE>(carr)); \
             pvd::shared_vector<PVATYPE> tarr(pvd::thaw(arr)); \
-            tarr.push_back(pvd::castUnsafe<PVATYPE>(val)); \
+            PVATYPE elem; \
+            pvd::castUnsafeV(1, pvd::pv##PVACODE, &elem, PVScalarT::typeCode, &val); \
+            tarr.push_back(elem); \
             carr = pvd::static_shared_vector_cast<const void>(pvd::freeze(tarr)); \
             } break;
 #include <pv/typemap.h>
-- 
2.43.0


From aa5d1ab6e866050b51f671f5c10aa358b9358cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:27 +0000
Subject: [PATCH 73/76] fix: RefMonitor start() while another thread stops it

a RefMonitor started by one thread while another was inside stop() took back the request to stop: the old worker went on for good and stop() never returned
---
 src/misc/reftrack.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index d34ceb8..d5082ae 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -160,8 +160,10 @@ struct RefMonitor::Impl : public epicsThreadRunable
     epicsEvent wakeup;
     RefSnapshot prev;
     bool done;
+    size_t stopping; // # of threads in stop(), waiting for the worker
+    epicsEvent stopped;
     double period;
-    Impl(RefMonitor* owner) :owner(*owner), done(false), period(10.0) {}
+    Impl(RefMonitor* owner) :owner(*owner), done(false), stopping(0), period(10.0) {}
     virtual ~Impl() {}
 
     virtual void run()
@@ -200,6 +202,14 @@ RefMonitor::~RefMonitor()
 void RefMonitor::start(double period)
 {
     Guard G(impl->lock);
+    // the previous worker has to see 'done' before it is cleared
+    bool waited = false;
+    while(!impl->worker.get() && impl->stopping) {
+        UnGuard U(G);
+        impl->stopped.wait();
+        waited = true;
+    }
+    if(waited) impl->stopped.signal(); // for others waiting here
     if(impl->worker.get()) return;
 
     impl->done = false;
@@ -221,12 +231,19 @@ void RefMonitor::stop()
         if(!impl->worker.get()) return;
         epics::swap(W, impl->worker);
         impl->done = true;
+        impl->stopping++;
     }
 
     impl->wakeup.signal();
     W->exitWait();
 
     W.reset();
+
+    {
+        Guard G(impl->lock);
+        impl->stopping--;
+    }
+    impl->stopped.signal();
 }
 
 bool RefMonitor::running() const
-- 
2.43.0


From 10462e5143a5a909be4aa5bbf3f7bd941abb0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:27 +0000
Subject: [PATCH 74/76] fix: escaped bytes with a digit 9

hexdigit() turned 9 into '@': the byte 0xA9 was shown as "\xA@", which
denotes nothing (and no decoder accepts).
---
 src/factory/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 846f2de..a064979 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -466,7 +466,7 @@ std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& forma
 
 static char hexdigit(char c) {
     c &= 0xf;
-    if(c<9)
+    if(c<=9)
         return '0'+c;
     else
         return 'A'+c-10;
-- 
2.43.0


From 1eb4ebacb26294aa2dcf2f497477b1e32f39c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:27 +0000
Subject: [PATCH 75/76] fix: time stamps from 2106 on in text output

printTimeTx() cut the seconds since 1970 to 32 bits before moving them to
the EPICS epoch, so that times after 2106-02-07 were shown as 1990-01-01,
although an epicsTimeStamp holds times up to 2126.
---
 src/factory/printer.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index a064979..176d1fb 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -122,14 +122,11 @@ void printTimeTx(std::ostream& strm, const PVStructure& tsubop)
                                    nsecf(tsubop.getSubField<PVScalar>("nanoseconds")),
                                    tagf(tsubop.getSubField<PVScalar>("userTag"));
 
-    epicsTS.secPastEpoch = secf ? secf->getAs<int64>() : 0;
+    // shift before narrowing
+    const int64 sec = secf ? secf->getAs<int64>() : 0;
+    epicsTS.secPastEpoch = sec > int64(POSIX_TIME_AT_EPICS_EPOCH) ? epicsUInt32(sec - POSIX_TIME_AT_EPICS_EPOCH) : 0;
     epicsTS.nsec = nsecf ? nsecf->getAs<int32>() : 0;
 
-    if(epicsTS.secPastEpoch > POSIX_TIME_AT_EPICS_EPOCH)
-        epicsTS.secPastEpoch -= POSIX_TIME_AT_EPICS_EPOCH;
-    else
-        epicsTS.secPastEpoch = 0;
-
     epicsTimeToStrftime(timeText, sizeof(timeText), "%Y-%m-%d %H:%M:%S.%03f", &epicsTS);
     strm <<std::setw(24) <<std::left <<timeText <<' ';
     if (tagf) {
-- 
2.43.0


From 476eb99df885116d09a7ee83a03017c01f47d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:40 +0000
Subject: [PATCH 76/76] fix: text after the options of a requested field is an
 error

---
 src/copy/createRequest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index d67e2f9..c3950b5 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -208,6 +208,9 @@ struct CreateRequestImpl {
             fullFieldName = saveFullName;
             size_t next = endBracket+1;
             if(next<request.size()) {
+                if(request[next]!='.' && request[next]!='{' && request[next]!=',') {
+                    throw std::runtime_error(request + " illegal text after ]");
+                }
                 request = request.substr(0, end) + request.substr(endBracket+1);
             } else {
                 request = request.substr(0, end);
-- 
2.43.0

