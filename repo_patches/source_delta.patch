From 91c344065a499cc5439ad76b3d51f44e72fc5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 01/25] fix: preserve embedded NUL characters when
 deserializing JSON strings and map keys

---
 lib/json/reflector.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9aeb899..844157c 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -604,7 +604,7 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.GetString();
+    reflectable.assign(value.GetString(), value.GetStringLength());
 }
 
 /*!
@@ -754,7 +754,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
-        pull(reflectable[i->name.GetString()], i->value, errors);
+        pull(reflectable[std::string(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
 }
 
@@ -772,14 +772,15 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
+        const auto key = std::string(i->name.GetString(), i->name.GetStringLength());
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, i->value, errors);
             continue;
         }
         const auto array = i->value.GetArray();
         for (const auto &arrayValue : array) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, arrayValue, errors);
         }
     }
@@ -1142,7 +1143,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    return doc.GetString();
+    return Type(doc.GetString(), doc.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From 088d64ef763c4aef070486a57d42ca5b9ee7105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 02/25] fix: copy map keys when pushing maps and multimaps to a
 JSON document

---
 lib/json/reflector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 844157c..e1a8e1b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -247,7 +247,10 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     value.SetObject();
     RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
-        push(item.second, item.first.data(), object, allocator);
+        auto memberName = RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator);
+        auto memberValue = RAPIDJSON_NAMESPACE::Value();
+        push(item.second, memberValue, allocator);
+        object.AddMember(memberName, memberValue, allocator);
     }
 }
 
@@ -267,7 +270,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            value.AddMember(memberName, newArrayValue, allocator);
+            value.AddMember(RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator), newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From 240ceac73166d2817ecfb46350d46741ccce9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 03/25] fix: avoid null-pointer dereference on duplicate set
 items when no errors object is passed

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index e1a8e1b..24dc8ca 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -732,7 +732,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         ++index;
         typename Type::value_type itemObj;
         pull(itemObj, item, errors);
-        if (!reflectable.emplace(std::move(itemObj)).second) {
+        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-- 
2.43.0


From bff2cde6064a5fb8aca00a027429109902459e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 04/25] fix: do not insert uninitialized items into sets when
 the JSON type mismatches

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 24dc8ca..903d6cc 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -702,7 +702,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
@@ -730,7 +730,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
         if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
-- 
2.43.0


From 3e92d36ca2ab6a3ab645d223479ade68d51f69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 05/25] fix: restore the index of the outer array in the error
 context after processing a nested array

---
 lib/json/reflector.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 903d6cc..5c0aa5d 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -668,6 +668,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -679,9 +680,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(reflectable.back(), item, errors);
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -695,6 +696,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -707,9 +709,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace(std::move(itemObj));
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -723,6 +725,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -737,9 +740,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         }
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
-- 
2.43.0


From f3a9bc90117ecd53958382e39ab5c3bdaeec3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 06/25] fix: avoid stack overflow when parsing deeply nested
 JSON

---
 lib/json/reflector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 5c0aa5d..cfe2793 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -73,7 +73,8 @@ inline RAPIDJSON_NAMESPACE::StringBuffer serializeJsonDocToString(RAPIDJSON_NAME
 inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, std::size_t jsonSize)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
+    constexpr auto parseFlags = RAPIDJSON_NAMESPACE::kParseDefaultFlags | RAPIDJSON_NAMESPACE::kParseIterativeFlag;
+    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<parseFlags>(json, jsonSize);
     if (parseRes.IsError()) {
         throw parseRes;
     }
-- 
2.43.0


From 1a0761d65518c71a308ac68410881bda6d9c1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 07/25] fix: report a conversion error instead of invoking
 undefined behavior when a JSON number is out of range

---
 lib/json/reflector.h | 48 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index cfe2793..81150d6 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -529,6 +529,24 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> *>
 void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
+namespace Detail {
+/*!
+ * \brief Returns whether the specified \a number can be converted to \tparam Type without leaving its range.
+ */
+template <typename Type> constexpr bool isRepresentable(double number)
+{
+    if constexpr (std::is_floating_point_v<Type>) {
+        return number >= static_cast<double>(std::numeric_limits<Type>::lowest()) && number <= static_cast<double>(std::numeric_limits<Type>::max());
+    } else {
+        // note: The conversion truncates so e.g. -0.5 is ok for unsigned types. Powers of two are used because the limits themselves might
+        //       not be exactly representable as double.
+        constexpr auto upperLimit = static_cast<double>(std::numeric_limits<Type>::max() / 2 + 1) * 2.0;
+        constexpr auto lowerLimit = static_cast<double>(std::numeric_limits<Type>::min());
+        return number < upperLimit && (number >= lowerLimit || number > lowerLimit - 1.0);
+    }
+}
+} // namespace Detail
+
 /*!
  * \brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
  */
@@ -544,7 +562,18 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.Is<Type>() ? value.Get<Type>() : static_cast<Type>(value.GetDouble());
+    if (value.Is<Type>()) {
+        reflectable = value.Get<Type>();
+        return;
+    }
+    const auto number = value.GetDouble();
+    if (!Detail::isRepresentable<Type>(number)) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
@@ -554,11 +583,20 @@ template <typename Type, Traits::EnableIfAny<std::is_same<Type, std::uint8_t>, s
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    int i = 0;
-    pull(i, value, errors);
-    if (value.IsNumber()) {
-        reflectable = static_cast<Type>(i);
+    if (!value.IsNumber()) {
+        if (errors) {
+            errors->reportTypeMismatch<Type>(value.GetType());
+        }
+        return;
+    }
+    const auto number = value.GetDouble();
+    if (!Detail::isRepresentable<Type>(number)) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
     }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
-- 
2.43.0


From f30e638b1673ca2731c4f674ade8d4eaf663711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 08/25] fix: accept any JSON number when deserializing a single
 integer or float

---
 lib/json/reflector.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 81150d6..536b20b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1164,14 +1164,9 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors *errors = nullptr)
 {
     RAPIDJSON_NAMESPACE::Document doc(parseJsonDocFromString(json, jsonSize));
-    if (!doc.Is<Type>()) {
-        if (errors) {
-            errors->reportTypeMismatch<Type>(doc.GetType());
-        }
-        return Type();
-    }
-
-    return doc.Get<Type>();
+    auto res = Type();
+    pull(res, doc, errors);
+    return res;
 }
 
 /*!
-- 
2.43.0


From 307b2611035d6f39830a389eaae3cd79b0fef1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 09/25] fix: consider invalid variants when checking whether an
 error is supposed to be thrown

---
 lib/json/errorhandling.h | 22 ++++++++++++++++++++++
 lib/json/reflector.h     |  9 +++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index d363950..49077bc 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -159,6 +159,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     void reportArraySizeMismatch();
     void reportConversionError(JsonType jsonType);
     void reportUnexpectedDuplicate(JsonType jsonType);
+    void reportInvalidVariantObject();
+    void reportInvalidVariantIndex(JsonType presentType);
 
     /// \brief The name of the class or struct which is currently being processed.
     const char *currentRecord;
@@ -173,6 +175,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
         ArraySizeMismatch = 0x2,
         ConversionError = 0x4,
         UnexpectedDuplicate = 0x8,
+        InvalidVariantObject = 0x10,
+        InvalidVariantIndex = 0x20,
         All = 0xFF,
     } throwOn;
 
@@ -264,6 +268,24 @@ inline void JsonDeserializationErrors::reportUnexpectedDuplicate(JsonType jsonTy
     throwMaybe(ThrowOn::UnexpectedDuplicate);
 }
 
+/*!
+ * \brief Reports an object which is supposed to represent an std::variant but lacks the index or data member.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantObject()
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantObject);
+}
+
+/*!
+ * \brief Reports that the index of an object representing an std::variant is not a number (see \a presentType) or out of range.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presentType)
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, presentType, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantIndex);
+}
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 536b20b..779844c 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -959,8 +959,7 @@ void assignVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant
         }
     } else {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, JsonType::Number, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(JsonType::Number);
         }
     }
 }
@@ -985,16 +984,14 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto dataIterator = obj.FindMember("data");
     if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantObject();
         }
         return;
     }
     const auto &indexValue = indexIterator->value;
     if (!indexValue.IsUint64()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, jsonType(indexValue.GetType()),
-                errors->currentRecord, errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
         }
         return;
     }
-- 
2.43.0


From e923e3074d057d6a7c1ba1945118a77432165782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 10/25] fix: report correct expected JSON type for multimaps,
 pairs, tuples and types treated as map

---
 lib/json/errorhandling.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index 49077bc..720c064 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -6,6 +6,8 @@
  * \brief Contains helper for error handling when deserializing JSON files.
  */
 
+#include "../traits.h"
+
 #include <c++utilities/misc/traits.h>
 
 #include <rapidjson/rapidjson.h>
@@ -14,6 +16,8 @@
 #include <limits>
 #include <list>
 #include <string>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace ReflectiveRapidJSON {
@@ -63,9 +67,9 @@ template <typename Type, Traits::EnableIfAny<Traits::IsString<Type>, Traits::IsC
 }
 
 template <typename Type,
-    Traits::EnableIf<Traits::IsIteratable<Type>,
-        Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-            Traits::IsSpecializationOf<Type, std::unordered_map>>>> * = nullptr>
+    Traits::EnableIfAny<Traits::All<Traits::IsIteratable<Type>,
+                            Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>>,
+        Traits::IsSpecializingAnyOf<Type, std::pair, std::tuple>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Array;
@@ -74,8 +78,8 @@ constexpr JsonType jsonType()
 template <typename Type,
     Traits::DisableIfAny<std::is_integral<Type>, std::is_floating_point<Type>, Traits::IsString<Type>, Traits::IsCString<Type>,
         Traits::All<Traits::IsIteratable<Type>,
-            Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-                Traits::IsSpecializationOf<Type, std::unordered_map>>>>> * = nullptr>
+            Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>>,
+        Traits::IsSpecializingAnyOf<Type, std::pair, std::tuple>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Object;
-- 
2.43.0


From a1194356e891a49fee1a1793cda50c369f2f1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 11/25] fix: clear maps and sets before deserializing so
 default contents do not survive

---
 lib/binary/reflector.h | 2 ++
 lib/json/reflector.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 883d9b7..27d762b 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -184,6 +184,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
         read(value);
@@ -197,6 +198,7 @@ template <typename Type,
 void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
         read(value);
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 779844c..482f238 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -797,6 +797,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         pull(reflectable[std::string(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
@@ -815,6 +816,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         const auto key = std::string(i->name.GetString(), i->name.GetStringLength());
-- 
2.43.0


From 4766b3c73f048c2779bbe4661755b69375d990bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 12/25] fix: do not report a conversion error or change the
 value when date and time values have the wrong JSON type

---
 lib/json/reflector-chronoutilities.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 7acccaf..05e91b6 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -41,6 +41,12 @@ template <>
 inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
     const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
+    if (!value.IsString()) {
+        if (errors) {
+            errors->reportTypeMismatch<std::string>(value.GetType());
+        }
+        return;
+    }
     std::string str;
     pull(str, value, errors);
     try {
@@ -56,6 +62,12 @@ template <>
 inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
     const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
+    if (!value.IsString()) {
+        if (errors) {
+            errors->reportTypeMismatch<std::string>(value.GetType());
+        }
+        return;
+    }
     std::string str;
     pull(str, value, errors);
     try {
-- 
2.43.0


From a091e87dbd7a0b104dbb12a5c9d63f0e3eb50d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 13/25] fix: make fromBinary() of versioned types compile

---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index 3a87d06..a0b68e8 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -46,7 +46,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
     Type object;
-    static_cast<BinarySerializable<Type> &>(object).restoreFromBinary(inputStream);
+    static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
 
-- 
2.43.0


From 73438cb7af9c04b46f10684756fb1c67f1b9332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 14/25] fix: do not (de)serialize members of indirect base
 classes multiple times

---
 generator/serializationcodegenerator.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ae3a774..1cdfedd 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -8,6 +8,7 @@
 #include <clang/AST/PrettyPrinter.h>
 #include <clang/AST/QualTypeNames.h>
 
+#include <algorithm>
 #include <iostream>
 
 using namespace std;
@@ -130,6 +131,17 @@ std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCode
             relevantBaseClasses.push_back(&otherClass);
         }
     }
+
+    // skip bases which are already covered by another relevant base as their members would otherwise be considered multiple times
+    const auto allRelevantBaseClasses = relevantBaseClasses;
+    relevantBaseClasses.erase(std::remove_if(relevantBaseClasses.begin(), relevantBaseClasses.end(),
+                                  [&allRelevantBaseClasses](const RelevantClass *baseClass) {
+                                      return std::any_of(allRelevantBaseClasses.begin(), allRelevantBaseClasses.end(),
+                                          [baseClass](const RelevantClass *otherBaseClass) {
+                                              return otherBaseClass != baseClass && otherBaseClass->record->isDerivedFrom(baseClass->record);
+                                          });
+                                  }),
+        relevantBaseClasses.end());
     return relevantBaseClasses;
 }
 
-- 
2.43.0


From bc9482b0a4f516dade7018efbbac96503e980608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 15/25] fix: return with an error when the generated code could
 not be written

---
 generator/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/main.cpp b/generator/main.cpp
index e3aa4b3..443f4bd 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -57,9 +57,9 @@ int main(int argc, char *argv[])
     }
 
     // setup output stream
+    ofstream outputFile;
     ostream *os = nullptr;
     try {
-        ofstream outputFile;
         if (outputFileArg.isPresent()) {
             outputFile.exceptions(ios_base::badbit | ios_base::failbit);
             outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
@@ -127,6 +127,12 @@ int main(int argc, char *argv[])
             return -2;
         }
 
+        // ensure everything has been written before returning
+        os->flush();
+        if (!*os) {
+            throw ios_base::failure("unable to flush output");
+        }
+
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
         if (os) {
-- 
2.43.0


From 3b0e00421dc8c006abf1a8ff449f45f9bee1d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 16/25] fix: accept numbers which are rounded to the limit of
 the floating point type

---
 lib/json/reflector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 482f238..a656ad2 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -16,6 +16,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <map>
 #include <memory>
@@ -533,10 +534,11 @@ namespace Detail {
 /*!
  * \brief Returns whether the specified \a number can be converted to \tparam Type without leaving its range.
  */
-template <typename Type> constexpr bool isRepresentable(double number)
+template <typename Type> inline bool isRepresentable(double number)
 {
     if constexpr (std::is_floating_point_v<Type>) {
-        return number >= static_cast<double>(std::numeric_limits<Type>::lowest()) && number <= static_cast<double>(std::numeric_limits<Type>::max());
+        // note: Slightly bigger numbers are rounded to the limit, e.g. when the limit has been serialized and RapidJSON does not restore it exactly.
+        return std::isfinite(static_cast<Type>(number));
     } else {
         // note: The conversion truncates so e.g. -0.5 is ok for unsigned types. Powers of two are used because the limits themselves might
         //       not be exactly representable as double.
-- 
2.43.0


From 437f7dee8f3f97c21f44fed56544947c64088049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 17/25] fix: allow serializing variants, tuples, pairs and
 pointers nested in maps, pointers and optionals

---
 lib/json/reflector.h | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index a656ad2..654e13c 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -103,6 +103,37 @@ using IsJsonSerializable
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> * = nullptr>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
 
+/*!
+ * \brief Pushes the specified multimap (std::multimap, std::unordered_multimap) to the specified value.
+ */
+template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified tuple to the specified value.
+ */
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified pair to the specified value.
+ */
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified unique_ptr, shared_ptr, weak_ptr or optional to the specified value.
+ */
+template <typename Type,
+    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified variant to the specified value.
+ */
+template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
 /*!
  * \brief Pushes the \a reflectable to the specified array.
  */
@@ -259,7 +290,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified multimap (std::multimap, std::unordered_multimap) to the specified value.
  */
-template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> * = nullptr>
+template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetObject();
@@ -301,7 +332,7 @@ template <class Tuple> struct TuplePushHelper<Tuple, 1> {
 /*!
  * \brief Pushes the specified tuple to the specified value.
  */
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> * = nullptr>
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -313,7 +344,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified pair to the specified value.
  */
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -327,7 +358,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
  * \brief Pushes the specified unique_ptr, shared_ptr, weak_ptr or optional to the specified value.
  */
 template <typename Type,
-    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> * = nullptr>
+    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     if (!reflectable) {
@@ -340,7 +371,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified variant to the specified value.
  */
-template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr>
+template <typename Type, Traits::EnableIf<IsVariant<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     if (reflectable.valueless_by_exception()) {
-- 
2.43.0


From fad95b497c9d3cf1c19e4bd4b465bbe234feeafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 18/25] fix: preserve embedded NUL characters and length when
 serializing a single string to a document

---
 lib/json/reflector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 654e13c..54a2c58 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1120,7 +1120,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = n
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1131,7 +1131,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, const char *>> * =
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const char *reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1142,7 +1142,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From b24f96b31f52cbe7199f9356a64dd34db493f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 19/25] fix: reject JSON documents followed by a NUL character
 and further data

---
 lib/json/reflector.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 54a2c58..e185957 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -12,11 +12,13 @@
 #include <c++utilities/application/global.h>
 
 #include <rapidjson/document.h>
+#include <rapidjson/memorystream.h>
 #include <rapidjson/rapidjson.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
 #include <cmath>
+#include <cstring>
 #include <limits>
 #include <map>
 #include <memory>
@@ -75,10 +77,18 @@ inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, st
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
     constexpr auto parseFlags = RAPIDJSON_NAMESPACE::kParseDefaultFlags | RAPIDJSON_NAMESPACE::kParseIterativeFlag;
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<parseFlags>(json, jsonSize);
+    RAPIDJSON_NAMESPACE::MemoryStream stream(json, jsonSize);
+    if (jsonSize >= 3 && !std::memcmp(json, "\xEF\xBB\xBF", 3)) {
+        stream.src_ += 3; // skip byte order mark
+    }
+    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.ParseStream<parseFlags, RAPIDJSON_NAMESPACE::UTF8<>>(stream);
     if (parseRes.IsError()) {
         throw parseRes;
     }
+    if (stream.Tell() != jsonSize) {
+        // RapidJSON considers a NUL character as end of the input
+        throw RAPIDJSON_NAMESPACE::ParseResult(RAPIDJSON_NAMESPACE::kParseErrorDocumentRootNotSingular, stream.Tell());
+    }
     return document;
 }
 
-- 
2.43.0


From 0e74b8d3eaaeccb76fc6eade0de505910dac0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 20/25] fix: consider the length of keys when grouping values
 of multimaps

FindMember() invoked with a StringRefType uses the conversion to a C-string
so keys containing NUL characters were considered up to the first NUL
character only and views which are not NUL-terminated were read beyond their
end.
---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index e185957..babe11a 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -306,7 +306,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     value.SetObject();
     for (const auto &item : reflectable) {
         const auto memberName = RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size()));
-        const auto existingMember = value.FindMember(memberName);
+        const auto existingMember = value.FindMember(RAPIDJSON_NAMESPACE::Value(memberName));
         const auto arrayAlreadyExists
             = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
         auto newArrayValue = RAPIDJSON_NAMESPACE::Value{ RAPIDJSON_NAMESPACE::kArrayType };
-- 
2.43.0


From 8e7927737145c7e871d0a94cecf3c4efcca59d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 21/25] fix: report a conversion error when a date/time string
 contains a NUL character

The string was considered up to the first NUL character only so any data
following it was silently ignored.
---
 lib/json/reflector-chronoutilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 05e91b6..579c72b 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -50,6 +50,9 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
     std::string str;
     pull(str, value, errors);
     try {
+        if (str.find('\0') != std::string::npos) {
+            throw CppUtilities::ConversionException("unexpected NUL character");
+        }
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
@@ -71,6 +74,9 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
     std::string str;
     pull(str, value, errors);
     try {
+        if (str.find('\0') != std::string::npos) {
+            throw CppUtilities::ConversionException("unexpected NUL character");
+        }
         reflectable = CppUtilities::TimeSpan::fromString(str.data());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
-- 
2.43.0


From ed10716e86927e317c5c9079e7a23923f1bd42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:20 +0000
Subject: [PATCH 22/25] fix: (de)serialize members of base classes which are
 defined in included headers

The generated code for a class only invoked the code of those base classes
which are defined in the same file. Members of serializable base classes
from included headers were silently not (de)serialized.
---
 .../binaryserializationcodegenerator.cpp      |  5 +++
 generator/jsonserializationcodegenerator.cpp  |  5 +++
 generator/serializationcodegenerator.cpp      | 31 ++++++++++++++-----
 generator/serializationcodegenerator.h        |  2 +-
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index 3f12fe6..4989f7c 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -216,6 +216,11 @@ void BinarySerializationCodeGenerator::generate(std::ostream &os) const
     // add push and pull functions for each class, for an example of the resulting
     // output, see ../lib/tests/binaryserializable.cpp
     for (const RelevantClass &relevantClass : relevantClasses) {
+        // skip classes which are only relevant as base class of other classes
+        if (relevantClass.isRelevant != IsRelevant::Yes) {
+            continue;
+        }
+
         // determine whether private members should be pushed/pulled as well: check whether friend declarations for push/pull present
         // note: the friend declarations we are looking for are expanded from the REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS macro
         bool writePrivateMembers = false, readPrivateMembers = false;
diff --git a/generator/jsonserializationcodegenerator.cpp b/generator/jsonserializationcodegenerator.cpp
index 435c0a4..0657e0d 100644
--- a/generator/jsonserializationcodegenerator.cpp
+++ b/generator/jsonserializationcodegenerator.cpp
@@ -83,6 +83,11 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
     // add push and pull functions for each class, for an example of the resulting
     // output, see ../lib/tests/jsonserializable.cpp (code under comment "pretend serialization code...")
     for (const RelevantClass &relevantClass : relevantClasses) {
+        // skip classes which are only relevant as base class of other classes
+        if (relevantClass.isRelevant != IsRelevant::Yes) {
+            continue;
+        }
+
         // determine whether private members should be pushed/pulled as well: check whether friend declarations for push/pull present
         // note: the friend declarations we are looking for are expanded from the REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS macro
         bool pushPrivateMembers = false, pullPrivateMembers = false;
diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index 1cdfedd..b5144f8 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -78,20 +78,26 @@ void SerializationCodeGenerator::computeRelevantClass(RelevantClass &possiblyRel
     }
 
     // consider all classes for which a specialization of the "AdaptedJsonSerializable" struct is available
+    auto hasIncludedAdaptionRecord = false;
     for (const auto &adaptionRecord : m_adaptionRecords) {
+        if (adaptionRecord.qualifiedName != possiblyRelevantClass.qualifiedName) {
+            continue;
+        }
         // skip all adaption records which are only included
         if (isOnlyIncluded(adaptionRecord.record)) {
+            hasIncludedAdaptionRecord = true;
             continue;
         }
-        if (adaptionRecord.qualifiedName == possiblyRelevantClass.qualifiedName) {
-            possiblyRelevantClass.isRelevant = IsRelevant::Yes;
-            return;
-        }
+        possiblyRelevantClass.isRelevant = IsRelevant::Yes;
+        return;
     }
 
-    // skip all classes which are only included
+    // skip all classes which are only included unless they might be relevant as base class
     if (isOnlyIncluded(possiblyRelevantClass.record)) {
-        possiblyRelevantClass.isRelevant = IsRelevant::No;
+        possiblyRelevantClass.isRelevant
+            = hasIncludedAdaptionRecord || inheritsFromInstantiationOf(possiblyRelevantClass.record, m_qualifiedNameOfRecords)
+            ? IsRelevant::OnlyAsBase
+            : IsRelevant::No;
         return;
     }
 
@@ -109,16 +115,27 @@ void SerializationCodeGenerator::computeRelevantClass(RelevantClass &possiblyRel
     }
 }
 
+/*!
+ * \brief Returns the classes to generate code for and the classes which are only relevant as base classes of those
+ *        (because they are only included, see IsRelevant::OnlyAsBase).
+ * \remarks Returns an empty vector if there are no classes to generate code for.
+ */
 std::vector<SerializationCodeGenerator::RelevantClass> SerializationCodeGenerator::findRelevantClasses() const
 {
     std::vector<RelevantClass> relevantClasses;
+    auto anythingToGenerate = false;
     for (clang::CXXRecordDecl *const record : m_records) {
         auto &relevantClass = relevantClasses.emplace_back(record->getQualifiedNameAsString(), record);
         computeRelevantClass(relevantClass);
-        if (relevantClass.isRelevant != IsRelevant::Yes) {
+        if (relevantClass.isRelevant == IsRelevant::Yes) {
+            anythingToGenerate = true;
+        } else if (relevantClass.isRelevant != IsRelevant::OnlyAsBase) {
             relevantClasses.pop_back();
         }
     }
+    if (!anythingToGenerate) {
+        relevantClasses.clear();
+    }
     return relevantClasses;
 }
 
diff --git a/generator/serializationcodegenerator.h b/generator/serializationcodegenerator.h
index 23a3236..35000ac 100644
--- a/generator/serializationcodegenerator.h
+++ b/generator/serializationcodegenerator.h
@@ -17,7 +17,7 @@ std::ostream &operator<<(std::ostream &os, llvm::StringRef str);
  */
 class SerializationCodeGenerator : public CodeGenerator {
 public:
-    enum class IsRelevant { Yes, No, Maybe };
+    enum class IsRelevant { Yes, No, Maybe, OnlyAsBase };
     struct RelevantClass {
         explicit RelevantClass(std::string &&qualifiedName, clang::CXXRecordDecl *record);
 
-- 
2.43.0


From 9e91b7d9ca4f556e6feededf20cf8c6bed626172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 23/25] fix: evaluate versions which are not specified as
 integer literal

Only the first integer literal was considered. So a constant was ignored,
e.g. members after as_of_version(constant) were always (de)serialized, and
as_of_version(1 + 2) was treated like as_of_version(1).
---
 .../binaryserializationcodegenerator.cpp      | 55 +++----------------
 1 file changed, 9 insertions(+), 46 deletions(-)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index 4989f7c..52d3a6f 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -3,11 +3,11 @@
 
 #include "../lib/binary/serializable.h"
 
+#include <clang/AST/APValue.h>
 #include <clang/AST/DeclCXX.h>
 #include <clang/AST/DeclFriend.h>
 #include <clang/AST/DeclTemplate.h>
 #include <clang/AST/Expr.h>
-#include <clang/AST/RecursiveASTVisitor.h>
 
 #include <llvm/ADT/APInt.h>
 
@@ -61,44 +61,6 @@ void BinarySerializationCodeGenerator::computeRelevantClass(RelevantClass &possi
     }
 }
 
-/// \brief The RetrieveIntegerLiteralFromDeclaratorDecl struct is used to traverse a variable declaration to get the integer value.
-struct RetrieveIntegerLiteralFromDeclaratorDecl : public clang::RecursiveASTVisitor<RetrieveIntegerLiteralFromDeclaratorDecl> {
-    explicit RetrieveIntegerLiteralFromDeclaratorDecl(const clang::ASTContext &ctx);
-    bool VisitStmt(clang::Stmt *st);
-    const clang::ASTContext &ctx;
-    std::uint64_t res;
-    bool success;
-};
-
-/// \brief Constructs a new instance for the specified AST context.
-RetrieveIntegerLiteralFromDeclaratorDecl::RetrieveIntegerLiteralFromDeclaratorDecl(const clang::ASTContext &ctx)
-    : ctx(ctx)
-    , res(0)
-    , success(false)
-{
-}
-
-/// \brief Reads the integer value of \a st for integer literals.
-bool RetrieveIntegerLiteralFromDeclaratorDecl::VisitStmt(clang::Stmt *st)
-{
-    if (st->getStmtClass() != clang::Stmt::IntegerLiteralClass) {
-        return true;
-    }
-    const auto *const integerLiteral = static_cast<const clang::IntegerLiteral *>(st);
-    auto evaluation = clang::Expr::EvalResult();
-    integerLiteral->EvaluateAsInt(evaluation, ctx, clang::Expr::SE_NoSideEffects, true);
-    if (!evaluation.Val.isInt()) {
-        return true;
-    }
-    const auto &asInt = evaluation.Val.getInt();
-    if (asInt.getActiveBits() > 64) {
-        return true;
-    }
-    res = asInt.getZExtValue();
-    success = true;
-    return false;
-}
-
 /// \brief The MemberTracking struct is an internal helper for BinarySerializationCodeGenerator::generate().
 struct MemberTracking {
     bool membersWritten = false, withinCondition = false;
@@ -120,20 +82,21 @@ bool MemberTracking::checkForVersionMarker(clang::Decl *decl)
     if (decl->getKind() != clang::Decl::Kind::Var) {
         return false;
     }
-    auto *const declarator = static_cast<clang::DeclaratorDecl *>(decl);
-    const auto declarationName = declarator->getName();
+    auto *const variable = static_cast<clang::VarDecl *>(decl);
+    const auto declarationName = variable->getName();
     const auto isAsOfVersion = startsStrRefWith<llvm::StringRef>(declarationName, "rrjAsOfVersion");
     if (isAsOfVersion || startsStrRefWith<llvm::StringRef>(declarationName, "rrjUntilVersion")) {
-        auto v = RetrieveIntegerLiteralFromDeclaratorDecl(declarator->getASTContext());
-        v.TraverseDecl(declarator);
-        if (v.success) {
+        // evaluate the initializer which is not necessarily just an integer literal
+        const auto *const value = variable->getInit() && !variable->getInit()->isValueDependent() ? variable->evaluateValue() : nullptr;
+        if (value && value->isInt() && value->getInt().getActiveBits() <= 64) {
+            const auto version = value->getInt().getZExtValue();
             if (isAsOfVersion) {
-                asOfVersion = v.res;
+                asOfVersion = version;
                 if (asOfVersion > untilVersion) {
                     untilVersion = 0;
                 }
             } else {
-                untilVersion = v.res;
+                untilVersion = version;
                 if (untilVersion < asOfVersion) {
                     asOfVersion = 0;
                 }
-- 
2.43.0


From 5d65651c4a3bf75ee675bde699c482a9bd850e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:21 +0000
Subject: [PATCH 24/25] fix: return with an error when closing the file with
 the generated code fails

---
 generator/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/main.cpp b/generator/main.cpp
index 443f4bd..1e38ce8 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -132,6 +132,9 @@ int main(int argc, char *argv[])
         if (!*os) {
             throw ios_base::failure("unable to flush output");
         }
+        if (outputFile.is_open()) {
+            outputFile.close();
+        }
 
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
-- 
2.43.0


From c3875e446f87bdd92487a7dbc67d88fcbf4ba397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 25/25] fix: pass BINARY_VISIBILITY specified in CMake to the
 code generator

---
 lib/cmake/modules/ReflectionGenerator.cmake | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/cmake/modules/ReflectionGenerator.cmake b/lib/cmake/modules/ReflectionGenerator.cmake
index ea3231b..ca67171 100644
--- a/lib/cmake/modules/ReflectionGenerator.cmake
+++ b/lib/cmake/modules/ReflectionGenerator.cmake
@@ -88,7 +88,7 @@ include(CMakeParseArguments)
 function (add_reflection_generator_invocation)
     # parse arguments
     set(OPTIONAL_ARGS ERROR_RESILIENT)
-    set(ONE_VALUE_ARGS OUTPUT_DIRECTORY JSON_VISIBILITY BINARY_VISBILITY)
+    set(ONE_VALUE_ARGS OUTPUT_DIRECTORY JSON_VISIBILITY BINARY_VISIBILITY BINARY_VISBILITY)
     set(MULTI_VALUE_ARGS
         INPUT_FILES
         GENERATORS
@@ -195,7 +195,9 @@ function (add_reflection_generator_invocation)
         if (ARGS_JSON_VISIBILITY)
             list(APPEND CLI_ARGUMENTS --json-visibility "${ARGS_JSON_VISIBILITY}")
         endif ()
-        if (ARGS_BINARY_VISBILITY)
+        if (ARGS_BINARY_VISIBILITY)
+            list(APPEND CLI_ARGUMENTS --binary-visibility "${ARGS_BINARY_VISIBILITY}")
+        elseif (ARGS_BINARY_VISBILITY) # considered for compatibility
             list(APPEND CLI_ARGUMENTS --binary-visibility "${ARGS_BINARY_VISBILITY}")
         endif ()
         if (ARGS_ERROR_RESILIENT)
-- 
2.43.0

