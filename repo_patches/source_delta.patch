From adeb789c312de47658be25a16ead6675e34b52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:26 +0000
Subject: [PATCH 01/33] fix: do not accept NUL bytes inside a Content-Length
 header

strchr() matches the string terminator, so matchAny() consumed a NUL byte
between the header prefix, the digits and the CRLFs, and such a malformed
header delivered a message.
---
 src/content_stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..f814f85 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -133,6 +133,9 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
+  if (c == 0) {
+    return 0;  // strchr() would match the terminator of chars.
+  }
   if (auto p = strchr(chars, c)) {
     buf.pop_front();
     return *p;
-- 
2.43.0


From 1cfddf4ec986d96f21d81914bed24516e8d70c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:26 +0000
Subject: [PATCH 02/33] fix: reject Content-Length values that overflow size_t

The decimal value wrapped modulo 2^64, so a header declaring 2^64+2 bytes
delivered a two byte message.
---
 src/content_stream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index f814f85..32f22c2 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -18,6 +18,7 @@
 
 #include <string.h>   // strlen
 #include <algorithm>  // std::min
+#include <limits>     // std::numeric_limits
 
 namespace dap {
 
@@ -67,8 +68,11 @@ std::string ContentReader::read() {
     if (c == 0) {
       break;
     }
-    len *= 10;
-    len += size_t(c) - size_t('0');
+    auto digit = size_t(c) - size_t('0');
+    if (len > (std::numeric_limits<size_t>::max() - digit) / 10) {
+      return badHeader();  // Length does not fit in a size_t
+    }
+    len = len * 10 + digit;
   }
   if (len == 0) {
     return "";
-- 
2.43.0


From 2d10c8aa91ffba69148ecde2794807aebb9c5ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:26 +0000
Subject: [PATCH 03/33] fix: close the stream on a header without a length in
 kClose mode

A header prefix not followed by a length returned an empty message but left
the stream open, and a frame following it was then accepted.
---
 src/content_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 32f22c2..a30aab8 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -75,7 +75,7 @@ std::string ContentReader::read() {
     len = len * 10 + digit;
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
-- 
2.43.0


From b43c339e20c71ec2fe45ed66e9f6c93c31ed7630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:56 +0000
Subject: [PATCH 04/33] fix: release the held lock when a lock guard is
 move-assigned

---
 src/rwmutex.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rwmutex.h b/src/rwmutex.h
index 9e85891..c87d7ee 100644
--- a/src/rwmutex.h
+++ b/src/rwmutex.h
@@ -122,8 +122,13 @@ RLock::RLock(RLock&& other) {
 }
 
 RLock& RLock::operator=(RLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockReader();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 
@@ -163,8 +168,13 @@ WLock::WLock(WLock&& other) {
 }
 
 WLock& WLock::operator=(WLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockWriter();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 }  // namespace dap
-- 
2.43.0


From 9214d3127c513daab24795d5e8c9100049d1d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:20 +0000
Subject: [PATCH 05/33] fix: make assignment between optionals of different
 types compile

---
 include/dap/optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dap/optional.h b/include/dap/optional.h
index 9a3d216..06f123b 100644
--- a/include/dap/optional.h
+++ b/include/dap/optional.h
@@ -161,16 +161,20 @@ optional<T>& optional<T>::operator=(U&& value) {
 template <typename T>
 template <typename U>
 optional<T>& optional<T>::operator=(const optional<U>& other) {
-  val = other.val;
-  set = other.set;
+  set = other.has_value();
+  if (set) {
+    val = static_cast<T>(other.value());
+  }
   return *this;
 }
 
 template <typename T>
 template <typename U>
 optional<T>& optional<T>::operator=(optional<U>&& other) {
-  val = std::move(other.val);
-  set = other.set;
+  set = other.has_value();
+  if (set) {
+    val = static_cast<T>(std::move(other.value()));
+  }
   return *this;
 }
 
-- 
2.43.0


From 03b0d49a59e50057ca1ea955f7c244c7b7baa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 06/33] fix: transfer ownership when an any is moved, keep the
 value on self-assignment

---
 include/dap/any.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..9170821 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -96,11 +96,14 @@ any::any(any&& other) noexcept : type(other.type) {
   if (other.isInBuffer(other.value)) {
     alloc(type->size(), type->alignment());
     type->copyConstruct(value, other.value);
+    other.reset();
   } else {
     value = other.value;
+    heap = other.heap;
+    other.value = nullptr;
+    other.type = nullptr;
+    other.heap = nullptr;
   }
-  other.value = nullptr;
-  other.type = nullptr;
 }
 
 void any::reset() {
@@ -113,6 +116,9 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.value != nullptr) {
@@ -123,16 +129,22 @@ any& any::operator=(const any& rhs) {
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.isInBuffer(rhs.value)) {
     alloc(type->size(), type->alignment());
     type->copyConstruct(value, rhs.value);
+    rhs.reset();
   } else {
     value = rhs.value;
+    heap = rhs.heap;
+    rhs.value = nullptr;
+    rhs.type = nullptr;
+    rhs.heap = nullptr;
   }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
   return *this;
 }
 
-- 
2.43.0


From 3c6b11ed4790ab54c7a8316f13de59940a6d1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:47 +0000
Subject: [PATCH 07/33] fix: serialize the registration of type information
 objects

---
 src/typeof.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..41d2848 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -67,6 +68,7 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::object> object = {"object"};
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
+  std::mutex typesMutex;  // guards types
   std::vector<std::unique_ptr<dap::TypeInfo>> types;
 
  private:
@@ -130,7 +132,9 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  auto infos = TypeInfos::get();
+  std::unique_lock<std::mutex> lock(infos->typesMutex);
+  infos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
 }
 
 void initialize() {
-- 
2.43.0


From 886f5542d837448e79a7b2fc7b50736e9d4cb0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 08/33] fix: do not abort when serializing strings that are not
 UTF-8 (nlohmann)

---
 src/nlohmann_json_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..1137d5a 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -157,7 +157,8 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // Replace bytes that are not valid UTF-8, as strict handling of them aborts.
+  return json->dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From 812974459f5c4ccdc349fcd283136ad4affbf82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 09/33] fix: refuse integers that do not fit, decode 64-bit
 integers in an any

---
 src/nlohmann_json_serializer.cpp | 19 +++++++++++++++++--
 src/rapid_json_serializer.cpp    | 21 ++++++---------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 1137d5a..f934a88 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -21,6 +21,21 @@
 #define JSON_NOEXCEPTION 1
 #include <nlohmann/json.hpp>
 
+#include <limits>
+
+namespace {
+
+// isInt64() returns true if json is an integer that int64_t can represent.
+bool isInt64(const nlohmann::json& json) {
+  if (json.is_number_unsigned()) {
+    return json.get<uint64_t>() <=
+           static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+  }
+  return json.is_number_integer();
+}
+
+}  // namespace
+
 namespace dap {
 namespace json {
 
@@ -46,7 +61,7 @@ bool NlohmannDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::integer* v) const {
-  if (!json->is_number_integer()) {
+  if (!isInt64(*json)) {
     return false;
   }
   *v = json->get<int64_t>();
@@ -87,7 +102,7 @@ bool NlohmannDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json->get<bool>());
   } else if (json->is_number_float()) {
     *v = dap::number(json->get<double>());
-  } else if (json->is_number_integer()) {
+  } else if (isInt64(*json)) {
     *v = dap::integer(json->get<int64_t>());
   } else if (json->is_string()) {
     *v = json->get<std::string>();
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..6b0973a 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -42,20 +42,11 @@ bool RapidDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::integer* v) const {
-  if (json()->IsInt()) {
-    *v = json()->GetInt();
-    return true;
-  } else if (json()->IsUint()) {
-    *v = static_cast<int64_t>(json()->GetUint());
-    return true;
-  } else if (json()->IsInt64()) {
-    *v = json()->GetInt64();
-    return true;
-  } else if (json()->IsUint64()) {
-    *v = static_cast<int64_t>(json()->GetUint64());
-    return true;
+  if (!json()->IsInt64()) {
+    return false;
   }
-  return false;
+  *v = json()->GetInt64();
+  return true;
 }
 
 bool RapidDeserializer::deserialize(dap::number* v) const {
@@ -92,8 +83,8 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json()->GetBool());
   } else if (json()->IsDouble()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
   } else if (json()->IsString()) {
     *v = dap::string(json()->GetString());
   } else if (json()->IsNull()) {
-- 
2.43.0


From 341f178be77f8057ff3c6a6b6a316f5d74c32cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 10/33] fix: decode objects only from JSON objects and count
 only arrays

---
 src/jsoncpp_json_serializer.cpp  | 3 +++
 src/nlohmann_json_serializer.cpp | 5 ++++-
 src/rapid_json_serializer.cpp    | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..613da3c 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -68,6 +68,9 @@ bool JsonCppDeserializer::deserialize(dap::string* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::object* v) const {
+  if (!json->isObject()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto i = json->begin(); i != json->end(); i++) {
     JsonCppDeserializer d(&*i);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index f934a88..981d1be 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -85,6 +85,9 @@ bool NlohmannDeserializer::deserialize(dap::string* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::object* v) const {
+  if (!json->is_object()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto& el : json->items()) {
     NlohmannDeserializer d(&el.value());
@@ -147,7 +150,7 @@ bool NlohmannDeserializer::array(
 bool NlohmannDeserializer::field(
     const std::string& name,
     const std::function<bool(dap::Deserializer*)>& cb) const {
-  if (!json->is_structured()) {
+  if (!json->is_object()) {
     return false;
   }
   auto it = json->find(name);
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 6b0973a..7ccb977 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -66,6 +66,9 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
@@ -108,7 +111,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
-- 
2.43.0


From fc4e31137e57f48334e919d2050bcadf4e77815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 11/33] fix: keep NUL bytes in strings and names (RapidJSON)

---
 src/rapid_json_serializer.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 7ccb977..dfe2602 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -19,12 +19,21 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 
+namespace {
+
+// ref() returns a string value that references str, which may hold NUL bytes.
+rapidjson::Value ref(const std::string& str) {
+  return rapidjson::Value(rapidjson::StringRef(str.data(), str.size()));
+}
+
+}  // namespace
+
 namespace dap {
 namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
@@ -61,7 +70,7 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  *v = dap::string(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
@@ -76,7 +85,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    (*v)[std::string(el->name.GetString(), el->name.GetStringLength())] =
+        el_val;
   }
   return true;
 }
@@ -89,7 +99,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
   } else if (json()->IsInt64()) {
     *v = dap::integer(json()->GetInt64());
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
@@ -134,7 +144,7 @@ bool RapidDeserializer::field(
   if (!json()->IsObject()) {
     return false;
   }
-  auto it = json()->FindMember(name.c_str());
+  auto it = json()->FindMember(ref(name));
   if (it == json()->MemberEnd()) {
     return cb(&NullDeserializer::instance);
   }
@@ -158,7 +168,7 @@ std::string RapidSerializer::dump() const {
   rapidjson::StringBuffer sb;
   rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(sb);
   json()->Accept(writer);
-  return sb.GetString();
+  return std::string(sb.GetString(), sb.GetSize());
 }
 
 bool RapidSerializer::serialize(dap::boolean v) {
@@ -186,11 +196,12 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
+    if (!json()->HasMember(ref(it.first))) {
+      rapidjson::Value name_value{
+          it.first.data(), static_cast<uint32_t>(it.first.size()), allocator};
       json()->AddMember(name_value, rapidjson::Value(), allocator);
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
+    rapidjson::Value& member = (*json())[ref(it.first)];
     RapidSerializer s(&member, allocator);
     if (!s.serialize(it.second)) {
       return false;
-- 
2.43.0


From bb954f114de8fe8a2f066ff9230ccc29071b7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 12/33] fix: parse numbers with full precision (RapidJSON)

---
 src/rapid_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index dfe2602..9b3a05b 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -33,7 +33,7 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.data(), str.size());
+  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From 9315848c797450d6c06330301780d7d45db08aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 13/33] fix: serialize a null any as null at the root
 (RapidJSON)

---
 src/rapid_json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 9b3a05b..538bff8 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -224,6 +224,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    json()->SetNull();
   } else {
     // reachable if array or custom serialized type is nested inside other dap::object
     auto type = get_any_type(v);
-- 
2.43.0


From d3c2807fe973282996089a20b7c275a8554eac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:49 +0000
Subject: [PATCH 14/33] fix: do not abort on malformed JSON (jsoncpp)

---
 src/jsoncpp_json_serializer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 613da3c..98a5530 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,7 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
+#include <exception>
 #include <memory>
 
 namespace dap {
@@ -151,12 +151,16 @@ Json::Value JsonCppDeserializer::parse(const std::string& text) {
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-  if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
-                         &error)) {
-    // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
+  try {
+    if (jsonReader->parse(text.data(), text.data() + text.size(), &json,
+                          &error)) {
+      return json;
+    }
+  } catch (const std::exception&) {
+    // Thrown for excessive nesting. cppdap expects that the JSON layer does not
+    // throw exceptions.
   }
-  return json;
+  return Json::Value();  // Malformed: decodes as nothing but a null.
 }
 
 JsonCppSerializer::JsonCppSerializer()
-- 
2.43.0


From cd1a718f9d86d69c53490c83ca50d4725312cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:01 +0000
Subject: [PATCH 15/33] fix: parse exactly the bytes of the text (RapidJSON)

---
 src/rapid_json_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 538bff8..62b7e67 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -33,7 +33,8 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
+  rapidjson::MemoryStream stream(str.data(), str.size());
+  doc->ParseStream<rapidjson::kParseFullPrecisionFlag>(stream);
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From 6b0ed6cd9fd8aa4f76c0aaa35d6b687c3694c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:47 +0000
Subject: [PATCH 16/33] fix: encode and decode the inherited field of
 StackFrameFormat

---
 src/protocol_types.cpp             | 19 ++++++++++---------
 tools/protocol_gen/protocol_gen.go | 13 +++++++++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/protocol_types.cpp b/src/protocol_types.cpp
index 2ae9100..db899e9 100644
--- a/src/protocol_types.cpp
+++ b/src/protocol_types.cpp
@@ -289,15 +289,16 @@ DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrame,
                               DAP_FIELD(presentationHint, "presentationHint"),
                               DAP_FIELD(source, "source"));
 
-DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrameFormat,
-                              "",
-                              DAP_FIELD(includeAll, "includeAll"),
-                              DAP_FIELD(line, "line"),
-                              DAP_FIELD(module, "module"),
-                              DAP_FIELD(parameterNames, "parameterNames"),
-                              DAP_FIELD(parameterTypes, "parameterTypes"),
-                              DAP_FIELD(parameterValues, "parameterValues"),
-                              DAP_FIELD(parameters, "parameters"));
+DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(StackFrameFormat,
+                                  ValueFormat,
+                                  "",
+                                  DAP_FIELD(includeAll, "includeAll"),
+                                  DAP_FIELD(line, "line"),
+                                  DAP_FIELD(module, "module"),
+                                  DAP_FIELD(parameterNames, "parameterNames"),
+                                  DAP_FIELD(parameterTypes, "parameterTypes"),
+                                  DAP_FIELD(parameterValues, "parameterValues"),
+                                  DAP_FIELD(parameters, "parameters"));
 
 DAP_IMPLEMENT_STRUCT_TYPEINFO(StepInTarget,
                               "",
diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index c5e112c..a87337e 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -297,8 +297,17 @@ func (s *cppStruct) WriteHeader(w io.Writer) {
 }
 func (s *cppStruct) WriteCPP(w io.Writer) {
 	// typeinfo
-	io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
-	io.WriteString(w, s.name)
+	switch s.base {
+	case "", "Request", "Response", "Event":
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
+		io.WriteString(w, s.name)
+	default:
+		// The base structure has fields of its own.
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(")
+		io.WriteString(w, s.name)
+		io.WriteString(w, ",\n                    ")
+		io.WriteString(w, s.base)
+	}
 	io.WriteString(w, ",\n                    \"")
 	io.WriteString(w, s.protoname)
 	io.WriteString(w, "\"")
-- 
2.43.0


From 3c9ceee360437e9efbcf6c4a94a663a8e8c0bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 17/33] fix: report a response to no request once, with its
 whole number

---
 src/session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..e5007cf 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -193,7 +193,6 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto responseIt = responseMap.find(seq);
       if (responseIt == responseMap.end()) {
-        errorfLocked("Unknown response with sequence %d", seq);
         return {};
       }
       auto out = std::move(responseIt->second);
@@ -441,7 +440,8 @@ class Impl : public dap::Session {
     GenericResponseHandler handler;
     std::tie(typeinfo, handler) = handlers.response(requestSeq);
     if (!typeinfo) {
-      handlers.error("Unknown response with sequence %d", requestSeq);
+      handlers.error("Unknown response with sequence %lld",
+                     static_cast<long long>(requestSeq));
       return;
     }
 
-- 
2.43.0


From b356a47db4011b062e34e46cfaddae0aeabce0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 18/33] fix: deliver the error text of a response unchanged

---
 src/session.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index e5007cf..e7de800 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -468,7 +468,7 @@ class Impl : public dap::Session {
         handlers.error("Failed to deserialize message");
         return;
       }
-      auto error = dap::Error("%s", message.c_str());
+      auto error = dap::Error(message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From eaf6956e573c5f706d3f2f31375218e60f38d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 19/33] fix: complete the request when its failed response
 carries no text

---
 src/session.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index e7de800..3aed76a 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -448,6 +448,8 @@ class Impl : public dap::Session {
     dap::boolean success = false;
     if (!d->field("success", &success)) {
       handlers.error("Response missing int 'success' field");
+      dap::Error error("Malformed response");
+      handler(nullptr, &error);
       return;
     }
 
@@ -466,7 +468,9 @@ class Impl : public dap::Session {
       std::string message;
       if (!d->field("message", &message)) {
         handlers.error("Failed to deserialize message");
-        return;
+      }
+      if (message.empty()) {
+        message = "Request failed";  // An empty message represents success.
       }
       auto error = dap::Error(message);
       handler(nullptr, &error);
-- 
2.43.0


From 8cdef371c19e58d59f203d55235121878da5069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 20/33] fix: forget a request that could not be sent

---
 src/session.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 3aed76a..b265ab6 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -117,10 +117,12 @@ class Impl : public dap::Session {
                  fs->field("arguments", [&](dap::Serializer* s) {
                    return requestTypeInfo->serialize(s, request);
                  });
-        })) {
+        }) ||
+        !send(s.dump())) {
+      handlers.response(seq);  // No response is to be expected.
       return false;
     }
-    return send(s.dump());
+    return true;
   }
 
   bool send(const dap::TypeInfo* typeinfo, const void* event) override {
-- 
2.43.0


From d8d0910c4565175d841553d417a97aebe8530c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 21/33] fix: report errors about handlers with the error mutex
 held

---
 src/session.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index b265ab6..20c030f 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -184,9 +184,10 @@ class Impl : public dap::Session {
           requestMap
               .emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Request handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Request handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -208,9 +209,9 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto added =
           responseMap.emplace(seq, std::make_pair(typeinfo, handler)).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response handler for sequence %d already registered",
-                     seq);
+        error("Response handler for sequence %d already registered", seq);
       }
     }
 
@@ -227,9 +228,10 @@ class Impl : public dap::Session {
       auto added =
           eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Event handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Event handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -244,20 +246,14 @@ class Impl : public dap::Session {
              const GenericResponseSentHandler& handler) {
       std::unique_lock<std::mutex> lock(responseSentMutex);
       auto added = responseSentMap.emplace(typeinfo, handler).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response sent handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Response sent handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
    private:
-    void errorfLocked(const char* format, ...) {
-      va_list vararg;
-      va_start(vararg, format);
-      errorLocked(format, vararg);
-      va_end(vararg);
-    }
-
     void errorLocked(const char* format, va_list args) {
       char buf[2048];
       vsnprintf(buf, sizeof(buf), format, args);
-- 
2.43.0


From 34d5776bc670eadd11cba320d99eb411823e9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:21 +0000
Subject: [PATCH 22/33] fix: accept requests and events without arguments or
 body

---
 src/session.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 20c030f..0a22aed 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -19,6 +19,7 @@
 
 #include "chan.h"
 #include "json_serializer.h"
+#include "null_json_serializer.h"
 #include "socket.h"
 
 #include <stdarg.h>
@@ -313,6 +314,21 @@ class Impl : public dap::Session {
     return {};
   }
 
+  // deserializeField() decodes the struct 'data' from the field 'name' of d.
+  // An absent field is decoded like an empty object.
+  static bool deserializeField(const dap::json::Deserializer* d,
+                               const char* name,
+                               const dap::TypeInfo* typeinfo,
+                               void* data) {
+    return d->field(name, [&](dap::Deserializer* d) {
+      if (d == &dap::json::NullDeserializer::instance) {
+        dap::json::Deserializer empty("{}");
+        return typeinfo->deserialize(&empty, data);
+      }
+      return typeinfo->deserialize(d, data);
+    });
+  }
+
   Payload processRequest(dap::json::Deserializer* d, dap::integer sequence) {
     dap::string command;
     if (!d->field("command", &command)) {
@@ -332,9 +348,7 @@ class Impl : public dap::Session {
     auto data = new uint8_t[typeinfo->size()];
     typeinfo->construct(data);
 
-    if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data);
-        })) {
+    if (!deserializeField(d, "arguments", typeinfo, data)) {
       handlers.error("Failed to deserialize request");
       typeinfo->destruct(data);
       delete[] data;
@@ -405,15 +419,7 @@ class Impl : public dap::Session {
     typeinfo->construct(data);
 
     // "body" is an optional field for some events, such as "Terminated Event".
-    bool body_ok = true;
-    d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data)) {
-        body_ok = false;
-      }
-      return true;
-    });
-
-    if (!body_ok) {
+    if (!deserializeField(d, "body", typeinfo, data)) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
       typeinfo->destruct(data);
       delete[] data;
-- 
2.43.0


From afaf9864734b15a9a587b0fea7a8892b7bf39ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:08 +0000
Subject: [PATCH 23/33] fix: release the contents of a message that is never
 dispatched

---
 src/session.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 0a22aed..da93eeb 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -314,6 +314,17 @@ class Impl : public dap::Session {
     return {};
   }
 
+  // newInstance() returns a new instance of the type, which is destructed and
+  // freed along with the last copy of the returned pointer.
+  static std::shared_ptr<uint8_t> newInstance(const dap::TypeInfo* typeinfo) {
+    auto data = new uint8_t[typeinfo->size()];
+    typeinfo->construct(data);
+    return std::shared_ptr<uint8_t>(data, [typeinfo](uint8_t* ptr) {
+      typeinfo->destruct(ptr);
+      delete[] ptr;
+    });
+  }
+
   // deserializeField() decodes the struct 'data' from the field 'name' of d.
   // An absent field is decoded like an empty object.
   static bool deserializeField(const dap::json::Deserializer* d,
@@ -345,19 +356,16 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = newInstance(typeinfo);
 
-    if (!deserializeField(d, "arguments", typeinfo, data)) {
+    if (!deserializeField(d, "arguments", typeinfo, data.get())) {
       handlers.error("Failed to deserialize request");
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
       handler(
-          data,
+          data.get(),
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
@@ -394,8 +402,6 @@ class Impl : public dap::Session {
               handler(nullptr, &error);
             }
           });
-      typeinfo->destruct(data);
-      delete[] data;
     };
   }
 
@@ -415,22 +421,15 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = newInstance(typeinfo);
 
     // "body" is an optional field for some events, such as "Terminated Event".
-    if (!deserializeField(d, "body", typeinfo, data)) {
+    if (!deserializeField(d, "body", typeinfo, data.get())) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
-    return [=] {
-      handler(data);
-      typeinfo->destruct(data);
-      delete[] data;
-    };
+    return [=] { handler(data.get()); };
   }
 
   void processResponse(const dap::Deserializer* d) {
-- 
2.43.0


From 3f9b005160be67029eed18456b4f513d03efcdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 24/33] fix: Socket: do not destroy the listener while its lock
 is held

When bind() or listen() failed, the constructor released the last reference to
the shared state from inside lock(), whose destructor then waited for the very
read lock being held: the constructor, and so Server::start(), never returned.
---
 src/socket.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..bfc9062 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -233,17 +233,15 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
-      if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
-        return;
-      }
-
-      if (listen(socket, 0) != 0) {
-        shared.reset();
-        return;
-      }
+      listening = bind(socket, info->ai_addr, (int)info->ai_addrlen) == 0 &&
+                  listen(socket, 0) == 0;
     });
+    // Note: shared must not be released while it is locked.
+    if (!listening) {
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From 570c0b14c87467b6573182b9f1f49b31dd6e4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 25/33] fix: Socket: close the descriptor of a connection in
 error

isOpen() forgot the descriptor of a socket with a pending error without closing
it, leaking it.
---
 src/socket.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index bfc9062..be6966f 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -164,8 +164,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    close();
     return false;
   }
 
-- 
2.43.0


From 6a8b82d632571e1e4a5ff9253d5b6e636d9b8b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 26/33] fix: Socket: write every byte before reporting success

send() may accept a part of the data, which write() took for all of it; and
sizes were cut to an int for both send() and recv().
---
 src/socket.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index be6966f..9684ddf 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -16,6 +16,9 @@
 
 #include "rwmutex.h"
 
+#include <algorithm>
+#include <limits>
+
 #if defined(_WIN32)
 #include <winsock2.h>
 #include <ws2tcpip.h>
@@ -43,6 +46,14 @@ using SOCKET = int;
 
 namespace {
 constexpr SOCKET InvalidSocket = static_cast<SOCKET>(-1);
+
+// chunkSize() returns how many of the given number of bytes are passed to a
+// single call of send() or recv(), which on some platforms take an int.
+int chunkSize(size_t bytes) {
+  constexpr auto max = static_cast<size_t>(std::numeric_limits<int>::max());
+  return static_cast<int>(std::min(bytes, max));
+}
+
 void init() {
 #if defined(_WIN32)
   if (wsaInitCount++ == 0) {
@@ -205,7 +216,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
       return 0;
     }
     auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+        recv(s, reinterpret_cast<char*>(buffer), chunkSize(bytes), 0);
     return (len < 0) ? 0 : len;
   }
 
@@ -214,11 +225,16 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return false;
     }
-    if (bytes == 0) {
-      return true;
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      auto sent = ::send(s, data, chunkSize(bytes), 0);
+      if (sent <= 0) {
+        return false;
+      }
+      data += sent;
+      bytes -= static_cast<size_t>(sent);
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    return true;
   }
 
  private:
-- 
2.43.0


From 9e2d432eceae8203be4d85c6957a6c2f1d69515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 27/33] fix: Socket: a write to a closed connection must not
 end the process

send() raises SIGPIPE when the peer, or a concurrent close(), has shut the
connection down; write() is to return false instead.
---
 src/socket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 9684ddf..3c5a7ed 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -47,6 +47,12 @@ using SOCKET = int;
 namespace {
 constexpr SOCKET InvalidSocket = static_cast<SOCKET>(-1);
 
+#if defined(MSG_NOSIGNAL)
+constexpr int SendFlags = MSG_NOSIGNAL;  // Don't raise SIGPIPE.
+#else
+constexpr int SendFlags = 0;
+#endif
+
 // chunkSize() returns how many of the given number of bytes are passed to a
 // single call of send() or recv(), which on some platforms take an int.
 int chunkSize(size_t bytes) {
@@ -227,7 +233,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     }
     auto data = reinterpret_cast<const char*>(buffer);
     while (bytes > 0) {
-      auto sent = ::send(s, data, chunkSize(bytes), 0);
+      auto sent = ::send(s, data, chunkSize(bytes), SendFlags);
       if (sent <= 0) {
         return false;
       }
-- 
2.43.0


From fd5f529a2319a404f2a92693c0eb48ca62ac69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 28/33] fix: Socket::connect: a connection refused at once is
 not a connection

With a timeout, any failure of connect() was taken for a connection in progress.
A socket that is not connecting is writable and has no pending error, so a dead
stream was returned, for an unreachable network for instance.
---
 src/socket.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 3c5a7ed..ef323b6 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -23,6 +23,7 @@
 #include <winsock2.h>
 #include <ws2tcpip.h>
 #else
+#include <errno.h>
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
@@ -91,6 +92,14 @@ bool setBlocking(SOCKET s, bool blocking) {
 #endif
 }
 
+bool connectInProgress() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+  return errno == EINPROGRESS;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -326,7 +335,7 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
       if (setBlocking(socket, true)) {
         out = shared;
       }
-    } else {
+    } else if (connectInProgress()) {
       const auto microseconds = timeoutMillis * 1000;
 
       fd_set fdset;
-- 
2.43.0


From cadcec1b210583e9a85081836b2b4de3d5f2ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 29/33] fix: Socket::connect: timeouts over 71 minutes
 overflowed

timeoutMillis * 1000 wrapped around in 32 bits.
---
 src/socket.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index ef323b6..c7d4b6a 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -336,15 +336,13 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else if (connectInProgress()) {
-      const auto microseconds = timeoutMillis * 1000;
-
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
 
       timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
+      tv.tv_sec = timeoutMillis / 1000;
+      tv.tv_usec = (timeoutMillis % 1000) * 1000;
       res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
       if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
         out = shared;
-- 
2.43.0


From e5b6e9173332dfd739916738904be344d133b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 30/33] fix: Socket::connect: support descriptors beyond
 FD_SETSIZE

FD_SET() writes past the end of the fd_set for descriptors of 1024 and up.
Use poll(), which has no such limit.
---
 src/socket.cpp | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index c7d4b6a..c876ca8 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -27,7 +27,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <unistd.h>
 #endif
@@ -100,6 +100,32 @@ bool connectInProgress() {
 #endif
 }
 
+// waitWritable() waits for s to become writable, for at most timeoutMillis.
+bool waitWritable(SOCKET s, uint32_t timeoutMillis) {
+#if defined(_WIN32)
+  fd_set fdset;
+  FD_ZERO(&fdset);
+  FD_SET(s, &fdset);
+
+  timeval tv;
+  tv.tv_sec = timeoutMillis / 1000;
+  tv.tv_usec = (timeoutMillis % 1000) * 1000;
+  return select(static_cast<int>(s + 1), nullptr, &fdset, nullptr, &tv) > 0;
+#else
+  pollfd fd = {};
+  fd.fd = s;
+  fd.events = POLLOUT;
+  while (true) {
+    const auto wait = chunkSize(timeoutMillis);
+    timeoutMillis -= static_cast<uint32_t>(wait);
+    const auto res = poll(&fd, 1, wait);
+    if (res != 0 || timeoutMillis == 0) {
+      return res > 0;
+    }
+  }
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -336,15 +362,8 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else if (connectInProgress()) {
-      fd_set fdset;
-      FD_ZERO(&fdset);
-      FD_SET(socket, &fdset);
-
-      timeval tv;
-      tv.tv_sec = timeoutMillis / 1000;
-      tv.tv_usec = (timeoutMillis % 1000) * 1000;
-      res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
-      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
+      if (waitWritable(socket, timeoutMillis) && !errored(socket) &&
+          setBlocking(socket, true)) {
         out = shared;
       }
     }
-- 
2.43.0


From 701b45ae190cd71bca1d757a0b6fd9cd592e3415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 31/33] fix: file streams: report data that could not be stored

fwrite() usually only buffers; that the data cannot be stored shows when it is
flushed, whose result was ignored.
---
 src/io.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index b4133e5..2c89439 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -134,11 +134,7 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
-    if (fwrite(buffer, 1, n, f) == n) {
-      fflush(f);
-      return true;
-    }
-    return false;
+    return fwrite(buffer, 1, n, f) == n && fflush(f) == 0;
   }
 
  private:
-- 
2.43.0


From e9382281cea736a859934efd00bdc4c79b694d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:33 +0000
Subject: [PATCH 32/33] fix: file streams: do not use the FILE once it is
 closed

read() and write() passed the closed FILE to the C library, and close() could
close it while another thread was reading or writing.
---
 src/io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 2c89439..1c8f1c1 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -116,12 +116,17 @@ class File : public dap::ReaderWriter {
   void close() override {
     if (closable) {
       if (!closed.exchange(true)) {
+        std::unique_lock<std::mutex> readLock(readMutex);
+        std::unique_lock<std::mutex> writeLock(writeMutex);
         fclose(f);
       }
     }
   }
   size_t read(void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(readMutex);
+    if (closed) {
+      return 0;
+    }
     auto out = reinterpret_cast<char*>(buffer);
     for (size_t i = 0; i < n; i++) {
       int c = fgetc(f);
@@ -134,6 +139,9 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
+    if (closed) {
+      return false;
+    }
     return fwrite(buffer, 1, n, f) == n && fflush(f) == 0;
   }
 
-- 
2.43.0


From ab192856770060074a1b4609c7a2286cccff1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:33 +0000
Subject: [PATCH 33/33] fix: structures described with a base lost the base's
 own base, and a base that is not first was misread

DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT() used the base's own fields only, so the
fields of a base of the base were neither encoded nor decoded, and it cast the
untyped object pointer straight to the base, which is wrong when the base is
not the first one of the structure.
---
 include/dap/typeof.h | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..06402b6 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -128,6 +128,25 @@ struct TypeOf<optional<T>> {
 namespace detail {
 template <class T, class M>
 M member_type(M T::*);
+
+// BaseFields deserializes and serializes the fields that STRUCT inherits from
+// BASE. There are none if BASE is void.
+template <class STRUCT, class BASE>
+struct BaseFields {
+  static bool deserialize(const Deserializer* d, void* obj) {
+    return TypeOf<BASE>::deserializeFields(
+        d, static_cast<BASE*>(static_cast<STRUCT*>(obj)));
+  }
+  static bool serialize(FieldSerializer* fs, const void* obj) {
+    return TypeOf<BASE>::serializeFields(
+        fs, static_cast<const BASE*>(static_cast<const STRUCT*>(obj)));
+  }
+};
+template <class STRUCT>
+struct BaseFields<STRUCT, void> {
+  static bool deserialize(const Deserializer*, void*) { return true; }
+  static bool serialize(FieldSerializer*, const void*) { return true; }
+};
 }  // namespace detail
 
 // DAP_TYPEOF() returns the type of the struct (s) member (m).
@@ -160,10 +179,16 @@ M member_type(M T::*);
 // internally by DAP_IMPLEMENT_STRUCT_TYPEINFO() and
 // DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT().
 // You probably do not want to use this directly.
-#define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, ...)           \
+#define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, ...) \
+  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION_EXT(STRUCT, void, NAME, __VA_ARGS__)
+
+#define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION_EXT(STRUCT, BASE, NAME, ...) \
   bool TypeOf<STRUCT>::deserializeFields(const Deserializer* fd, void* obj) { \
     using StructTy = STRUCT;                                                  \
     (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    if (!detail::BaseFields<STRUCT, BASE>::deserialize(fd, obj)) {            \
+      return false;                                                           \
+    }                                                                         \
     for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {            \
       if (!fd->field(field.name, [&](Deserializer* d) {                       \
             auto ptr = reinterpret_cast<uint8_t*>(obj) + field.offset;        \
@@ -177,6 +202,9 @@ M member_type(M T::*);
   bool TypeOf<STRUCT>::serializeFields(FieldSerializer* fs, const void* obj) {\
     using StructTy = STRUCT;                                                  \
     (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    if (!detail::BaseFields<STRUCT, BASE>::serialize(fs, obj)) {              \
+      return false;                                                           \
+    }                                                                         \
     for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {            \
       if (!fs->field(field.name, [&](Serializer* s) {                         \
             auto ptr = reinterpret_cast<const uint8_t*>(obj) + field.offset;  \
@@ -230,22 +258,17 @@ M member_type(M T::*);
 #define DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(STRUCT, BASE, NAME, ...)        \
   static_assert(std::is_base_of<BASE, STRUCT>::value,                     \
                 #STRUCT " does not derive from " #BASE);                  \
-  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, __VA_ARGS__)     \
+  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION_EXT(                           \
+      STRUCT, BASE, NAME, __VA_ARGS__)                                    \
   const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                         \
     struct TI : BasicTypeInfo<STRUCT> {                                   \
       TI() : BasicTypeInfo<STRUCT>(NAME) {}                               \
       bool deserialize(const Deserializer* d, void* obj) const override { \
-        auto derived = static_cast<STRUCT*>(obj);                         \
-        auto base = static_cast<BASE*>(obj);                              \
-        return TypeOf<BASE>::deserializeFields(d, base) &&                \
-               deserializeFields(d, derived);                             \
+        return deserializeFields(d, obj);                                 \
       }                                                                   \
       bool serialize(Serializer* s, const void* obj) const override {     \
         return s->object([&](FieldSerializer* fs) {                       \
-          auto derived = static_cast<const STRUCT*>(obj);                 \
-          auto base = static_cast<const BASE*>(obj);                      \
-          return TypeOf<BASE>::serializeFields(fs, base) &&               \
-                 serializeFields(fs, derived);                            \
+          return serializeFields(fs, obj);                                \
         });                                                               \
       }                                                                   \
     };                                                                    \
-- 
2.43.0

