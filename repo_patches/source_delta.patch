From 1ed4539f406467e804fb4d992ee74f964950a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:16 +0000
Subject: [PATCH 01/23] fix: base64_encode reads up to two bytes past the end
 of its input

---
 include/persistence/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..424ef7a 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -100,7 +100,7 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        std::size_t fast_sextets = input.size() < 2 ? 0 : (input.size() - 2) / 6;  // 8-byte word read for each 6 bytes must stay in addressable range
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
-- 
2.43.0


From 6fff61c242bec513efa38229287c0236553890a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:54 +0000
Subject: [PATCH 02/23] fix: DOM reader stores infinity when a number exceeds
 the range of float

---
 include/persistence/deserialize_fundamental.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..976147c 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -290,7 +290,21 @@ namespace persistence
                 }
             }
 
-            value = static_cast<T>(json.GetDouble());
+            auto double_value = json.GetDouble();
+            if constexpr (sizeof(T) < sizeof(double)) {
+                PERSISTENCE_IF_UNLIKELY(double_value < std::numeric_limits<T>::lowest() || double_value > std::numeric_limits<T>::max()) {
+                    if constexpr (Exception) {
+                        throw JsonDeserializationError(
+                            "floating-point number out of range",
+                            Path(context.segments()).str()
+                        );
+                    } else {
+                        return false;
+                    }
+                }
+            }
+
+            value = static_cast<T>(double_value);
             return true;
         }
     };
-- 
2.43.0


From f1b300121cb29ff7ea1525c519acb5821213ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:20 +0000
Subject: [PATCH 03/23] fix: string enumeration parsers stay on the parser
 stack after reading their value

---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From 43827bcb5f64339a2ebb8cc87c7320e1c695bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:20 +0000
Subject: [PATCH 04/23] fix: reflected enumerations accept a name followed by a
 NUL character

---
 include/persistence/deserialize_enum.hpp | 2 +-
 include/persistence/parse_enum.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..6368520 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,7 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            PERSISTENCE_IF_UNLIKELY(view.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..e473d97 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,7 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            PERSISTENCE_IF_UNLIKELY(s.literal.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From 6d0c191b0285cd5d2fc9b9ff5ff757c5a72a886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 05/23] fix: serializing an object to a DOM drops a member that
 cannot be serialized and reports success

---
 include/persistence/serialize_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..df3c2f7 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -63,6 +63,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
-- 
2.43.0


From 2d01aade50f5c0e37e89d8d76770958a41a2766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 06/23] fix: a member that cannot be read from a DOM is
 forgotten when a later member can be read

---
 include/persistence/deserialize_object.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..b0eb627 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -5,6 +5,7 @@
 #include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/traits.hpp"
+#include "detail/unlikely.hpp"
 #include <optional>
 
 namespace persistence
@@ -33,12 +34,18 @@ namespace persistence
         {
             static_assert(std::is_base_of_v<B, C>, "expected a member variable part of the class inheritance chain");
 
+            PERSISTENCE_IF_UNLIKELY(!result) {
+                return *this;
+            }
+
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
                 result = deserialize<Exception>(it->value, value, value_context);
-                member.ref(object) = std::move(value);
+                if (result) {
+                    member.ref(object) = std::move(value);
+                }
             } else {
                 member.ref(object) = std::nullopt;
             }
@@ -50,6 +57,10 @@ namespace persistence
         {
             static_assert(std::is_base_of_v<B, C>, "expected a member variable part of the class inheritance chain");
 
+            PERSISTENCE_IF_UNLIKELY(!result) {
+                return *this;
+            }
+
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
@@ -73,6 +84,10 @@ namespace persistence
         {
             static_assert(std::is_base_of_v<B, C>, "expected a member variable part of the class inheritance chain");
 
+            PERSISTENCE_IF_UNLIKELY(!result) {
+                return *this;
+            }
+
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-- 
2.43.0


From 6075de471e7bc44d1124e02e26f9b385ec326489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 07/23] fix: shared objects in a set are referenced by the path
 of the set, not of the item

---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From 9368bc90850619ca07b5172502626ad8947a88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 08/23] fix: object keys read from a DOM are truncated at an
 embedded NUL character

---
 include/persistence/deserialize_map.hpp    | 5 +++--
 include/persistence/deserialize_object.hpp | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..e04a171 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -23,11 +23,12 @@ namespace persistence
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                std::string_view name(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(name));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(name)] = std::move(item);
             }
             return true;
         }
diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index b0eb627..e1ece57 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -41,7 +41,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 T value;
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(std::string_view(it->name.GetString(), it->name.GetStringLength())));
                 result = deserialize<Exception>(it->value, value, value_context);
                 if (result) {
                     member.ref(object) = std::move(value);
@@ -63,7 +63,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(std::string_view(it->name.GetString(), it->name.GetStringLength())));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context);
                 return *this;
             } else {
@@ -90,7 +90,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(std::string_view(it->name.GetString(), it->name.GetStringLength())));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context);
             }
             return *this;
-- 
2.43.0


From b1d2b30812f5c959e42b78f3d472c81923e9743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 09/23] fix: a path treats an empty object key as array index 0

---
 include/persistence/detail/segment.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..3f300f0 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -12,17 +12,18 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
+        bool named = false;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From c4480660a6eb62e4f1c2fa8b5f3a19615020e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 10/23] fix: characters ~ and / in object keys are not escaped
 in JSON pointers

---
 include/persistence/detail/path.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..73d6f56 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -24,7 +24,16 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    // escape special characters as per RFC 6901
+                    for (char c : it->name) {
+                        if (c == '~') {
+                            path.append("~0");
+                        } else if (c == '/') {
+                            path.append("~1");
+                        } else {
+                            path.push_back(c);
+                        }
+                    }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
                     constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
-- 
2.43.0


From fed06c767912eace74102cfeeec8653d9027387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 11/23] fix: array indices with the maximum number of digits
 are left out of a path

---
 include/persistence/detail/path.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 73d6f56..1942e89 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -36,7 +36,7 @@ namespace persistence
                     }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
-                    constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
+                    constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10 + 1;
                     std::size_t size = path.size();
                     path.resize(size + max_len);
 
-- 
2.43.0


From 6044677b1a8135eb4ece0266a83aea5f3dca114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 12/23] fix: a constructor that throws on the parser stack
 leaves a stack entry without an object

---
 include/persistence/detail/polymorphic_stack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..2cac591 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -27,11 +27,12 @@ namespace persistence
                     throw std::out_of_range("stack space exhausted");
                 }
 
+                // ensure proper alignment for newly constructed object
+                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From 4fa703daa3761e37003afd60266292732c541afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 13/23] fix: parsing text nested deeper than the parser stack
 throws std::out_of_range

---
 include/persistence/parse.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..13be4b1 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -17,7 +17,13 @@ namespace persistence
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            try {
+                return reader.Parse(stream, context.dispatcher);
+            } catch (const std::out_of_range& e) {
+                // nesting level exceeds capacity of parser stack
+                context.fail(e.what());
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
         }
     }
 
-- 
2.43.0


From 59a483e5cf68f9deab38b5ed1b25862a64b5bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:11 +0000
Subject: [PATCH 14/23] fix: a back-reference that cannot be resolved is not
 reported by throwing functions, and aborts if malformed

---
 include/persistence/deserialize_pointer.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..1f1200c 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/pointer.h>
@@ -40,15 +41,22 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
-                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
-                    PERSISTENCE_IF_UNLIKELY(!object) {
+                    if (!detail::check_string<Exception>(it->value, context)) {
                         return false;
                     }
 
-                    auto ref = context.get(object);
+                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
+                    const rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
+                    auto ref = object ? context.get(object) : std::nullopt;
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
+                        if constexpr (Exception) {
+                            throw JsonDeserializationError(
+                                "unresolved back-reference",
+                                Path(context.segments()).str()
+                            );
+                        } else {
+                            return false;
+                        }
                     }
 
                     pointer = std::reinterpret_pointer_cast<T>(ref.value());
-- 
2.43.0


From 2d7675b220deb7b0d7aac96d6d9cb4073a7aaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:11 +0000
Subject: [PATCH 15/23] fix: a back-reference to a shared object of another
 type reinterprets its memory

---
 include/persistence/deserialize_pointer.hpp        |  4 ++--
 include/persistence/detail/deserialize_context.hpp | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index 1f1200c..c11edb3 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -47,7 +47,7 @@ namespace persistence
 
                     rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
                     const rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
-                    auto ref = object ? context.get(object) : std::nullopt;
+                    auto ref = object ? context.get(object, typeid(T)) : std::nullopt;
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
                         if constexpr (Exception) {
                             throw JsonDeserializationError(
@@ -69,7 +69,7 @@ namespace persistence
                 return false;
             }
 
-            context.put(&json, pointer);
+            context.put(&json, typeid(T), pointer);
             return true;
         }
     };
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..e9fe674 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,6 +2,9 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeindex>
+#include <utility>
 
 namespace persistence
 {
@@ -10,7 +13,7 @@ namespace persistence
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        ReferenceTable<std::pair<const rapidjson::Value*, std::type_index>, std::shared_ptr<void>> references;
     };
 
     struct DeserializerContext
@@ -26,14 +29,14 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
+        std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer, const std::type_info& type) const
         {
-            return global.references.get(pointer);
+            return global.references.get(std::make_pair(pointer, std::type_index(type)));
         }
 
-        void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
+        void put(const rapidjson::Value* pointer, const std::type_info& type, std::shared_ptr<void> object)
         {
-            global.references.put(std::move(pointer), std::move(object));
+            global.references.put(std::make_pair(pointer, std::type_index(type)), std::move(object));
         }
 
         rapidjson::Document& document()
-- 
2.43.0


From f2120fec9a37ed3d4cedcc0d4589a95ca2d77f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:11 +0000
Subject: [PATCH 16/23] fix: a back-reference resolves to an object discarded
 with a variant alternative

---
 include/persistence/detail/references.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..54c6d3f 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -19,12 +19,12 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            references.insert_or_assign(key, value);
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            references.insert_or_assign(std::move(key), std::move(value));
         }
 
     private:
-- 
2.43.0


From 722bf0a9265c2d7ed230e59945bcc1273723585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:30 +0000
Subject: [PATCH 17/23] fix: arrays and sets of characters, integer
 enumerations or pointers to numbers cannot be parsed

---
 include/persistence/parse_items.hpp  | 67 ++++++++++++++++++++++++++++
 include/persistence/parse_set.hpp    |  9 ++--
 include/persistence/parse_vector.hpp |  9 ++--
 3 files changed, 79 insertions(+), 6 deletions(-)

diff --git a/include/persistence/parse_items.hpp b/include/persistence/parse_items.hpp
index 9641fd5..0528cc2 100644
--- a/include/persistence/parse_items.hpp
+++ b/include/persistence/parse_items.hpp
@@ -9,4 +9,71 @@ namespace persistence
     {
         using JsonParseHandler<typename JsonParser<T>::json_type, JsonArrayEnd>::JsonParseHandler;
     };
+
+    /**
+     * Forwards each JSON token that starts an array item to a function `parse_item` in the derived class.
+     *
+     * @tparam D The derived class.
+     * @tparam T The C++ type of an array item.
+     */
+    template<typename D, typename T>
+    struct JsonArrayItemForwardHandler : JsonArrayItemParseHandler<T>
+    {
+        using JsonArrayItemParseHandler<T>::JsonArrayItemParseHandler;
+
+        bool parse(const JsonValueNull& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueBoolean& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueInteger& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueUnsigned& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueInteger64& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueUnsigned64& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueDouble& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueNumber& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonValueString& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonObjectStart& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+
+        bool parse(const JsonArrayStart& item) override
+        {
+            return static_cast<D*>(this)->parse_item(item);
+        }
+    };
 }
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..6f1c9be 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -12,10 +12,12 @@ namespace persistence
      * Parses a JSON array of possibly composite values into a C++ `set<T>`.
      */
     template<typename T>
-    struct JsonSetParser : JsonArrayItemParseHandler<T>
+    struct JsonSetParser : JsonArrayItemForwardHandler<JsonSetParser<T>, T>
     {
+        using JsonArrayItemForwardHandler<JsonSetParser<T>, T>::parse;
+
         JsonSetParser(ReaderContext& context, std::set<T>& container)
-            : JsonArrayItemParseHandler<T>(context)
+            : JsonArrayItemForwardHandler<JsonSetParser<T>, T>(context)
             , container(container)
         {}
 
@@ -31,7 +33,8 @@ namespace persistence
             return true;
         }
 
-        bool parse(const typename JsonParser<T>::json_type& json_item) override
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             // use temporary storage for parsing, set elements are immutable
             storage.emplace_back();
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..5f4683f 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -11,10 +11,12 @@ namespace persistence
      * Parses a JSON array of possibly composite values into a C++ `vector<T>`.
      */
     template<typename T>
-    struct JsonArrayParser : JsonArrayItemParseHandler<T>
+    struct JsonArrayParser : JsonArrayItemForwardHandler<JsonArrayParser<T>, T>
     {
+        using JsonArrayItemForwardHandler<JsonArrayParser<T>, T>::parse;
+
         JsonArrayParser(ReaderContext& context, std::vector<T>& container)
-            : JsonArrayItemParseHandler<T>(context)
+            : JsonArrayItemForwardHandler<JsonArrayParser<T>, T>(context)
             , container(container)
         {}
 
@@ -24,7 +26,8 @@ namespace persistence
             return true;
         }
 
-        bool parse(const typename JsonParser<T>::json_type& json_item) override
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             container.emplace_back();
             ReaderContext& ctx = this->context;
-- 
2.43.0


From 743034fe6b398d2ca21d6ec744250d6247f6d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:42 +0000
Subject: [PATCH 18/23] fix: programs hang at start-up for classes whose member
 names agree in the low-order bits of each character

---
 include/persistence/detail/perfect_hash.hpp | 23 +++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..72b3283 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -8,6 +8,25 @@ namespace persistence
     {
         using hash_t = std::size_t;
     
+        /**
+         * Lets every bit of a hash value affect its low-order bits.
+         *
+         * The low-order bits of an FNV-1 hash depend only on the low-order bits of each octet, irrespective of the seed.
+         */
+        inline constexpr hash_t mix(hash_t d)
+        {
+            if constexpr (sizeof(hash_t) == sizeof(std::uint32_t)) {
+                d ^= d >> 16;
+                d *= 0x85ebca6b;
+                d ^= d >> 16;
+            } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
+                d ^= d >> 32;
+                d *= 0xff51afd7ed558ccd;
+                d ^= d >> 32;
+            }
+            return d;
+        }
+
         /** Fowler–Noll–Vo hash function variant FNV-1. */
         inline constexpr hash_t hash(hash_t d, const std::string_view& str)
         {
@@ -23,7 +42,7 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
-                return d & 0x7fffffff;
+                return mix(d) & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
                 if (d == 0) {
@@ -36,7 +55,7 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
-                return d & 0x7fffffffffffffff;
+                return mix(d) & 0x7fffffffffffffff;
             }
         }
     }
-- 
2.43.0


From e75f3a0af0552d6574fbbd0141420456ff296344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:16 +0000
Subject: [PATCH 19/23] fix: dates and times outside the range of the time type
 are read as other instants

---
 include/persistence/datetime.hpp | 49 ++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..3feb9d4 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -35,20 +35,43 @@ namespace persistence
 {
     using timestamp = std::chrono::time_point<std::chrono::system_clock>;
 
+    namespace detail
+    {
+        /**
+         * Creates a POSIX timestamp (seconds since epoch) from a Gregorian calendar date and UTC time.
+         */
+        inline std::time_t make_posix(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+        {
+            std::tm tm{};
+            tm.tm_year = year - 1900;
+            tm.tm_mon = month - 1;
+            tm.tm_mday = day;
+            tm.tm_hour = hour;
+            tm.tm_min = minute;
+            tm.tm_sec = second;
+            return utc_to_posix(&tm);
+        }
+    }
+
     /**
      * Creates a chrono time point from a Gregorian calendar date and UTC time.
      */
     inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
     {
-        std::tm tm{};
-        tm.tm_year = year - 1900;
-        tm.tm_mon = month - 1;
-        tm.tm_mday = day;
-        tm.tm_hour = hour;
-        tm.tm_min = minute;
-        tm.tm_sec = second;
-        std::time_t t = detail::utc_to_posix(&tm);
-        return std::chrono::system_clock::from_time_t(t);
+        return std::chrono::system_clock::from_time_t(detail::make_posix(year, month, day, hour, minute, second));
+    }
+
+    /**
+     * Checks if a Gregorian calendar date and UTC time lie in the range of a chrono time point.
+     */
+    inline bool is_representable(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+    {
+        using std::chrono::duration_cast;
+        using std::chrono::seconds;
+
+        seconds time(detail::make_posix(year, month, day, hour, minute, second));
+        return time >= duration_cast<seconds>(timestamp::min().time_since_epoch())
+            && time <= duration_cast<seconds>(timestamp::max().time_since_epoch());
     }
 
     inline constexpr bool is_leap_year(unsigned year)
@@ -125,6 +148,10 @@ namespace persistence
             return false;
         }
 
+        PERSISTENCE_IF_UNLIKELY(!is_representable(year, month, day, 0, 0, 0)) {
+            return false;
+        }
+
         value = make_datetime(year, month, day, 0, 0, 0);
         return true;
     }
@@ -166,6 +193,10 @@ namespace persistence
             return false;
         }
 
+        PERSISTENCE_IF_UNLIKELY(!is_representable(year, month, day, hour, minute, second)) {
+            return false;
+        }
+
         value = make_datetime(year, month, day, hour, minute, second);
         return true;
     }
-- 
2.43.0


From ba6a8ba7b5ee1ff779c9ace7560f2a68daba4cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:16 +0000
Subject: [PATCH 20/23] fix: writing dates and times from several threads mixes
 up their texts

---
 include/persistence/datetime.hpp | 38 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 3feb9d4..4dbf86a 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -14,6 +14,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return _mkgmtime(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline void posix_to_utc(std::time_t posix_time, std::tm* cal) {
+            gmtime_s(cal, &posix_time);
+        }
     }
 }
 #else
@@ -27,6 +34,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return timegm(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline void posix_to_utc(std::time_t posix_time, std::tm* cal) {
+            gmtime_r(&posix_time, cal);
+        }
     }
 }
 #endif
@@ -281,10 +295,11 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
+        std::tm calendar_time{};
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_date dt;
@@ -305,13 +320,14 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
-        int hour = calendar_time->tm_hour;
-        int minute = calendar_time->tm_min;
-        int second = calendar_time->tm_sec;
+        std::tm calendar_time{};
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
+        int hour = calendar_time.tm_hour;
+        int minute = calendar_time.tm_min;
+        int second = calendar_time.tm_sec;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_datetime dt;
-- 
2.43.0


From 5bff2dd8b899bc3c42e36124448eb109c502e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:24 +0000
Subject: [PATCH 21/23] fix: control characters 0x1A to 0x1F are written
 unescaped in strings of 16 characters or more

---
 include/persistence/utility.hpp    |  3 ++-
 include/persistence/write_base.hpp | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..11e1794 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "detail/config.hpp"
 #include "detail/pointer_traits.hpp"
+#include "write_base.hpp"
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
@@ -14,7 +15,7 @@ namespace persistence
     inline std::string document_to_string(const rapidjson::Document& doc)
     {
         rapidjson::StringBuffer buffer;
-        rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
+        StringWriter writer(buffer);
         doc.Accept(writer);
         return std::string(buffer.GetString(), buffer.GetSize());
     }
diff --git a/include/persistence/write_base.hpp b/include/persistence/write_base.hpp
index f3c2317..ddf64ee 100644
--- a/include/persistence/write_base.hpp
+++ b/include/persistence/write_base.hpp
@@ -3,6 +3,7 @@
 #include "detail/defer.hpp"
 #include "detail/write_context.hpp"
 #include "detail/config.hpp"
+#include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
 namespace persistence
@@ -18,7 +19,16 @@ namespace persistence
         static_assert(detail::fail<T>, "expected a type that can be serialized to JSON");
     };
 
-    using StringWriter = rapidjson::Writer<rapidjson::StringBuffer>;
+    namespace detail
+    {
+        // selects the generic string output of RapidJSON; the SIMD specializations for the default writer type
+        // leave control characters 0x1A to 0x1F unescaped in longer strings, which is not valid JSON
+        struct StringWriterAllocator : rapidjson::CrtAllocator {};
+    }
+
+    using StringWriter = rapidjson::Writer<
+        rapidjson::StringBuffer, rapidjson::UTF8<>, rapidjson::UTF8<>, detail::StringWriterAllocator
+    >;
 
     template<typename T>
     bool serialize(const T& obj, StringWriter& writer, WriterContext& context);
-- 
2.43.0


From becc862be39f4ff6375011ae8877f85107e681d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:04 +0000
Subject: [PATCH 22/23] fix: do not take an object and its first member for the
 same shared object

---
 include/persistence/detail/output_context.hpp | 13 ++++++++-----
 include/persistence/serialize_pointer.hpp     |  4 ++--
 include/persistence/write_pointer.hpp         |  4 ++--
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/persistence/detail/output_context.hpp b/include/persistence/detail/output_context.hpp
index c18eb79..b5e0c81 100644
--- a/include/persistence/detail/output_context.hpp
+++ b/include/persistence/detail/output_context.hpp
@@ -2,12 +2,15 @@
 #include "references.hpp"
 #include "segment.hpp"
 #include <memory>
+#include <typeindex>
+#include <utility>
 
 namespace persistence
 {
     struct WriterReferenceContext
     {
-        ReferenceTable<std::shared_ptr<void>, Segments> references;
+        // an object and its first member share the same address, and are told apart by their type
+        ReferenceTable<std::pair<std::shared_ptr<void>, std::type_index>, Segments> references;
     };
 
     template<typename GlobalContext>
@@ -24,14 +27,14 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<Segments> get(const std::shared_ptr<void>& pointer) const
+        std::optional<Segments> get(const std::shared_ptr<void>& pointer, const std::type_info& type) const
         {
-            return global_context.references.get(pointer);
+            return global_context.references.get(std::make_pair(pointer, std::type_index(type)));
         }
 
-        void put(std::shared_ptr<void> pointer)
+        void put(std::shared_ptr<void> pointer, const std::type_info& type)
         {
-            global_context.references.put(std::move(pointer), segments());
+            global_context.references.put(std::make_pair(std::move(pointer), std::type_index(type)), segments());
         }
 
         GlobalContext& global()
diff --git a/include/persistence/serialize_pointer.hpp b/include/persistence/serialize_pointer.hpp
index 38355aa..5bec4ac 100644
--- a/include/persistence/serialize_pointer.hpp
+++ b/include/persistence/serialize_pointer.hpp
@@ -37,7 +37,7 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, rapidjson::Value& json) const
         {
-            auto segments = context.get(pointer);
+            auto segments = context.get(pointer, typeid(T));
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
 
@@ -56,7 +56,7 @@ namespace persistence
                 }
 
                 // assign a "/path/to/this/occurrence"
-                context.put(pointer);
+                context.put(pointer, typeid(T));
             }
             return true;
         }
diff --git a/include/persistence/write_pointer.hpp b/include/persistence/write_pointer.hpp
index ba417a6..65d03a9 100644
--- a/include/persistence/write_pointer.hpp
+++ b/include/persistence/write_pointer.hpp
@@ -37,7 +37,7 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, StringWriter& writer) const
         {
-            auto segments = context.get(pointer);
+            auto segments = context.get(pointer, typeid(T));
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
 
@@ -53,7 +53,7 @@ namespace persistence
                 }
 
                 // assign a "/path/to/this/occurrence"
-                context.put(pointer);
+                context.put(pointer, typeid(T));
             }
             return true;
         }
-- 
2.43.0


From 5e24fdf57b1e099f5bfbf8124256ffd342084632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:54 +0000
Subject: [PATCH 23/23] fix: report failures in members of derived classes

---
 include/persistence/deserialize_object.hpp | 3 +--
 include/persistence/serialize_object.hpp   | 3 +--
 include/persistence/write_object.hpp       | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index e1ece57..c89a8a3 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -145,8 +145,7 @@ namespace persistence
             }
 
             JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
-            value.persist(deserializer);
-            return static_cast<bool>(deserializer);
+            return static_cast<bool>(value.persist(deserializer));
         }
     };
 }
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index df3c2f7..e395a9b 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -109,8 +109,7 @@ namespace persistence
             JsonObjectSerializer<T> serializer(context, value, json);
 
             json.SetObject();
-            const_cast<T&>(value).persist(serializer);
-            return static_cast<bool>(serializer);
+            return static_cast<bool>(const_cast<T&>(value).persist(serializer));
         }
     };
 }
diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..bda3ad0 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -105,8 +105,7 @@ namespace persistence
             JsonObjectWriter serializer(context, value, writer);
 
             writer.StartObject();
-            const_cast<T&>(value).persist(serializer);
-            if (!serializer) {
+            if (!const_cast<T&>(value).persist(serializer)) {
                 return false;
             }
             writer.EndObject();
-- 
2.43.0

