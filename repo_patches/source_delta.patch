From d6653dd3b0757a48f32069d344dd83a7d3369934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 01/32] fix: register propertyNames sub-schema under its own
 path

---
 include/valijson/schema_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..f4ff506 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1110,7 +1110,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
-- 
2.43.0


From f62f4416bbdde5cd9eca1ef1f4b0af0980faa19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 02/32] fix: escape property names and patterns in schema
 registry paths

---
 include/valijson/schema_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index f4ff506..ad268e4 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2371,7 +2371,7 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" + escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2384,7 +2384,7 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" + escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
-- 
2.43.0


From 229bb3cc34d696f62e3bd536367febf814515a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 03/32] fix: multipleOf with integer divisor: fractions, 2^63
 and division overflow

---
 include/valijson/validation_visitor.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..6c815d0 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -952,11 +952,14 @@ public:
                 return false;
             }
             // Casting a double outside the range of int64_t is undefined
-            // behaviour, so check those values in floating point instead.
-            if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
-                    d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
-                if (fabs(remainder(d, static_cast<double>(divisor))) >
-                        std::numeric_limits<double>::epsilon()) {
+            // behaviour, and casting one with a fractional part would discard
+            // it, so check those values in floating point instead. Note that
+            // the maximum int64_t value rounds up to 2^63 when converted.
+            if (std::trunc(d) != d ||
+                    d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
+                    d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
+                if (std::trunc(d) != d || divisor == 0 ||
+                        std::fmod(d, static_cast<double>(divisor)) != 0.0) {
                     if (m_results) {
                         m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
                     }
@@ -973,7 +976,8 @@ public:
             return true;
         }
 
-        if (i % divisor != 0) {
+        // A divisor of -1 always divides, but INT64_MIN % -1 overflows
+        if (divisor == 0 || (divisor != -1 && i % divisor != 0)) {
             if (m_results) {
                 m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
             }
-- 
2.43.0


From 5ad16a1cf0661d4dd1d69d422e95cf40f302fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 04/32] fix: reject multipleOf and divisibleBy divisors that
 are not positive

---
 include/valijson/schema_parser.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ad268e4..61ed1cf 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2189,8 +2189,13 @@ private:
     template<typename AdapterType>
     constraints::MultipleOfDoubleConstraint makeMultipleOfDoubleConstraint(const AdapterType &node)
     {
+        const double divisor = node.asDouble();
+        if (!(divisor > 0)) {
+            throwRuntimeError("Expected a positive divisor for 'multipleOf' or 'divisibleBy' constraint.");
+        }
+
         constraints::MultipleOfDoubleConstraint constraint;
-        constraint.setDivisor(node.asDouble());
+        constraint.setDivisor(divisor);
         return constraint;
     }
 
@@ -2205,8 +2210,13 @@ private:
     template<typename AdapterType>
     constraints::MultipleOfIntConstraint makeMultipleOfIntConstraint(const AdapterType &node)
     {
+        const int64_t divisor = node.asInteger();
+        if (divisor <= 0) {
+            throwRuntimeError("Expected a positive divisor for 'multipleOf' or 'divisibleBy' constraint.");
+        }
+
         constraints::MultipleOfIntConstraint constraint;
-        constraint.setDivisor(node.asInteger());
+        constraint.setDivisor(divisor);
         return constraint;
     }
 
-- 
2.43.0


From b6e9f515c80ca769f0dde88c562f8231bb758f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 05/32] fix: 2^63 is not representable as int64_t

---
 include/valijson/internal/basic_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..b3a7017 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -98,7 +98,7 @@ protected:
         if (d < static_cast<double>(std::numeric_limits<int64_t>::min())) {
             return false;
         }
-        if (d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+        if (d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
             return false;
         }
         double intPart = 0.0;
-- 
2.43.0


From 72a9ae566ddff652cf608b980ae29cd245a60ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 06/32] fix: integral doubles outside the int64_t range satisfy
 type integer

---
 include/valijson/validation_visitor.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 6c815d0..4753d30 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -37,12 +37,6 @@ inline bool isDoubleAnInteger(const AdapterType &target)
     if (!std::isfinite(value)) {
         return false;
     }
-    if (value < static_cast<double>(std::numeric_limits<int64_t>::min())) {
-        return false;
-    }
-    if (value > static_cast<double>(std::numeric_limits<int64_t>::max())) {
-        return false;
-    }
     double intPart = 0.0;
     return std::modf(value, &intPart) == 0.0;
 }
-- 
2.43.0


From 208ff2d889467984eb7fb4b271f3bd9238df042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 07/32] fix: multipleOf ignores strings when strict types are
 used

---
 include/valijson/validation_visitor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 4753d30..2ff6a3c 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -856,6 +856,11 @@ public:
      */
     bool visit(const MultipleOfDoubleConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const double divisor = constraint.getDivisor();
 
         double d = 0.;
@@ -927,6 +932,11 @@ public:
      */
     bool visit(const MultipleOfIntConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const int64_t divisor = constraint.getDivisor();
 
         int64_t i = 0;
-- 
2.43.0


From bd59550229659074c24f69eb5a02be5c61a37e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 08/32] fix: years in date and date-time formats have four
 digits

Longer years made std::stoi throw std::out_of_range.
---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 2ff6a3c..b4b3111 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -406,7 +406,7 @@ public:
         const std::string format = constraint.getFormat();
         if (format == "date") {
             // Matches dates like: 2022-07-18
-            static const internal::regex date_regex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
+            static const internal::regex date_regex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, date_regex)) {
                 const auto year = std::stoi(matches[1].str());
@@ -453,8 +453,8 @@ public:
         } else if (format == "date-time") {
             // Strict mode matches date/times like: 2022-07-18T16:52:45Z, 2022-07-18T16:52:45+02:00
             // Permissive mode also matches date/times like: 2022-07-18T16:52:45
-            static const internal::regex strictRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
-            static const internal::regex permissiveRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
-- 
2.43.0


From 3f651b158387e2b43a414933f0c7ecf9a9a3353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 09/32] fix: uniqueItems and properties constraints threw for
 values cast to arrays and objects

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index b4b3111..9f90b48 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1167,7 +1167,7 @@ public:
         const Subschema *additionalPropertiesSubschema =
                 constraint.getAdditionalPropertiesSubschema();
         if (!additionalPropertiesSubschema) {
-            if (propertiesMatched.size() != m_target.getObjectSize()) {
+            if (propertiesMatched.size() != object.size()) {
                 if (m_results) {
                     std::string unwanted;
                     for (const typename AdapterType::ObjectMember m : object) {
@@ -1373,7 +1373,8 @@ public:
             return true;
         }
 
-        size_t array_size = m_target.getArraySize();
+        const typename AdapterType::Array targetArray = m_target.asArray();
+        const size_t array_size = targetArray.size();
 
         // Empty arrays are always valid
         if (array_size == 0) {
@@ -1382,7 +1383,6 @@ public:
 
         bool validated = true;
 
-        const typename AdapterType::Array targetArray = m_target.asArray();
         const typename AdapterType::Array::const_iterator end = targetArray.end();
 
         typename AdapterType::Array::const_iterator outerItr = targetArray.begin();
-- 
2.43.0


From 1ea92e73526527d372571759b64cd310c59f80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 10/32] fix: errors of schema types that do not match were
 reported although validation passed

---
 include/valijson/validation_visitor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 9f90b48..bbb12b5 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1343,9 +1343,13 @@ public:
 
         // Check schema-based types
         {
+            // Errors for individual schemas are discarded, since the target
+            // only needs to validate against one of them
             unsigned int numValidated = 0;
+            ValidationVisitor<AdapterType, RegexEngine> v(
+                m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
             constraint.applyToSchemaTypes(
-                    ValidateSubschemas(m_target, m_path, false, true, *this, nullptr, &numValidated, nullptr));
+                    ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
                 return true;
             } else if (m_results) {
-- 
2.43.0


From 8f065b6f532421c42d02351fb6f98b88085047f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 11/32] fix: report an error wherever validation fails

---
 include/valijson/validation_visitor.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index bbb12b5..26bb574 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -99,6 +99,9 @@ public:
     bool validateSchema(const Subschema &subschema)
     {
         if (subschema.getAlwaysInvalid()) {
+            if (m_results) {
+                m_results->pushError(m_path, "Schema does not permit any value.");
+            }
             return false;
         }
 
@@ -891,6 +894,9 @@ public:
         }
 
         if (divisor == 0) {
+            if (m_results) {
+                m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+            }
             return false;
         }
 
@@ -1007,6 +1013,10 @@ public:
         const Subschema *subschema = constraint.getSubschema();
         if (!subschema) {
             // Treat nullptr like empty schema
+            if (m_results) {
+                m_results->pushError(m_path,
+                        "Target should not validate against schema specified in 'not' constraint.");
+            }
             return false;
         }
 
@@ -1230,6 +1240,10 @@ public:
                 stringAdapter, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
 
             if (!validator.validateSchema(*constraint.getSubschema())) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Failed to validate property name '" + m.first +
+                            "' against schema in 'propertyNames' constraint.");
+                }
                 return false;
             }
         }
-- 
2.43.0


From 0f824d60f6577b4d436341d2e2b15ef5f016a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 12/32] fix: strings such as 'inf' and 'nan' are not numbers

---
 include/valijson/internal/double_parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index 5ba9118..62d6607 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <locale>
 #include <sstream>
 #include <string>
@@ -74,6 +75,11 @@ inline bool parseDouble(const std::string &input, double &result)
     }
 #endif
 
+    // Neither infinities nor NaN are decimal numbers
+    if (!std::isfinite(value)) {
+        return false;
+    }
+
     result = value;
     return true;
 }
-- 
2.43.0


From 3cbcb7d14004d976f15f7a41064c3783bab829de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 13/32] fix: integer casts accepted strings with leading white
 space

---
 include/valijson/adapters/std_string_adapter.hpp | 2 ++
 include/valijson/internal/basic_adapter.hpp      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..c0c7805 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -322,6 +322,8 @@ public:
     bool maybeInteger() const override
     {
         std::istringstream i(m_value);
+        i.imbue(std::locale::classic());
+        i >> std::noskipws;
         int64_t x;
         char c;
         if (!(i >> x) || i.get(c)) {
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index b3a7017..c72fa2d 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -411,6 +411,8 @@ public:
             std::string s;
             if (m_value.getString(s)) {
                 std::istringstream i(s);
+                i.imbue(std::locale::classic());
+                i >> std::noskipws;
                 int64_t x;
                 char c;
                 if (!(!(i >> x) || i.get(c))) {
@@ -817,6 +819,8 @@ public:
             std::string s;
             if (m_value.getString(s)) {
                 std::istringstream i(s);
+                i.imbue(std::locale::classic());
+                i >> std::noskipws;
                 int64_t x;
                 char c;
                 if (!(i >> x) || i.get(c)) {
-- 
2.43.0


From 35fe7e81fad4a7f5137bb2f534678779aafeaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 14/32] fix: names and patterns in schemas were truncated at
 embedded null characters

---
 .../constraints/concrete_constraints.hpp      | 25 +++++++++++--------
 include/valijson/validation_visitor.hpp       | 15 +++++------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..ebea406 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -263,14 +263,14 @@ public:
             const StringType &propertyName,
             const StringType &dependencyName)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
                     key, PropertySet(std::less<String>(), m_allocator))).first;
         }
 
-        itr->second.insert(String(dependencyName.c_str(), m_allocator));
+        itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
 
         return *this;
     }
@@ -280,7 +280,7 @@ public:
             const StringType &propertyName,
             const ContainerType &dependencyNames)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
@@ -289,7 +289,7 @@ public:
 
         typedef typename ContainerType::value_type ValueType;
         for (const ValueType &dependencyName : dependencyNames) {
-            itr->second.insert(String(dependencyName.c_str(), m_allocator));
+            itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
         }
 
         return *this;
@@ -299,7 +299,7 @@ public:
     DependenciesConstraint & addSchemaDependency(const StringType &propertyName, const Subschema *schemaDependency)
     {
         if (m_schemaDependencies.insert(SchemaDependencies::value_type(
-                String(propertyName.c_str(), m_allocator),
+                String(propertyName.data(), propertyName.size(), m_allocator),
                 schemaDependency)).second) {
             return *this;
         }
@@ -913,7 +913,7 @@ public:
     template<typename AllocatorType>
     bool getPattern(std::basic_string<char, std::char_traits<char>, AllocatorType> &result) const
     {
-        result.assign(m_pattern.c_str());
+        result.assign(m_pattern.data(), m_pattern.size());
         return true;
     }
 
@@ -921,13 +921,13 @@ public:
     std::basic_string<char, std::char_traits<char>, AllocatorType> getPattern(
             const AllocatorType &alloc = AllocatorType()) const
     {
-        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(), alloc);
+        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.data(), m_pattern.size(), alloc);
     }
 
     template<typename AllocatorType>
     void setPattern(const std::basic_string<char, std::char_traits<char>, AllocatorType> &pattern)
     {
-        m_pattern.assign(pattern.c_str());
+        m_pattern.assign(pattern.data(), pattern.size());
     }
 
 private:
@@ -997,7 +997,8 @@ public:
             std::char_traits<char>, AllocatorType> &patternProperty,
             const Subschema *subschema)
     {
-        return addPatternPropertySubschema(patternProperty.c_str(), subschema);
+        return m_patternProperties.insert(PropertySchemaMap::value_type(
+                String(patternProperty.data(), patternProperty.size(), m_allocator), subschema)).second;
     }
 
     bool addPropertySubschema(const char *propertyName,
@@ -1012,7 +1013,8 @@ public:
             std::char_traits<char>, AllocatorType> &propertyName,
             const Subschema *subschema)
     {
-        return addPropertySubschema(propertyName.c_str(), subschema);
+        return m_properties.insert(PropertySchemaMap::value_type(
+                String(propertyName.data(), propertyName.size(), m_allocator), subschema)).second;
     }
 
     template<typename FunctorType>
@@ -1107,7 +1109,8 @@ public:
     template<typename AllocatorType>
     bool addRequiredProperty(const std::basic_string<char, std::char_traits<char>, AllocatorType> &propertyName)
     {
-        return addRequiredProperty(propertyName.c_str());
+        return m_requiredProperties.insert(String(propertyName.data(), propertyName.size(),
+                Allocator::rebind<char>::other(m_allocator))).second;
     }
 
     template<typename FunctorType>
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 26bb574..fde9b79 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1497,14 +1497,15 @@ private:
         template<typename StringType>
         bool operator()(const StringType &property) const
         {
-            if (m_object.find(property.c_str()) == m_object.end()) {
+            const std::string propertyKey(property.data(), property.size());
+            if (m_object.find(propertyKey) == m_object.end()) {
                 if (m_validated) {
                     *m_validated = false;
                 }
 
                 if (m_results) {
                     m_results->pushError(m_path, "Missing required property '" +
-                            std::string(property.c_str()) + "'.");
+                            propertyKey + "'.");
                 }
 
                 return m_continueOnFailure;
@@ -1540,14 +1541,14 @@ private:
         template<typename StringType, typename ContainerType>
         bool operator()(const StringType &propertyName, const ContainerType &dependencyNames) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
 
             typedef typename ContainerType::value_type ValueType;
             for (const ValueType &dependencyName : dependencyNames) {
-                const std::string dependencyNameKey(dependencyName.c_str());
+                const std::string dependencyNameKey(dependencyName.data(), dependencyName.size());
                 if (m_object.find(dependencyNameKey) == m_object.end()) {
                     if (m_validated) {
                         *m_validated = false;
@@ -1755,7 +1756,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &patternProperty, const Subschema *subschema) const
         {
-            const std::string patternPropertyStr(patternProperty.c_str());
+            const std::string patternPropertyStr(patternProperty.data(), patternProperty.size());
 
             // It would be nice to store pre-allocated regex objects in the
             // PropertiesConstraint. does internal::regex currently support
@@ -1860,7 +1861,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *subschema) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             const typename AdapterType::Object::const_iterator itr = m_object.find(propertyNameKey);
             if (itr == m_object.end()) {
                 return m_continueIfUnmatched;
@@ -1929,7 +1930,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *schemaDependency) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
-- 
2.43.0


From 19a8b4b4bd237e76c5bcfd591781abcb23c6569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 15/32] fix: property names were cast to constants when types
 are weak

---
 .../valijson/adapters/std_string_adapter.hpp  | 53 +++++++++++++------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index c0c7805..c015fe8 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -117,34 +117,61 @@ public:
 
     bool asBool() const override
     {
-        return true;
+        bool result;
+        if (asBool(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a boolean");
     }
 
     bool asBool(bool &result) const override
     {
-        result = true;
+        if (!maybeBool()) {
+            return false;
+        }
+
+        result = m_value == "true";
         return true;
     }
 
     double asDouble() const override
     {
-        return 0;
+        double result;
+        if (asDouble(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a double");
     }
 
     bool asDouble(double &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseDouble(m_value, result);
     }
 
     int64_t asInteger() const override
     {
-        return 0;
+        int64_t result;
+        if (asInteger(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to an integer");
     }
 
     bool asInteger(int64_t &result) const override
     {
-        result = 0;
+        std::istringstream i(m_value);
+        i.imbue(std::locale::classic());
+        i >> std::noskipws;
+        int64_t x;
+        char c;
+        if (!(i >> x) || i.get(c)) {
+            return false;
+        }
+
+        result = x;
         return true;
     }
 
@@ -170,7 +197,7 @@ public:
 
     bool equalTo(const Adapter &other, bool strict) const override
     {
-        if (strict && !other.isString()) {
+        if (strict ? !other.isString() : !other.maybeString()) {
             return false;
         }
 
@@ -321,16 +348,8 @@ public:
 
     bool maybeInteger() const override
     {
-        std::istringstream i(m_value);
-        i.imbue(std::locale::classic());
-        i >> std::noskipws;
         int64_t x;
-        char c;
-        if (!(i >> x) || i.get(c)) {
-            return false;
-        }
-
-        return true;
+        return asInteger(x);
     }
 
     bool maybeNull() const override
-- 
2.43.0


From a688eae865a27241d81cddcc982069889c1c8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 16/32] fix: equality of integers that are not exactly
 representable as doubles

---
 include/valijson/internal/basic_adapter.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index c72fa2d..3f9a268 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -515,8 +515,16 @@ public:
         } else if (isBool() || (!strict && maybeBool())) {
             return (other.isBool() || (!strict && other.maybeBool())) && other.asBool() == asBool();
         } else if (isNumber() && strict) {
+            if (isInteger() && other.isInteger()) {
+                // Large integers are not exactly representable as doubles
+                return other.getInteger() == getInteger();
+            }
             return other.isNumber() && other.getNumber() == getNumber();
         } else if (!strict && maybeDouble()) {
+            if (maybeInteger() && other.maybeInteger()) {
+                // Large integers are not exactly representable as doubles
+                return other.asInteger() == asInteger();
+            }
             return (other.maybeDouble() && other.asDouble() == asDouble());
         } else if (!strict && maybeInteger()) {
             return (other.maybeInteger() && other.asInteger() == asInteger());
-- 
2.43.0


From 0dbb8e91db69ac083feb8dcb7d5f17061a310db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 17/32] fix: JSON Pointers with malformed array indices or
 %-encoding were accepted

---
 include/valijson/internal/json_pointer.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..54b1852 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -53,11 +53,13 @@ inline char decodePercentEncodedChar(const std::string &digits)
                 "expected two characters");
     }
 
+    // Digits are checked because strtoul accepts white space and signs
     errno = 0;
     const char *begin = digits.c_str();
     char *end = nullptr;
     const unsigned long value = strtoul(begin, &end, 16);
-    if (end != begin && *end != '\0') {
+    if (digits.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos ||
+            end != begin + 2) {
         throwRuntimeError("Failed to decode %-encoded character '" +
                 digits + "'");
     }
@@ -98,10 +100,6 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 {
     std::string token(begin, end);
 
-    // Replace JSON Pointer-specific escaped character sequences
-    replaceAllInPlace(token, "~1", "/");
-    replaceAllInPlace(token, "~0", "~");
-
     // Replace %-encoded character sequences with their actual characters
     for (size_t n = token.find('%'); n != std::string::npos;
             n = token.find('%', n + 1)) {
@@ -119,6 +117,11 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 #endif
     }
 
+    // Replace JSON Pointer-specific escaped character sequences. This happens
+    // last, since the URI representation is an encoding of the JSON Pointer.
+    replaceAllInPlace(token, "~1", "/");
+    replaceAllInPlace(token, "~0", "~");
+
     return token;
 }
 
@@ -196,6 +199,12 @@ inline AdapterType resolveJsonPointer(
         try {
 #endif
             // Fragment must be non-negative integer
+            if (referenceToken.find_first_not_of("0123456789") != std::string::npos ||
+                    (referenceToken.size() > 1 && referenceToken[0] == '0')) {
+                throwRuntimeError("Expected reference token to contain a "
+                        "non-negative integer to identify an element in the "
+                        "current array; actual token: " + referenceToken);
+            }
             const uint64_t index = std::stoul(referenceToken);
             typedef typename AdapterType::Array Array;
             const Array arr = node.asArray();
-- 
2.43.0


From 88b621b70b0e00777a8e209aa063fde00526d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 18/32] fix: a document referenced twice by a chain of root
 references was leaked

---
 include/valijson/schema_parser.hpp | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 61ed1cf..07061c9 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1264,22 +1264,31 @@ private:
                 return;
             }
 
-            // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
+            const typename DocumentCache<AdapterType>::DocumentType *newDoc = nullptr;
 
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
+            // Have we seen this document before?
+            const typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
+                    docCache.find(*actualDocumentUri);
+            if (docCacheItr == docCache.end()) {
+                // Resolve reference against remote document
+                if (!fetchDoc) {
+                    throwRuntimeError("Fetching of remote JSON References not enabled.");
+                }
 
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-            }
+                newDoc = fetchDoc(*actualDocumentUri);
 
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+                // Can't proceed without the remote document
+                if (!newDoc) {
+                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
+                }
+
+                // Add to document cache
+                typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
 
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+            } else {
+                newDoc = docCacheItr->second;
+            }
 
             const AdapterType newRootNode(*newDoc);
 
-- 
2.43.0


From 5a6bd5910c3811a0d743394dc8e33d07af4d1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 19/32] fix: schema paths did not escape percent signs in names

---
 include/valijson/schema_parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 07061c9..75cc5e9 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -283,6 +283,9 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                // References use the URI fragment representation
+                result += "%25";
             } else {
                 result += c;
             }
-- 
2.43.0


From bd9e909889621fed08f6793e377a58b2fefc1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 20/32] fix: accept an empty schema in a draft 3 type

---
 include/valijson/schema_parser.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 75cc5e9..a35006a 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2560,7 +2560,13 @@ private:
 
         TypeConstraint constraint;
 
-        if (node.maybeString()) {
+        // An empty object can be cast to other types, but here it is a schema
+        if (node.isObject() && m_version == kDraft3) {
+            const Subschema *subschema = makeOrReuseSchema<AdapterType>(rootSchema, rootNode, node, currentScope,
+                    nodePath, fetchDoc, nullptr, nullptr, docCache, schemaRegistry);
+            constraint.addSchemaType(subschema);
+
+        } else if (node.maybeString()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
             if (type == TypeConstraint::kAny && m_version == kDraft4) {
                 throwRuntimeError("'any' type is not supported in version 4 schemas.");
@@ -2571,7 +2577,13 @@ private:
         } else if (node.maybeArray()) {
             int index = 0;
             for (const AdapterType v : node.getArray()) {
-                if (v.maybeString()) {
+                if (v.isObject() && m_version == kDraft3) {
+                    const std::string childPath = nodePath + "/" + std::to_string(index);
+                    const Subschema *subschema = makeOrReuseSchema<AdapterType>(rootSchema, rootNode, v, currentScope,
+                            childPath, fetchDoc, nullptr, nullptr, docCache, schemaRegistry);
+                    constraint.addSchemaType(subschema);
+
+                } else if (v.maybeString()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
                     if (type == TypeConstraint::kAny && m_version == kDraft4) {
                         throwRuntimeError("'any' type is not supported in version 4 schemas.");
@@ -2579,12 +2591,6 @@ private:
 
                     constraint.addNamedType(type);
 
-                } else if (v.maybeObject() && m_version == kDraft3) {
-                    const std::string childPath = nodePath + "/" + std::to_string(index);
-                    const Subschema *subschema = makeOrReuseSchema<AdapterType>(rootSchema, rootNode, v, currentScope,
-                            childPath, fetchDoc, nullptr, nullptr, docCache, schemaRegistry);
-                    constraint.addSchemaType(subschema);
-
                 } else {
                     throwRuntimeError("Type name should be a string.");
                 }
@@ -2592,11 +2598,6 @@ private:
                 index++;
             }
 
-        } else if (node.maybeObject() && m_version == kDraft3) {
-            const Subschema *subschema = makeOrReuseSchema<AdapterType>(rootSchema, rootNode, node, currentScope,
-                    nodePath, fetchDoc, nullptr, nullptr, docCache, schemaRegistry);
-            constraint.addSchemaType(subschema);
-
         } else {
             throwRuntimeError("Type name should be a string.");
         }
-- 
2.43.0


From e9ebcfd6266878468d997ad5ee74ea2ac45bf0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 21/32] fix: account for every rounding in the multipleOf
 tolerance

---
 include/valijson/validation_visitor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index fde9b79..b5db582 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -916,8 +916,9 @@ public:
 
         const double rounded = std::round(quotient);
         const double diff = std::fabs(quotient - rounded);
+        // Value, divisor and quotient are each rounded by up to half an epsilon
         const double tolerance = std::max(std::fabs(quotient), 1.0)
-                * std::numeric_limits<double>::epsilon();
+                * 2 * std::numeric_limits<double>::epsilon();
 
         if (diff > tolerance) {
             if (m_results) {
-- 
2.43.0


From fe550e3188c6444b91b0f10a2cb560f12653fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:58 +0000
Subject: [PATCH 22/32] fix: Poco adapter empty array and object hold no null
 pointer

---
 include/valijson/adapters/poco_json_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..7265c1e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -110,7 +110,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty array.
     */
-    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr();
+    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr(new Poco::JSON::Array());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -195,7 +195,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty object.
     */
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -442,7 +442,7 @@ public:
 private:
 
     /// Shared PocoJson value used to represent an empty object
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
-- 
2.43.0


From 190e7edc749801d79e243c088a90488922898a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:58 +0000
Subject: [PATCH 23/32] fix: Poco adapter does not treat booleans as numbers

---
 include/valijson/adapters/poco_json_adapter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 7265c1e..4c8b07e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -338,7 +338,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isInteger()) {
+        if (isInteger()) {
             result = m_value.convert<int64_t>();
             return true;
         }
@@ -426,7 +426,7 @@ public:
 
     bool isNumber() const
     {
-        return m_value.isNumeric();
+        return !isBool() && m_value.isNumeric();
     }
 
     bool isObject() const
-- 
2.43.0


From 60c26a00f9eca2e16830a29fcab753929bc69229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 24/32] fix: Poco adapter frozen values copy arrays and objects

---
 .../valijson/adapters/poco_json_adapter.hpp   | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 4c8b07e..252126b 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -220,7 +220,7 @@ public:
     * @param  source  the PocoJson value to be copied
     */
     explicit PocoJsonFrozenValue(const Poco::Dynamic::Var &source)
-        : m_value(source)
+        : m_value(copyValue(source))
     { }
 
     virtual FrozenValue * clone() const
@@ -232,6 +232,32 @@ public:
 
 private:
 
+    /**
+    * @brief  Copy a PocoJson value, including the arrays and objects in it
+    *
+    * Copying a Poco::Dynamic::Var would only copy a shared pointer to those.
+    */
+    static Poco::Dynamic::Var copyValue(const Poco::Dynamic::Var &source)
+    {
+        if (source.type() == typeid(Poco::JSON::Array::Ptr)) {
+            Poco::JSON::Array::Ptr copy(new Poco::JSON::Array());
+            for (const auto &element : *source.extract<Poco::JSON::Array::Ptr>()) {
+                copy->add(copyValue(element));
+            }
+            return copy;
+        }
+
+        if (source.type() == typeid(Poco::JSON::Object::Ptr)) {
+            Poco::JSON::Object::Ptr copy(new Poco::JSON::Object());
+            for (const auto &member : *source.extract<Poco::JSON::Object::Ptr>()) {
+                copy->set(member.first, copyValue(member.second));
+            }
+            return copy;
+        }
+
+        return source;
+    }
+
     /// Stored PocoJson value
     Poco::Dynamic::Var m_value;
 };
-- 
2.43.0


From 70bd6dc4992642910a07a9abe9bf2f2d061df059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 25/32] fix: JsonCpp adapter integers outside the range of int

---
 include/valijson/adapters/jsoncpp_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 4a692a6..931e49a 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -327,8 +327,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isIntegral()) {
-            result = static_cast<int64_t>(m_value.asInt());
+        if (m_value.isInt64()) {
+            result = m_value.asInt64();
             return true;
         }
 
@@ -406,7 +406,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.isIntegral() && !m_value.isBool();
+        return m_value.isInt64();
     }
 
     bool isNull() const
-- 
2.43.0


From 2435acbc5ee3efe25963eee970fbac246e75e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 26/32] fix: PicoJson adapter getDouble no longer changes
 integers

---
 include/valijson/adapters/picojson_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/picojson_adapter.hpp b/include/valijson/adapters/picojson_adapter.hpp
index 44403ae..eb861bd 100644
--- a/include/valijson/adapters/picojson_adapter.hpp
+++ b/include/valijson/adapters/picojson_adapter.hpp
@@ -330,7 +330,8 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.is<double>()) {
+        // Note that picojson would turn an integer value into a double here
+        if (isDouble()) {
             result = m_value.get<double>();
             return true;
         }
-- 
2.43.0


From 6a5d9a16961dc0e860b3ce3d6c3a14c3a2fdb144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 27/32] fix: Boost JSON adapter strings that contain a null
 character

---
 include/valijson/adapters/boost_json_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 2fa5d25..8a80cc8 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -389,7 +389,8 @@ public:
     bool getString(std::string &result) const
     {
         if (m_value.is_string()) {
-            result = m_value.get_string().c_str();
+            const boost::json::string &value = m_value.get_string();
+            result.assign(value.data(), value.size());
             return true;
         }
 
-- 
2.43.0


From 0a5fe4b59d9bef5352574dfabf178ca4d8e52c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:35 +0000
Subject: [PATCH 28/32] fix: RapidJson member names that contain a null
 character

---
 include/valijson/adapters/rapidjson_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..ececb29 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -40,6 +40,7 @@
 
 #pragma once
 
+#include <cstring>
 #include <optional>
 #include <string>
 #include <iterator>
@@ -863,7 +864,7 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         for (typename ValueType::ConstMemberIterator itr = m_value.MemberBegin(); itr != m_value.MemberEnd(); ++itr) {
             const size_t memberNameLength = itr->name.GetStringLength();
             if (memberNameLength == propertyNameLength &&
-                    strncmp(itr->name.GetString(), propertyName.c_str(), itr->name.GetStringLength()) == 0) {
+                    std::memcmp(itr->name.GetString(), propertyName.data(), memberNameLength) == 0) {
                 return itr;
             }
         }
-- 
2.43.0


From d7be84bc0796eb661aa63c750ce9b7663c33c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 29/32] fix: unsigned integers that do not fit in an int64_t
 are not wrapped

---
 .../adapters/nlohmann_json_adapter.hpp         | 18 +++++++++++++++---
 .../valijson/adapters/rapidjson_adapter.hpp    | 10 ++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/valijson/adapters/nlohmann_json_adapter.hpp b/include/valijson/adapters/nlohmann_json_adapter.hpp
index c520757..abf2318 100644
--- a/include/valijson/adapters/nlohmann_json_adapter.hpp
+++ b/include/valijson/adapters/nlohmann_json_adapter.hpp
@@ -26,6 +26,8 @@
 #pragma once
 
 #include <cmath>
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <string>
 #include <nlohmann/json.hpp>
@@ -517,6 +519,9 @@ public:
             result = m_value.get<double>();
             // NaN and Infinity are always serialized as null
             return std::isfinite(result);
+        } else if (isLargeUnsigned()) {
+            result = m_value.get<double>();
+            return true;
         }
 
         return false;
@@ -524,7 +529,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if(m_value.is_number_integer()) {
+        if(isInteger()) {
             result = m_value.get<int64_t>();
             return true;
         }
@@ -591,7 +596,7 @@ public:
     bool isDouble() const
     {
         if (!m_value.is_number_float()) {
-            return false;
+            return isLargeUnsigned();
         }
         // NaN and Infinity are always serialized as null
         return std::isfinite(m_value.get<double>());
@@ -599,7 +604,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.is_number_integer();
+        return m_value.is_number_integer() && !isLargeUnsigned();
     }
 
     bool isNull() const
@@ -638,6 +643,13 @@ public:
 
 private:
 
+    /// Unsigned integers that do not fit in an int64_t are treated as doubles
+    bool isLargeUnsigned() const
+    {
+        return m_value.is_number_unsigned() && m_value.get<uint64_t>() >
+                static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared NlohmannJson value instance used to represent an empty object
     static inline const nlohmann::json emptyObject = nlohmann::json::object();
 
diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index ececb29..3fb3498 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -451,7 +451,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.IsDouble()) {
+        if (isDouble()) {
             result = m_value.GetDouble();
             return true;
         }
@@ -470,9 +470,6 @@ public:
         } else if (m_value.IsUint()) {
             result = static_cast<int64_t>(m_value.GetUint());
             return true;
-        } else if (m_value.IsUint64()) {
-            result = static_cast<int64_t>(m_value.GetUint64());
-            return true;
         }
 
         return false;
@@ -544,12 +541,13 @@ public:
 
     bool isDouble() const
     {
-        return m_value.IsDouble();
+        // Unsigned integers that do not fit in an int64_t are treated as doubles
+        return m_value.IsDouble() || (m_value.IsUint64() && !m_value.IsInt64());
     }
 
     bool isInteger() const
     {
-        return m_value.IsInt() || m_value.IsInt64() || m_value.IsUint() || m_value.IsUint64();
+        return m_value.IsInt64();
     }
 
     bool isNull() const
-- 
2.43.0


From 88f6240b970bec028f056d1dbaaab028b47f01fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 30/32] fix: custom allocator reports allocation failures
 instead of returning null

---
 include/valijson/internal/custom_allocator.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/custom_allocator.hpp b/include/valijson/internal/custom_allocator.hpp
index fb34b9f..b133e49 100644
--- a/include/valijson/internal/custom_allocator.hpp
+++ b/include/valijson/internal/custom_allocator.hpp
@@ -2,6 +2,8 @@
 
 #include <limits>
 
+#include <valijson/exceptions.hpp>
+
 namespace valijson {
 namespace internal {
 
@@ -67,7 +69,12 @@ public:
 
     pointer allocate(size_type cnt, const void * = nullptr)
     {
-        return reinterpret_cast<pointer>(m_allocFn(cnt * sizeof(T)));
+        void *ptr = m_allocFn(cnt * sizeof(T));
+        if (!ptr) {
+            throwRuntimeError("Failed to allocate memory using custom allocator");
+        }
+
+        return reinterpret_cast<pointer>(ptr);
     }
 
     void deallocate(pointer p, size_type)
-- 
2.43.0


From bd7f3ae2cbc5bd8893d786d20aeae1a0ad779c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 31/32] fix: enum values were leaked when adding them to a
 constraint failed

---
 include/valijson/constraints/concrete_constraints.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ebea406..f76a53d 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -402,13 +402,17 @@ public:
     void addValue(const adapters::Adapter &value)
     {
         // TODO: Freeze value using custom alloc/free functions
-        m_enumValues.push_back(value.freeze());
+        std::unique_ptr<const EnumValue> enumValue(value.freeze());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     void addValue(const adapters::FrozenValue &value)
     {
         // TODO: Clone using custom alloc/free functions
-        m_enumValues.push_back(value.clone());
+        std::unique_ptr<const EnumValue> enumValue(value.clone());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     template<typename FunctorType>
-- 
2.43.0


From 80329d4aebe0ca751f65cb3dc53572b57b6a012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 32/32] fix: references to a root schema by its id dangled once
 the schema was moved

---
 include/valijson/schema_parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index a35006a..ae0a1ed 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -821,7 +821,8 @@ private:
             updatedScope = currentScope;
         }
 
-        if (foundId && updatedScope) {
+        // The root schema can be moved, so constraints must not point to it
+        if (foundId && updatedScope && &subschema != rootSchema.root()) {
             schemaRegistry.emplace(*updatedScope, &subschema);
         }
 
-- 
2.43.0

