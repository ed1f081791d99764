From e3da1a3b29da8ac4a60b3b91fbf719934697dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 1/8] fix: do not treat a request segment '*' or '**' as a
 literal match

Wildcard children are stored under the keys '*' and '**', so a request
segment spelled that way selected the wildcard child first and a '**'
template could win over a more specific '*' template.
---
 src/path_matcher_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 838a758..ce4e3df 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -158,7 +158,10 @@ void PathMatcherNode::LookupPath(RequestPathParts::const_iterator current,
       }
       return;
     }
-    if (LookupPathFromChild(*current, current, end, http_method, result)) {
+    // A request part spelled like a wildcard is not a literal match for it.
+    if (*current != HttpTemplate::kWildCardPathPartKey &&
+        *current != HttpTemplate::kWildCardPathKey &&
+        LookupPathFromChild(*current, current, end, http_method, result)) {
       return;
     }
     if (!wildcard_) {
-- 
2.43.0


From 4830bb0de71675a117db0c7c1be3c1ae571931fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 2/8] fix: bind variables after a '**' to the segments they
 matched

The range of a variable that follows a '**' was kept relative to the start
of the template, so '/{a=**}/{b=lit}' bound b to the wrong request segment
whenever '**' matched more than one.
---
 src/http_template.cc                         | 13 ++++++++++++-
 src/include/grpc_transcoding/http_template.h |  2 +-
 src/include/grpc_transcoding/path_matcher.h  | 11 +++++++----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/http_template.cc b/src/http_template.cc
index 7f8be50..5307dea 100644
--- a/src/http_template.cc
+++ b/src/http_template.cc
@@ -326,8 +326,19 @@ class Parser {
   }
 
   void PostProcessVariables() {
+    int wildcard_segment = 0;
+    while (wildcard_segment < static_cast<int>(segments_.size()) &&
+           segments_[wildcard_segment] != HttpTemplate::kWildCardPathKey) {
+      ++wildcard_segment;
+    }
     for (auto &var : variables_) {
-      if (var.has_wildcard_path) {
+      // A variable after the '**' has no fixed position from the start of the
+      // path, so its whole range is stored relative to the end.
+      const bool after_wildcard = var.start_segment > wildcard_segment;
+      if (after_wildcard) {
+        var.start_segment = (var.start_segment - segments_.size() - 1);
+      }
+      if (var.has_wildcard_path || after_wildcard) {
         // if the variable contains a '**', store the end_positon
         // relative to the end, such that -1 corresponds to the end
         // of the path. As we only support fixed path after '**',
diff --git a/src/include/grpc_transcoding/http_template.h b/src/include/grpc_transcoding/http_template.h
index 8bc8dd7..97add65 100644
--- a/src/include/grpc_transcoding/http_template.h
+++ b/src/include/grpc_transcoding/http_template.h
@@ -35,7 +35,7 @@ class HttpTemplate {
     // variable binds to. Both start_segment and end_segment are 0 based.
     // end_segment can also be negative, which means that the position is
     // specified relative to the end such that -1 corresponds to the end
-    // of the path.
+    // of the path. So can start_segment, for a variable after a '**'.
     int start_segment;
     int end_segment;
 
diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 1c0f6fe..7c20c01 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -183,20 +183,23 @@ void ExtractBindingsFromPath(const std::vector<HttpTemplate::Variable>& vars,
     // the end such that end_segment = -1 will match all subsequent segments.
     VariableBinding binding;
     binding.field_path = var.field_path;
-    // Calculate the absolute index of the ending segment in case it's negative.
+    // Calculate the absolute indexes of the segments in case they're negative.
+    size_t start_segment = (var.start_segment >= 0)
+                               ? var.start_segment
+                               : parts.size() + var.start_segment + 1;
     size_t end_segment = (var.end_segment >= 0)
                              ? var.end_segment
                              : parts.size() + var.end_segment + 1;
     // It is multi-part match if we have more than one segment. We also make
     // sure that a single URL segment match with ** is also considered a
-    // multi-part match by checking if it->second.end_segment is negative.
+    // multi-part match.
     bool is_multipart =
-        (end_segment - var.start_segment) > 1 || var.end_segment < 0;
+        (end_segment - start_segment) > 1 || var.has_wildcard_path;
     const UrlUnescapeSpec var_unescape_spec =
         is_multipart ? unescape_spec : UrlUnescapeSpec::kAllCharacters;
 
     // Joins parts with "/"  to form a path string.
-    for (size_t i = var.start_segment; i < end_segment; ++i) {
+    for (size_t i = start_segment; i < end_segment; ++i) {
       // For multipart matches only unescape non-reserved characters.
       binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);
       if (i < end_segment - 1) {
-- 
2.43.0


From 7eefd19344f8a4c01ec143e24f4cb9e379e97198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 3/8] fix: keep HTTP method and custom verb apart when matching

The two were concatenated into one key, so method 'A' with verb 'B' and
method 'AB' without a verb were the same, and a method registered for any
HTTP method ('*') was never found with its own custom verb but was found
for requests carrying another method's verb.
---
 src/include/grpc_transcoding/path_matcher.h | 16 +++++++++++++---
 src/path_matcher_node.cc                    |  9 ++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 7c20c01..8d3d706 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -284,6 +284,13 @@ std::vector<std::string> ExtractRequestParts(
   return result;
 }
 
+// The key of a method in a PathMatcherNode: a custom verb has no ':', so
+// different combinations of HTTP method and custom verb have different keys.
+HttpMethod HttpMethodKey(const std::string& http_method,
+                         const std::string& verb) {
+  return http_method + ":" + verb;
+}
+
 // Looks up on a PathMatcherNode.
 PathMatcherLookupResult LookupInPathMatcherNode(
     const PathMatcherNode& root, const std::vector<std::string>& parts,
@@ -340,7 +347,8 @@ Method PathMatcher<Method>::Lookup(
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              HttpMethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -375,7 +383,8 @@ Method PathMatcher<Method>::Lookup(const std::string& http_method,
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              HttpMethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -428,7 +437,8 @@ bool PathMatcherBuilder<Method>::Register(
   method_data->body_field_path = body_field_path;
   method_data->system_query_parameter_names = system_query_parameter_names;
 
-  if (!InsertPathToNode(path_info, method_data.get(), http_method + ht->verb(),
+  if (!InsertPathToNode(path_info, method_data.get(),
+                        HttpMethodKey(http_method, ht->verb()),
                         root_ptr_.get())) {
     return false;
   }
diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index ce4e3df..b67ec11 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -243,8 +243,15 @@ bool PathMatcherNode::LookupPathFromChild(
 
 bool PathMatcherNode::GetResultForHttpMethod(
     HttpMethod key, PathMatcherLookupResult* result) const {
+  // The wild card stands for any HTTP method, but not for any custom verb,
+  // which follows the last ':' of the key.
+  const size_t verb_pos = key.rfind(':');
+  const HttpMethod wild_card_key =
+      verb_pos == HttpMethod::npos
+          ? HttpMethod_WILD_CARD
+          : HttpMethod_WILD_CARD + key.substr(verb_pos);
   const PathMatcherLookupResult* found_p =
-      Find2KeysOrNull(result_map_, key, HttpMethod_WILD_CARD);
+      Find2KeysOrNull(result_map_, key, wild_card_key);
   if (found_p != nullptr) {
     *result = *found_p;
     return true;
-- 
2.43.0


From 92e5a516937e9b1fedc97068f185f41ad0449150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 4/8] fix: accept a binding with an empty field path

'field_path.size() - 1' wraps around for an empty field path, so that the
loop read past the end of the path.
---
 src/request_weaver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 33fb2fb..8ff99ec 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -322,7 +322,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 
   // Find or create the path from the root to the leaf message, where the value
   // should be injected.
-  for (size_t i = 0; i < field_path.size() - 1; ++i) {
+  for (size_t i = 0; i + 1 < field_path.size(); ++i) {
     current = current->FindOrCreateWeaveMsg(field_path[i]);
   }
 
-- 
2.43.0


From 17167f066fb0c9e601432bc51ab7345de341c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 5/8] fix: compare 64-bit binding values without truncation

A binding for an int64 or uint64 field was cut to 32 bits before it was
compared with the body's value: equal values were reported as conflicting
and different ones as equal.
---
 src/request_weaver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 8ff99ec..7a479f4 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -68,7 +68,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_INT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToInt64();
+      absl::StatusOr<int64_t> status = value_in_binding.ToInt64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "int64", value_in_binding);
       }
@@ -88,7 +88,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_UINT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToUint64();
+      absl::StatusOr<uint64_t> status = value_in_binding.ToUint64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "uint64", value_in_binding);
       }
-- 
2.43.0


From 3ae49355bbfa70aabcb50c580688598c2c872506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 6/8] fix: apply the request options to streamed messages too

reject_binding_body_field_collisions and case_insensitive_enum_parsing of
the RequestInfo were dropped for streaming requests.
---
 src/request_stream_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_stream_translator.cc b/src/request_stream_translator.cc
index ab679cc..73bddee 100644
--- a/src/request_stream_translator.cc
+++ b/src/request_stream_translator.cc
@@ -229,6 +229,10 @@ void RequestStreamTranslator::StartMessageTranslator() {
   RequestInfo request_info;
   request_info.message_type = request_info_.message_type;
   request_info.body_field_path = request_info_.body_field_path;
+  request_info.reject_binding_body_field_collisions =
+      request_info_.reject_binding_body_field_collisions;
+  request_info.case_insensitive_enum_parsing =
+      request_info_.case_insensitive_enum_parsing;
   // As we need to weave the variable bindings only for the first message, we
   // can use vector::swap() to avoid copying and to clear the bindings from
   // request_info_, s.t. the subsequent messages don't use them.
-- 
2.43.0


From 805d5852b863cef62f7bb080fe652fa5ce600c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 7/8] fix: do not return stale text at the end of a
 newline-delimited stream

NextMessage() returned true at the end of the input without writing to the
caller's string, so a caller that reuses its string saw the last message
twice.
---
 src/response_to_json_translator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 720a855..e710b09 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -70,6 +70,9 @@ bool ResponseToJsonTranslator::NextMessage(std::string* message) {
       // finished. Return the final ']'
       // or "[]" in case this was an empty stream.
       *message = first_ ? "[]" : "]";
+    } else {
+      // Nothing to add at the end of a newline-delimited stream.
+      message->clear();
     }
     finished_ = true;
     return true;
-- 
2.43.0


From 67d6c10885023d930c7cc6299973826ca6cffc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 8/8] fix: compare equal floating-point binding and body values
 beyond float range as equal

---
 src/request_weaver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 7a479f4..e81441b 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -41,7 +41,9 @@ namespace pbconv = google::protobuf::util::converter;
 
 namespace {
 
-bool AlmostEquals(float a, float b) { return fabs(a - b) < 32 * FLT_EPSILON; }
+bool AlmostEquals(double a, double b) {
+  return a == b || fabs(a - b) < 32 * FLT_EPSILON;
+}
 
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
-- 
2.43.0

