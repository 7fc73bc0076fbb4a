From f43185f63d22ff5ef640f49756a9f0c1aca379be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 01/15] fix: bind variables that follow a "**" to the right
 request segments

The segment range of a variable after a "**" (e.g. y in "/{x=**}/{y=b}") was
kept as absolute template positions, so as soon as the "**" matched more or
less than one request segment the variable was bound to the wrong segment.
---
 src/http_template.cc                         | 15 ++++++++++++++-
 src/include/grpc_transcoding/http_template.h |  3 ++-
 src/include/grpc_transcoding/path_matcher.h  | 11 ++++++++---
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/http_template.cc b/src/http_template.cc
index 7f8be50..608e4d8 100644
--- a/src/http_template.cc
+++ b/src/http_template.cc
@@ -16,6 +16,7 @@
 //
 #include "grpc_transcoding/http_template.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 
@@ -326,8 +327,20 @@ class Parser {
   }
 
   void PostProcessVariables() {
+    // The position of the '**', of which there is at most one.
+    const int wildcard_path_pos =
+        std::find(segments_.begin(), segments_.end(),
+                  HttpTemplate::kWildCardPathKey) -
+        segments_.begin();
     for (auto &var : variables_) {
-      if (var.has_wildcard_path) {
+      // The number of request segments a '**' stands for is only known at
+      // match time, so the start of a variable that comes after the '**' is
+      // stored relative to the end as well.
+      const bool after_wildcard_path = var.start_segment > wildcard_path_pos;
+      if (after_wildcard_path) {
+        var.start_segment = (var.start_segment - segments_.size() - 1);
+      }
+      if (var.has_wildcard_path || after_wildcard_path) {
         // if the variable contains a '**', store the end_positon
         // relative to the end, such that -1 corresponds to the end
         // of the path. As we only support fixed path after '**',
diff --git a/src/include/grpc_transcoding/http_template.h b/src/include/grpc_transcoding/http_template.h
index 8bc8dd7..c9048a4 100644
--- a/src/include/grpc_transcoding/http_template.h
+++ b/src/include/grpc_transcoding/http_template.h
@@ -35,7 +35,8 @@ class HttpTemplate {
     // variable binds to. Both start_segment and end_segment are 0 based.
     // end_segment can also be negative, which means that the position is
     // specified relative to the end such that -1 corresponds to the end
-    // of the path.
+    // of the path. start_segment is negative, and relative to the end in the
+    // same way, for a variable that comes after a "**".
     int start_segment;
     int end_segment;
 
diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 1c0f6fe..3f7a61a 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -183,20 +183,25 @@ void ExtractBindingsFromPath(const std::vector<HttpTemplate::Variable>& vars,
     // the end such that end_segment = -1 will match all subsequent segments.
     VariableBinding binding;
     binding.field_path = var.field_path;
+    // Calculate the absolute index of the starting segment in case it's
+    // negative, that is if the variable comes after a "**".
+    size_t start_segment = (var.start_segment >= 0)
+                               ? var.start_segment
+                               : parts.size() + var.start_segment + 1;
     // Calculate the absolute index of the ending segment in case it's negative.
     size_t end_segment = (var.end_segment >= 0)
                              ? var.end_segment
                              : parts.size() + var.end_segment + 1;
     // It is multi-part match if we have more than one segment. We also make
     // sure that a single URL segment match with ** is also considered a
-    // multi-part match by checking if it->second.end_segment is negative.
+    // multi-part match by checking has_wildcard_path.
     bool is_multipart =
-        (end_segment - var.start_segment) > 1 || var.end_segment < 0;
+        (end_segment - start_segment) > 1 || var.has_wildcard_path;
     const UrlUnescapeSpec var_unescape_spec =
         is_multipart ? unescape_spec : UrlUnescapeSpec::kAllCharacters;
 
     // Joins parts with "/"  to form a path string.
-    for (size_t i = var.start_segment; i < end_segment; ++i) {
+    for (size_t i = start_segment; i < end_segment; ++i) {
       // For multipart matches only unescape non-reserved characters.
       binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);
       if (i < end_segment - 1) {
-- 
2.43.0


From 907e99fbf4a38f0bd6b1a1209836924aa6bd9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 02/15] fix: do not treat the request segments "*" and "**" as
 literals in lookup

The trie keeps the wildcards of templates under the keys "*" and "**", and the
literal lookup of a request segment spelled that way found them: "/**" matched
the template "/**" in preference to "/*", and each "*" segment was explored
twice, which made failing lookups exponential in the number of segments.
---
 src/path_matcher_node.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 838a758..f738b12 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -158,7 +158,12 @@ void PathMatcherNode::LookupPath(RequestPathParts::const_iterator current,
       }
       return;
     }
-    if (LookupPathFromChild(*current, current, end, http_method, result)) {
+    // A request part that happens to be spelled like a wildcard is not a
+    // literal: the wildcard children are only considered below, in their turn.
+    if (*current != HttpTemplate::kSingleParameterKey &&
+        *current != HttpTemplate::kWildCardPathPartKey &&
+        *current != HttpTemplate::kWildCardPathKey &&
+        LookupPathFromChild(*current, current, end, http_method, result)) {
       return;
     }
     if (!wildcard_) {
-- 
2.43.0


From 914f51f23b2782db0468268adb646c5224378fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 03/15] fix: keep the custom verb when a binding is for any
 HTTP method ("*")

The HTTP method and the custom verb were concatenated into one key, for which
only the bare "*" was the fallback. So a binding of kind "*" with a custom verb
never matched, one without a custom verb matched paths with any custom verb,
and e.g. method "GETx" was confused with method "GET" with verb "x".
---
 src/include/grpc_transcoding/path_matcher.h | 16 +++++++++++++---
 src/path_matcher_node.cc                    |  9 ++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 3f7a61a..05fa30d 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -286,6 +286,13 @@ std::vector<std::string> ExtractRequestParts(
   return result;
 }
 
+// The key of an HTTP method together with a custom verb (empty if there is none)
+// in a PathMatcherNode. A custom verb contains no ':', so the key is unambiguous.
+HttpMethod HttpMethodAndVerb(const std::string& http_method,
+                             const std::string& verb) {
+  return http_method + ":" + verb;
+}
+
 // Looks up on a PathMatcherNode.
 PathMatcherLookupResult LookupInPathMatcherNode(
     const PathMatcherNode& root, const std::vector<std::string>& parts,
@@ -342,7 +349,8 @@ Method PathMatcher<Method>::Lookup(
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              HttpMethodAndVerb(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -377,7 +385,8 @@ Method PathMatcher<Method>::Lookup(const std::string& http_method,
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              HttpMethodAndVerb(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -430,7 +439,8 @@ bool PathMatcherBuilder<Method>::Register(
   method_data->body_field_path = body_field_path;
   method_data->system_query_parameter_names = system_query_parameter_names;
 
-  if (!InsertPathToNode(path_info, method_data.get(), http_method + ht->verb(),
+  if (!InsertPathToNode(path_info, method_data.get(),
+                        HttpMethodAndVerb(http_method, ht->verb()),
                         root_ptr_.get())) {
     return false;
   }
diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index f738b12..4c71bf3 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -245,8 +245,15 @@ bool PathMatcherNode::LookupPathFromChild(
 
 bool PathMatcherNode::GetResultForHttpMethod(
     HttpMethod key, PathMatcherLookupResult* result) const {
+  // The wild card stands for any HTTP method, but not for any custom verb: the
+  // custom verb is what follows the last ':' of the key, if there is one.
+  HttpMethod wild_card_key = HttpMethod_WILD_CARD;
+  const std::size_t verb_pos = key.rfind(':');
+  if (verb_pos != std::string::npos) {
+    wild_card_key += key.substr(verb_pos);
+  }
   const PathMatcherLookupResult* found_p =
-      Find2KeysOrNull(result_map_, key, HttpMethod_WILD_CARD);
+      Find2KeysOrNull(result_map_, key, wild_card_key);
   if (found_p != nullptr) {
     *result = *found_p;
     return true;
-- 
2.43.0


From bc9f6fdaac667dbeda00aa557b643c2c325ce7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 04/15] fix: RequestWeaver::Bind read past the end of an empty
 field path

---
 src/request_weaver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 33fb2fb..8ff99ec 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -322,7 +322,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 
   // Find or create the path from the root to the leaf message, where the value
   // should be injected.
-  for (size_t i = 0; i < field_path.size() - 1; ++i) {
+  for (size_t i = 0; i + 1 < field_path.size(); ++i) {
     current = current->FindOrCreateWeaveMsg(field_path[i]);
   }
 
-- 
2.43.0


From 9372b4f1685baf563b10278973e8773782213bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 05/15] fix: compare 64-bit binding and body values in full
 width

---
 src/request_weaver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 8ff99ec..7a479f4 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -68,7 +68,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_INT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToInt64();
+      absl::StatusOr<int64_t> status = value_in_binding.ToInt64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "int64", value_in_binding);
       }
@@ -88,7 +88,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_UINT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToUint64();
+      absl::StatusOr<uint64_t> status = value_in_binding.ToUint64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "uint64", value_in_binding);
       }
-- 
2.43.0


From d2b8d87ec5b21d6785df54233e62c928cfb6f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 06/15] fix: compare double binding and body values as doubles,
 and equal infinities as equal

---
 src/request_weaver.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 7a479f4..907590d 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -41,7 +41,11 @@ namespace pbconv = google::protobuf::util::converter;
 
 namespace {
 
-bool AlmostEquals(float a, float b) { return fabs(a - b) < 32 * FLT_EPSILON; }
+template <typename T>
+bool AlmostEquals(T a, T b) {
+  // Equal infinities don't have a difference.
+  return a == b || std::fabs(a - b) < 32 * FLT_EPSILON;
+}
 
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
-- 
2.43.0


From 3041ef76f56f906e9294378c6ccfeb95be260ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 07/15] fix: reject response messages that end at a zero tag
 instead of reading the rest of them as the next frame

---
 src/response_to_json_translator.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 720a855..0b1bf7d 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -133,6 +133,16 @@ bool ResponseToJsonTranslator::TranslateMessage(
     return false;
   }
 
+  // The translation stops at a zero tag. The rest of such a malformed message
+  // must not be taken for the next gRPC frame.
+  const void* data = nullptr;
+  int size = 0;
+  if (proto_in->Next(&data, &size)) {
+    status_ = absl::Status(absl::StatusCode::kInvalidArgument,
+                           "Malformed response message.");
+    return false;
+  }
+
   // Append a newline delimiter after the message if needed.
   if (streaming_ && options_.stream_newline_delimited) {
     if (!WriteChar(&json_stream, '\n')) {
-- 
2.43.0


From 7aebd89f48815d819c6c09e85f05a3bcc20cbecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 08/15] fix: do not leave the previous message in place at the
 end of a newline-delimited response

---
 src/response_to_json_translator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 0b1bf7d..458af86 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -70,6 +70,9 @@ bool ResponseToJsonTranslator::NextMessage(std::string* message) {
       // finished. Return the final ']'
       // or "[]" in case this was an empty stream.
       *message = first_ ? "[]" : "]";
+    } else {
+      // Nothing follows the last line.
+      message->clear();
     }
     finished_ = true;
     return true;
-- 
2.43.0


From ce5eb722306972510f201f2ee52687b1a41346c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 09/15] fix: apply the collision and enum parsing options to
 the messages of a streaming request

---
 src/request_stream_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_stream_translator.cc b/src/request_stream_translator.cc
index ab679cc..73bddee 100644
--- a/src/request_stream_translator.cc
+++ b/src/request_stream_translator.cc
@@ -229,6 +229,10 @@ void RequestStreamTranslator::StartMessageTranslator() {
   RequestInfo request_info;
   request_info.message_type = request_info_.message_type;
   request_info.body_field_path = request_info_.body_field_path;
+  request_info.reject_binding_body_field_collisions =
+      request_info_.reject_binding_body_field_collisions;
+  request_info.case_insensitive_enum_parsing =
+      request_info_.case_insensitive_enum_parsing;
   // As we need to weave the variable bindings only for the first message, we
   // can use vector::swap() to avoid copying and to clear the bindings from
   // request_info_, s.t. the subsequent messages don't use them.
-- 
2.43.0


From b95b7175489a6f13e1758a651b8d32527294f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 10/15] fix: do not return a partial message once the
 translation of a unary request has failed

---
 src/request_message_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_message_translator.cc b/src/request_message_translator.cc
index 7610cf5..7aa0f57 100644
--- a/src/request_message_translator.cc
+++ b/src/request_message_translator.cc
@@ -97,6 +97,10 @@ bool RequestMessageTranslator::NextMessage(std::string* message) {
     // No full message yet
     return false;
   }
+  if (!Status().ok()) {
+    // The translation has failed, there is no message
+    return false;
+  }
   if (output_delimiter_) {
     WriteDelimiter();
   }
-- 
2.43.0


From 27ea5fadef5586e2ff15328121a70deb768f7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 11/15] fix: return the message that only the end of the
 request body completes

---
 src/json_request_translator.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index 0b3276e..81ed1d2 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -59,7 +59,8 @@ class LazyRequestTranslator : public MessageStream {
       : input_json_(json_input),
         json_parser_(json_parser),
         translated_(translated),
-        seen_input_(false) {}
+        seen_input_(false),
+        finished_input_(false) {}
 
   // MessageStream implementation
   bool NextMessage(std::string* message) {
@@ -91,9 +92,13 @@ class LazyRequestTranslator : public MessageStream {
         // If there was no input at all translate an empty JSON object ("{}").
         return CheckParsingStatus(json_parser_->Parse("{}"));
       }
-      // No more data to translate, finish the parser and return false.
-      CheckParsingStatus(json_parser_->FinishParse());
-      return false;
+      if (finished_input_) {
+        return false;
+      }
+      // No more data to translate, finish the parser: what it has been holding
+      // back (a number at the very end) might complete a message.
+      finished_input_ = true;
+      return CheckParsingStatus(json_parser_->FinishParse());
     } else if (0 == size) {
       // No data at this point, but there might be more input later.
       return false;
@@ -133,6 +138,9 @@ class LazyRequestTranslator : public MessageStream {
   // Whether we have seen any input or not
   bool seen_input_;
 
+  // Whether the end of the input has been passed on to the parser
+  bool finished_input_;
+
   // Translation status
   absl::Status status_;
 };
-- 
2.43.0


From dafd4f0c7ae3e52b149743e183f51bc20860b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 12/15] fix: return no message once the translation of a
 request body has failed

---
 src/json_request_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index 81ed1d2..3b0a06b 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -64,6 +64,10 @@ class LazyRequestTranslator : public MessageStream {
 
   // MessageStream implementation
   bool NextMessage(std::string* message) {
+    if (!status_.ok()) {
+      // The translation has failed, no message follows
+      return false;
+    }
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-- 
2.43.0


From 90dfc10006fae14f3a9b169685890e9e031a3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 13/15] fix: recognise body members by their JSON names when
 weaving bindings

---
 src/request_weaver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 907590d..c12a9e9 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -166,6 +166,13 @@ absl::Status isEqual(absl::string_view field_name,
   return absl::OkStatus();
 }
 
+// Whether the name of a JSON object member stands for the field: the JSON
+// format accepts both the proto name and the JSON name.
+bool IsNameOf(absl::string_view name, const pb::Field& field) {
+  return name == field.name() ||
+         (!field.json_name().empty() && name == field.json_name());
+}
+
 }  // namespace
 
 RequestWeaver::RequestWeaver(std::vector<BindingInfo> bindings,
@@ -359,7 +366,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 
   for (auto it = current_.top()->bindings.begin();
        it != current_.top()->bindings.end();) {
-    if (name == it->first->name()) {
+    if (IsNameOf(name, *it->first)) {
       if (it->first->cardinality() == pb::Field::CARDINALITY_REPEATED) {
         pbconv::ObjectWriter::RenderDataPieceTo(
             pbconv::DataPiece(absl::string_view(it->second), true), name, ow_);
@@ -382,7 +389,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
     const absl::string_view field_name) {
   for (auto& msg : messages) {
-    if (field_name == msg.first->name()) {
+    if (IsNameOf(field_name, *msg.first)) {
       return &msg.second;
     }
   }
-- 
2.43.0


From 51b253c85371588e7b6335152191c5439a672f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 14/15] fix: check every value of a field in the body against
 its binding

A value in a second occurrence of the field, or of the message holding it, was
not checked any more and silently replaced the value of the binding.
---
 src/include/grpc_transcoding/request_weaver.h | 15 ++++++
 src/request_weaver.cc                         | 47 ++++++++++++++-----
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/include/grpc_transcoding/request_weaver.h b/src/include/grpc_transcoding/request_weaver.h
index 589351d..614253c 100644
--- a/src/include/grpc_transcoding/request_weaver.h
+++ b/src/include/grpc_transcoding/request_weaver.h
@@ -108,6 +108,14 @@ class RequestWeaver : public google::protobuf::util::converter::ObjectWriter {
     std::list<std::pair<const google::protobuf::Field*, WeaveInfo>> messages;
     std::list<std::pair<const google::protobuf::Field*, std::string>> bindings;
 
+    // The bindings of singular fields that have been written or superseded by
+    // a value in the body. Further values of the same field in the body are
+    // still checked against them.
+    std::vector<std::pair<const google::protobuf::Field*, std::string>> settled;
+
+    // Whether there are bindings left to write in this subtree.
+    bool HasBindings() const;
+
     // Find the entry for the speciied field in messages list .
     WeaveInfo* FindWeaveMsg(absl::string_view field_name);
 
@@ -132,6 +140,13 @@ class RequestWeaver : public google::protobuf::util::converter::ObjectWriter {
       absl::string_view name,
       const ::google::protobuf::util::converter::DataPiece& value);
 
+  // Reports to the error listener if the values of the field in the body and in
+  // the binding differ.
+  void ReportCollision(
+      absl::string_view name,
+      const ::google::protobuf::util::converter::DataPiece& value_in_body,
+      absl::string_view binding);
+
   // All the headers, variable bindings and parameter bindings to be weaved in.
   //   root_   : root of the tree to be weaved in.
   //   current_: stack of nodes in the current visit path from the root.
diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index c12a9e9..00659b2 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -343,41 +343,48 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 }
 
 void RequestWeaver::WeaveTree(RequestWeaver::WeaveInfo* info) {
-  for (const auto& data : info->bindings) {
+  for (auto& data : info->bindings) {
     pbconv::ObjectWriter::RenderDataPieceTo(
         pbconv::DataPiece(absl::string_view(data.second), true),
         absl::string_view(data.first->name()), ow_);
+    if (data.first->cardinality() != pb::Field::CARDINALITY_REPEATED) {
+      info->settled.emplace_back(std::move(data));
+    }
   }
   info->bindings.clear();
   for (auto& msg : info->messages) {
-    // Enter into the message only if there are bindings or submessages left
-    if (!msg.second.bindings.empty() || !msg.second.messages.empty()) {
+    // Enter into the message only if there are bindings left
+    if (msg.second.HasBindings()) {
       ow_->StartObject(msg.first->name());
       WeaveTree(&msg.second);
       ow_->EndObject();
     }
   }
-  info->messages.clear();
 }
 
 void RequestWeaver::CollisionCheck(absl::string_view name,
                                    const pbconv::DataPiece& value_in_body) {
   if (current_.empty()) return;
 
+  if (report_collisions_) {
+    // The name may occur more than once in the body.
+    for (const auto& data : current_.top()->settled) {
+      if (IsNameOf(name, *data.first)) {
+        ReportCollision(name, value_in_body, data.second);
+      }
+    }
+  }
   for (auto it = current_.top()->bindings.begin();
        it != current_.top()->bindings.end();) {
     if (IsNameOf(name, *it->first)) {
       if (it->first->cardinality() == pb::Field::CARDINALITY_REPEATED) {
         pbconv::ObjectWriter::RenderDataPieceTo(
             pbconv::DataPiece(absl::string_view(it->second), true), name, ow_);
-      } else if (report_collisions_) {
-        pbconv::DataPiece value_in_binding =
-            pbconv::DataPiece(absl::string_view(it->second), true);
-        absl::Status compare_status =
-            isEqual(name, value_in_body, value_in_binding);
-        if (!compare_status.ok()) {
-          error_listener_->set_status(compare_status);
+      } else {
+        if (report_collisions_) {
+          ReportCollision(name, value_in_body, it->second);
         }
+        current_.top()->settled.emplace_back(std::move(*it));
       }
       it = current_.top()->bindings.erase(it);
       continue;
@@ -386,6 +393,24 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
   }
 }
 
+void RequestWeaver::ReportCollision(absl::string_view name,
+                                    const pbconv::DataPiece& value_in_body,
+                                    absl::string_view binding) {
+  absl::Status compare_status =
+      isEqual(name, value_in_body, pbconv::DataPiece(binding, true));
+  if (!compare_status.ok()) {
+    error_listener_->set_status(compare_status);
+  }
+}
+
+bool RequestWeaver::WeaveInfo::HasBindings() const {
+  if (!bindings.empty()) return true;
+  for (const auto& msg : messages) {
+    if (msg.second.HasBindings()) return true;
+  }
+  return false;
+}
+
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
     const absl::string_view field_name) {
   for (auto& msg : messages) {
-- 
2.43.0


From dec82278881262b526c2220aa545da20971e537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 15/15] fix: keep the work of weaving proportional to the
 bindings

---
 src/include/grpc_transcoding/request_weaver.h | 10 ++++++++--
 src/request_weaver.cc                         | 16 ++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/include/grpc_transcoding/request_weaver.h b/src/include/grpc_transcoding/request_weaver.h
index 614253c..f15da83 100644
--- a/src/include/grpc_transcoding/request_weaver.h
+++ b/src/include/grpc_transcoding/request_weaver.h
@@ -113,8 +113,14 @@ class RequestWeaver : public google::protobuf::util::converter::ObjectWriter {
     // still checked against them.
     std::vector<std::pair<const google::protobuf::Field*, std::string>> settled;
 
-    // Whether there are bindings left to write in this subtree.
-    bool HasBindings() const;
+    // The node this one is a child of (nodes never move once created).
+    WeaveInfo* parent = nullptr;
+
+    // The number of bindings left to write in this subtree.
+    int pending = 0;
+
+    // Adds to the number of bindings left in the subtrees this node is part of.
+    void AddPending(int count);
 
     // Find the entry for the speciied field in messages list .
     WeaveInfo* FindWeaveMsg(absl::string_view field_name);
diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 00659b2..95069cb 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -339,6 +339,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 
   if (!field_path.empty()) {
     current->bindings.emplace_back(field_path.back(), std::move(value));
+    current->AddPending(1);
   }
 }
 
@@ -351,10 +352,12 @@ void RequestWeaver::WeaveTree(RequestWeaver::WeaveInfo* info) {
       info->settled.emplace_back(std::move(data));
     }
   }
+  info->AddPending(-static_cast<int>(info->bindings.size()));
   info->bindings.clear();
+  if (info->pending == 0) return;
   for (auto& msg : info->messages) {
     // Enter into the message only if there are bindings left
-    if (msg.second.HasBindings()) {
+    if (msg.second.pending > 0) {
       ow_->StartObject(msg.first->name());
       WeaveTree(&msg.second);
       ow_->EndObject();
@@ -387,6 +390,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
         current_.top()->settled.emplace_back(std::move(*it));
       }
       it = current_.top()->bindings.erase(it);
+      current_.top()->AddPending(-1);
       continue;
     }
     ++it;
@@ -403,12 +407,11 @@ void RequestWeaver::ReportCollision(absl::string_view name,
   }
 }
 
-bool RequestWeaver::WeaveInfo::HasBindings() const {
-  if (!bindings.empty()) return true;
-  for (const auto& msg : messages) {
-    if (msg.second.HasBindings()) return true;
+void RequestWeaver::WeaveInfo::AddPending(int count) {
+  if (count == 0) return;
+  for (WeaveInfo* info = this; info != nullptr; info = info->parent) {
+    info->pending += count;
   }
-  return false;
 }
 
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
@@ -424,6 +427,7 @@ RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::CreateWeaveMsg(
     const pb::Field* field) {
   messages.emplace_back(field, WeaveInfo());
+  messages.back().second.parent = this;
   return &messages.back().second;
 }
 
-- 
2.43.0

