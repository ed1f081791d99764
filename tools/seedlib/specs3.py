RSTH = "src/include/grpc_transcoding/request_stream_translator.h"; PWH = "src/include/grpc_transcoding/prefix_writer.h"; HTH = "src/include/grpc_transcoding/http_template.h"
REP = 'static std::string rep(const std::string& s, size_t n) { std::string r; while (n--) r += s; return r; }\n'
# ---- large inputs
seed("c02-compact", "C02", "pm", HTH, "    int start_segment;\n    int end_segment;\n", "    signed char start_segment;\n    signed char end_segment;\n",
 REP + 'int main() { auto t = HttpTemplate::Parse(rep("/a", 130) + "/{x}"); EXPECT(t && t->Variables()[0].start_segment == 130 && t->Variables()[0].end_segment == 131);' + END,
 "a variable at a position beyond 127", "the position reported for the variable wraps around")
seed("c06-long-verb", "C06", "pm", PMH, "  if (last_colon_pos != std::string::npos && last_colon_pos > last_slash_pos) {", "  if (last_colon_pos != std::string::npos && last_colon_pos > last_slash_pos &&\n      path.size() - last_colon_pos <= 32) {",
 REP + 'int main() { ' + BLD + 'std::string v = rep("verb", 10); b.Register("GET", "/a/*:" + v, "", "m"); auto pm = b.Build(); EQ(look(*pm, "GET", "/a/b:" + v), "m"); EQ(look(*pm, "GET", "/a/b"), "null");' + END,
 "a custom verb of 32 characters or more", "the verb is taken for a part of the last segment")
seed("c09-maxparams", "C09", "pm", PMH, "  std::vector<std::string> params = absl::StrSplit(query_params, '&');", "  std::vector<std::string> params =\n      absl::StrSplit(query_params, absl::MaxSplits('&', 31));",
 'int main() { ' + BLD + 'b.Register("GET", "/a", "", "m"); auto pm = b.Build(); std::string q, w = "m"; for (int i = 0; i < 36; i++) { q += (i ? "&p" : "p") + std::to_string(i) + "=" + std::to_string(i); w += " p" + std::to_string(i) + "=" + std::to_string(i); } EQ(look(*pm, "GET", "/a", q), w);' + END,
 "a query string of more than 32 parameters", "the parameters from the 32nd on become one")
seed("c15-early-large", "C15", "rd", MRC, "  if (in_->BytesAvailable() < static_cast<pb::int64>(current_message_size_)) {", "  if (in_->BytesAvailable() <\n      std::min(static_cast<pb::int64>(current_message_size_),\n               static_cast<pb::int64>(1 << 20))) {",
 'int main() { Src s; std::string m(3 << 20, \'m\'); s.q.push_back(frame(m).substr(0, 2 << 20)); MessageReader r(&s); EXPECT(r.NextMessage() == nullptr);' + END,
 "a frame of more than 1 MiB that arrives in parts", "the message is handed out before all of it has arrived")
seed("c16-flag-bit", "C16", "rd", MRC, "    if (delimiter_[0] != 0) {", "    if (delimiter_[0] & 0x7f) {",
 'int main() { Src s; s.fin = true; s.q.push_back(frame("abc", 0x80)); MessageReader r(&s); std::string g; EXPECT(!next(r, &g)); EXPECT(!r.Status().ok());' + END,
 "a frame flag of 0x80 (the trailer frame of gRPC-Web)", "the frame is returned as a message")
seed("c20-depth8", "C20", "conv", PWH, "  int non_actionable_depth_;", "  uint8_t non_actionable_depth_;",
 P + REP + 'int main() { Rec r; PrefixWriter w("a.b", &r); for (int i = 0; i < 260; i++) w.StartList(""); for (int i = 0; i < 260; i++) w.EndList(); EQ(r.s, "{ {a [b " + rep("[ ", 259) + rep("] ", 260) + "} } ");' + END,
 "a body nested 256 levels deep", "objects of the body path are opened again inside the body", srcs=PWC)
seed("c21-depth8", "C21", "conv", RWH, "  int non_actionable_depth_;", "  signed char non_actionable_depth_;",
 W + REP + 'int main() { Rec r; StatusErrorListener l; RequestWeaver w({bind("x", "1")}, &r, &l, false); w.StartObject("")->StartList("y"); for (int i = 0; i < 255; i++) w.StartList(""); w.RenderString("x", "2"); for (int i = 0; i < 255; i++) w.EndList(); w.EndList()->EndObject(); EQ(r.s, "{ [y " + rep("[ ", 255) + "sx=2 " + rep("] ", 256) + "sx=1 } ");' + END,
 "a body nested 256 levels deep below the message", "a binding counts as set by a value deep inside a list", srcs=WSRC)
seed("c23-depth8", "C23", "conv", RSTH, "  int depth_;", "  int8_t depth_;",
 S + REP + SB + 'RequestStreamTranslator t(types, false, info); pbc::ObjectWriter& w = t; w.StartList(""); for (int i = 0; i < 140; i++) w.StartObject(i ? "a" : ""); w.RenderInt32("x", 1); for (int i = 0; i < 140; i++) w.EndObject(); EXPECT(t.Status().ok()); std::string m; EXPECT(t.NextMessage(&m)); EXPECT(!t.NextMessage(&m));' + END,
 "an array element nested 127 levels deep", "a well-formed body is rejected as mismatched", srcs=SSRC)
seed("c25-maxnames", "C25", "conv", THC, "      absl::StrSplit(field_path_str, '.', absl::SkipEmpty());", "      absl::StrSplit(field_path_str, absl::MaxSplits('.', 31),\n                     absl::SkipEmpty());",
 '#include "grpc_transcoding/percent_encoding.h"\n' + TI.replace('return u == "u1" ? &gT[1] : nullptr', 'return u == "u1" ? &gT[1] : u == "u0" ? &gT[0] : nullptr') + 'gT[1].mutable_fields()->Add(field("t", pb::Field::TYPE_MESSAGE, "u0")); std::string p; for (int i = 0; i < 20; i++) p += "m.t."; EXPECT(h.ResolveFieldPath(gT[0], p + "m.x", &out).ok() && out.size() == 42);' + END,
 "a field path of more than 32 names", "a resolvable path is rejected", srcs=THC)
seed("c22-double-cmp", "C22", "conv", RWC, "      if (status.value() != value_in_body.ToInt64().value()) {", "      if (static_cast<double>(status.value()) !=\n          static_cast<double>(value_in_body.ToInt64().value())) {",
 W + 'int main() { Rec r; { StatusErrorListener l; RequestWeaver w({bind("x", "9007199254740993")}, &r, &l, true); w.StartObject("")->RenderInt64("x", 9007199254740992)->EndObject(); EXPECT(!l.status().ok()); }' + END,
 "two int64 values beyond 2^53 that differ in their last bits", "the conflict is not reported", srcs=WSRC)
seed("c24-chunk-cap", "C24", "conv", JRT, "        absl::string_view(reinterpret_cast<const char*>(data), size)));", "        absl::string_view(reinterpret_cast<const char*>(data),\n                          size < 0x2000 ? size : 0x2000)));",
 JT + 'in.q = {"[{}" + std::string(9000, \' \') + ",{}]"}; JsonRequestTranslator t(&types, &in, info, true, false); std::string m; int n = 0; while (t.Output().NextMessage(&m)) n++; EXPECT(n == 2); EXPECT(gParsed == in.q[0]);' + END,
 "an input chunk of more than 8 KiB", "the rest of the chunk is dropped", srcs=JSR)
seed("c27-reserved-table", "C27", "pm", PE, None, None,
 'int main() { std::string s = "%F0%9F%98%80"; EXPECT(UrlUnescapeString(s, UrlUnescapeSpec::kAllCharactersExceptReserved, false) == "\\xf0\\x9f\\x98\\x80"); EXPECT(UrlUnescapeString("%80", UrlUnescapeSpec::kAllCharactersExceptReserved, false) == "\\x80");' + END,
 "an escaped byte of 0x80 or more, decoded keeping reserved characters", "the table of reserved characters is read before its beginning", flags="-fsanitize=address",
 edits=[(PE, "  // Reserved characters according to RFC 6570\n  switch (c) {", "  // Reserved characters according to RFC 6570\n  static constexpr bool kPlain[128] = {\n      [' '] = true, ['\\\"'] = true, ['%'] = true, ['-'] = true, ['.'] = true};\n  if (kPlain[static_cast<int>(c)]) {\n    return false;\n  }\n  switch (c) {")])
seed("c27-unescape-buf", "C27", "pm", PE, None, None,
 REP + 'int main() { std::string s = rep("a", 127) + "%41"; EXPECT(UrlUnescapeString(s, UrlUnescapeSpec::kAllCharacters, false) == rep("a", 127) + "A"); s = rep("a", 129) + "+"; EXPECT(UrlUnescapeString(s, UrlUnescapeSpec::kAllCharacters, true) == rep("a", 129) + " ");' + END,
 "a query value of 129 or 130 bytes with a '+' and no other escape", "the decoder writes past the end of its buffer on the stack", flags="-fsanitize=address",
 edits=[(PE, "  char ch = '\\0';\n  unescaped.resize(part.size());\n\n  char* begin = &(unescaped)[0];\n", "  char ch = '\\0';\n  // Short strings (no more than 128 characters once decoded) need no heap.\n  char small[128];\n  const bool is_small = part.size() <= sizeof(small) + 2;\n  if (!is_small) unescaped.resize(part.size());\n\n  char* begin = is_small ? small : &(unescaped)[0];\n"), (PE, "  unescaped.resize(p - begin);\n  return unescaped;", "  if (is_small) {\n    return std::string(begin, p - begin);\n  }\n  unescaped.resize(p - begin);\n  return unescaped;")])
# ---- C30
NT = '#include "grpc_transcoding/path_matcher_node.h"\ntypedef PathMatcherNode N; static N::PathInfo info(const std::vector<std::string>& v) { N::PathInfo::Builder b; for (auto& s : v) b.AppendLiteralNode(s); return b.Build(); }\nstatic std::string find(const N& n, const std::vector<std::string>& p, const char* m = "GET") { PathMatcherLookupResult r; n.LookupPath(p.begin(), p.end(), m, &r); if (!r.data) return "null"; return std::string((const char*)r.data) + (r.is_multiple ? "!" : ""); }\nstatic char A[] = "a", B[] = "b", C[] = "c";\n'
seed("c30-clone-wild", "C30", "pm", PN, "  clone->wildcard_ = wildcard_;", "  clone->wildcard_ = wildcard_ && result_map_.empty();",
 NT + 'int main() { N n; n.InsertPath(info({"**"}), "GET", A, true); auto c = n.Clone(); EQ(find(n, {"x", "y"}), "a"); EQ(find(*c, {"x", "y"}), "a");' + END,
 "a copy of a trie with a final '**' and a path of several parts below it", "the copy does not match what the original matches")
seed("c30-clone-mark", "C30", "pm", PN, "  clone->result_map_ = result_map_;", "  for (const auto& entry : result_map_) {\n    clone->result_map_.emplace(\n        entry.first, PathMatcherLookupResult(entry.second.data, false));\n  }",
 NT + 'int main() { N n; n.InsertPath(info({"x"}), "GET", A, true); n.InsertPath(info({"x"}), "GET", B, true); auto c = n.Clone(); EQ(find(n, {"x"}), "b!"); EQ(find(*c, {"x"}), "b!");' + END,
 "a copy of a trie with a duplicate path", "the copy forgets that the path is a duplicate")
seed("c30-unmark", "C30", "pm", PN, None, None,
 NT + 'int main() { N n; n.InsertPath(info({"x"}), "GET", A, true); n.InsertPath(info({"x"}), "GET", B, true); n.InsertPath(info({"x"}), "GET", C, false); EQ(find(n, {"x"}), "c!");' + END,
 "a path inserted again with marking and then again without", "the duplicate mark is taken back", edits=[(PN, "      existing->data = method_data;\n", "      existing->data = method_data;\n      existing->is_multiple = mark_duplicates;\n")])
seed("c30-keep-data", "C30", "pm", PN, "      existing->data = method_data;\n", "      if (mark_duplicates || !existing->is_multiple) {\n        existing->data = method_data;\n      }\n",
 NT + 'int main() { N n; n.InsertPath(info({"x"}), "GET", A, true); n.InsertPath(info({"x"}), "GET", B, true); n.InsertPath(info({"x"}), "GET", C, false); EQ(find(n, {"x"}), "c!");' + END,
 "a duplicate path inserted again without marking", "the data of the last insertion is dropped")
seed("c30-single", "C30", "pm", PN, "  path_.emplace_back(HttpTemplate::kSingleParameterKey);", "  if (path_.empty() || path_.back() != HttpTemplate::kSingleParameterKey) {\n    path_.emplace_back(HttpTemplate::kSingleParameterKey);\n  }",
 NT + 'int main() { N n; n.InsertPath(N::PathInfo::Builder().AppendSingleParameterNode().AppendSingleParameterNode().Build(), "GET", A, true); EQ(find(n, {"x", "y"}), "a"); EQ(find(n, {"x"}), "null");' + END,
 "two single parameter nodes in a row", "the second one is lost")
# ---- C31
OPT = 'static std::string opts(const pb::Type& t) { std::string s; for (int i = 0; i < t.options_size(); i++) s += t.options(i).name() + " "; return s; }\n'
TO = TI.replace("int main()", OPT + "int main()").replace('TypeHelper h(types, enums);', 'const std::string O = "proto2.MessageOptions.", G = "google.protobuf.MessageOptions."; pb::Type t; ')
seed("c31-break", "C31", "conv", THC, "        option.set_name(\"google.protobuf.MessageOptions.map_entry\");\n", "        option.set_name(\"google.protobuf.MessageOptions.map_entry\");\n        break;\n",
 TO + 'types[0].add_options()->set_name(O + "map_entry"); types[0].add_options()->set_name(O + "message_set_wire_format"); TypeHelper h(types, enums); EXPECT(h.Resolver()->ResolveMessageType("type.googleapis.com/pkg.T", &t).ok()); EQ(opts(t), G + "map_entry " + G + "message_set_wire_format ");' + END,
 "a type with both of the old options", "only the first one is renamed", srcs=THC)
seed("c31-prefix", "C31", "conv", THC, "      if (option.name() == \"proto2.MessageOptions.map_entry\") {", "      if (option.name().rfind(\"proto2.MessageOptions.map_entry\", 0) == 0) {",
 TO + 'types[0].add_options()->set_name(O + "map_entry_sorted"); TypeHelper h(types, enums); EXPECT(h.Resolver()->ResolveMessageType("type.googleapis.com/pkg.T", &t).ok()); EQ(opts(t), O + "map_entry_sorted ");' + END,
 "an option whose name only begins like an old one", "another option turns into map_entry", srcs=THC)
seed("c31-latest", "C31", "conv", THC, "    type_map_.emplace(url_prefix_ + t.name(), &t);", "    type_map_[url_prefix_ + t.name()] = &t;",
 TO + 'types.resize(2); types[1].set_name("pkg.T"); *types[0].mutable_fields() = {field("first", pb::Field::TYPE_STRING)}; TypeHelper h(types, enums); EXPECT(h.Resolver()->ResolveMessageType("type.googleapis.com/pkg.T", &t).ok()); EXPECT(t.fields_size() == 1);' + END,
 "two supplied types of the same name", "the last one is served instead of the first", srcs=THC)
seed("c31-merge", "C31", "conv", THC, "        *type = *i->second;", "        type->MergeFrom(*i->second);",
 TO + '*types[0].mutable_fields() = {field("f", pb::Field::TYPE_STRING)}; TypeHelper h(types, enums); for (int i = 0; i < 2; i++) EXPECT(h.Resolver()->ResolveMessageType("type.googleapis.com/pkg.T", &t).ok()); EXPECT(t.fields_size() == 1);' + END,
 "resolving into a type object that already holds something", "the fields are appended to the stale ones", srcs=THC)
# ---- illegal back-ups; many siblings
seed("c17-illegal-clamp", "C17", "rd", MSC, "      position_ -= static_cast<size_t>(count);\n    }", "      position_ -= static_cast<size_t>(count);\n    } else if (count > 0) {\n      position_ = 0;\n    }",
 'int main() { Msgs m; m.q = {"ab", "cd"}; m.fin = true; auto s = m.CreateInputStream(); const void* d; int n; EXPECT(s->Next(&d, &n) && n == 2); s->BackUp(100); EXPECT(s->Next(&d, &n) && n == 2 && !memcmp(d, "cd", 2));' + END,
 "a back-up of more bytes than were ever delivered", "the whole message is delivered again")
seed("c17-illegal-negative", "C17", "rd", MSC, "    if (count > 0 && static_cast<size_t>(count) <= position_) {", "    if (count <= static_cast<int64_t>(position_)) {",
 'int main() { Msgs m; m.q = {"ab", "cd"}; m.fin = true; auto s = m.CreateInputStream(); const void* d; int n; EXPECT(s->BytesAvailable() == 2); s->BackUp(-1); EXPECT(s->BytesAvailable() == 2); EXPECT(s->Next(&d, &n) && n == 2 && !memcmp(d, "ab", 2));' + END,
 "a back-up of a negative number of bytes before the message is read", "the first byte of the message is lost")
seed("c21-many-messages", "C21", "conv", RWC, "  for (auto& msg : messages) {\n    if (field_name == msg.first->name()) {\n      return &msg.second;\n    }\n  }\n  return nullptr;", "  // Most requests have few messages: look at the latest ones only.\n  int left = 64;\n  for (auto it = messages.rbegin(); it != messages.rend() && left > 0;\n       ++it, --left) {\n    if (field_name == it->first->name()) {\n      return &it->second;\n    }\n  }\n  return nullptr;",
 W + 'int main() { Rec r; StatusErrorListener l; std::vector<B> b; static pb::Field f[70], x; x.set_name("x"); for (int i = 0; i < 70; i++) { f[i].set_name("m" + std::to_string(i)); B e; e.field_path = {&f[i], &x}; e.value = "1"; b.push_back(e); } RequestWeaver w(b, &r, &l, false); w.StartObject("")->StartObject("m0")->EndObject()->EndObject(); EXPECT(r.s.rfind("{ {m0 sx=1 } {m1 sx=1 } ", 0) == 0); EXPECT(r.s.find("{m0 ", 5) == std::string::npos);' + END,
 "bindings into more than 64 messages, the first of which the body also sets", "a second object is written for the message", srcs=WSRC)
seed("c06-late-verb", "C06", "pm", PMH, "  if (!ht->verb().empty()) {\n    custom_verbs_.insert", "  // The set need not grow without bound.\n  if (!ht->verb().empty() && custom_verbs_.size() < 128) {\n    custom_verbs_.insert",
 'int main() { ' + BLD + 'std::vector<std::string> v; for (int i = 0; i < 130; i++) { v.push_back("v" + std::to_string(i)); b.Register("GET", "/a/*:" + v.back(), "", "m"); } auto pm = b.Build(); EQ(look(*pm, "GET", "/a/x:v0"), "m"); EQ(look(*pm, "GET", "/a/x:v129"), "m");' + END,
 "more than 128 different custom verbs", "requests with a verb registered later find no route")
seed("c04-wild-tries", "C04", "pm", PN, None, None,
 REP + 'int main() { ' + BLD + 'b.Register("GET", "/a/**/b/c", "", "m"); auto pm = b.Build(); EQ(look(*pm, "GET", "/a" + rep("/b", 20) + "/c"), "m"); EQ(look(*pm, "GET", "/a" + rep("/b", 150) + "/c"), "m");' + END,
 "a '**' whose next literal occurs more than 128 times before the match", "the route is not found",
 edits=[(PN, "  for (;; ++current) {\n    if (current == end) {", "  int attempts = 0;\n  for (;; ++current) {\n    if (current == end) {"), (PN, "    if (!wildcard_) {\n      break;\n    }", "    // Bounds the effort on hostile paths.\n    if (!wildcard_ ||\n        (children_.count(*current) > 0 && ++attempts > 128)) {\n      break;\n    }")])
