MRC = "src/message_reader.cc"; MSC = "src/message_stream.cc"; RMT = "src/request_message_translator.cc"; RST = "src/request_stream_translator.cc"; RJT = "src/response_to_json_translator.cc"; PWC = "src/prefix_writer.cc"; RWC = "src/request_weaver.cc"; JRT = "src/json_request_translator.cc"; SEL = "src/status_error_listener.cc"; THC = "src/type_helper.cc"; RWH = "src/include/grpc_transcoding/request_weaver.h"; MRH = "src/include/grpc_transcoding/message_reader.h"; SELH = "src/include/grpc_transcoding/status_error_listener.h"
MSGS = " ".join(["src/request_message_translator.cc", "src/prefix_writer.cc", "src/request_weaver.cc", "src/status_error_listener.cc", "src/message_stream.cc"])
# ---- C14
seed("c14-top-bit", "C14", "rd", MRC, "  if (in_->BytesAvailable() < static_cast<pb::int64>(current_message_size_)) {", "  if (in_->BytesAvailable() < static_cast<int32_t>(current_message_size_)) {",
 'int main() { Src s; s.q.push_back(std::string("\\0\\xff\\xff\\xff\\xfb", 5) + "ab"); MessageReader r(&s); EXPECT(r.NextMessage() == nullptr); EXPECT(s.BytesAvailable() == 2); s.q.push_back("c"); EXPECT(r.NextMessage() == nullptr);' + END,
 "a frame that declares a length of 2^31 or more", "the reader hands out a message before its payload has arrived")
seed("c14-frame-shift", "C14", "rd", MRC, "  size = size | static_cast<unsigned>(delimiter[2]);\n  size <<= 8;", "  size = size | static_cast<unsigned>(static_cast<signed char>(delimiter[2]));\n  size <<= 8;",
 'int main() { Src s; std::string m(0x800001, \'x\'), g; s.q.push_back(frame(m) + frame("y")); MessageReader r(&s); EXPECT(next(r, &g) && g == m); EXPECT(next(r, &g) && g == "y");' + END,
 "a frame of 8 MiB or more (third-highest length byte above 0x7f)", "the length is sign-extended, the message never completes")
# ---- C15
seed("c15-reread", "C15", "rd", MRC, "    // We don't have a full message\n    return nullptr;\n  }\n", "    // We don't have a full message\n    if (in_->BytesAvailable() == 0 && current_message_size_ > 0xffff) {\n      have_current_message_size_ = false;\n    }\n    return nullptr;\n  }\n",
 'int main() { Src s; std::string m(0x10000, \'m\'), g; std::string f = frame(m); s.q.push_back(f.substr(0, 5)); MessageReader r(&s); EXPECT(!next(r, &g)); s.q.push_back(f.substr(5)); EXPECT(next(r, &g) && g == m);' + END,
 "a poll right after the header of a large frame arrived and before any of its payload", "the length already read is forgotten and the payload is taken for a header")
# ---- C16
seed("c16-header-only", "C16", "rd", MRC, "    if (in_->Finished()) {\n      status_ =", "    if (in_->Finished() && in_->BytesAvailable() == 0) {\n      finished_ = true;\n    } else if (in_->Finished()) {\n      status_ =",
 'int main() { Src s; s.fin = true; s.q.push_back(frame("abc").substr(0, 5)); MessageReader r(&s); std::string g; EXPECT(!next(r, &g)); EXPECT(!r.Status().ok()); Src t; t.fin = true; t.q.push_back(frame("abc").substr(0, 6)); MessageReader u(&t); EXPECT(!next(u, &g)); EXPECT(!u.Status().ok());' + END,
 "a stream that ends right after a header that declares a payload", "the truncated frame is taken for a clean end of the stream")
seed("c16-clear", "C16", "rd", MRC, "      if (finished_ && in_->BytesAvailable() != 0) {", "      if (finished_ && in_->BytesAvailable() != 0 &&\n          current_message_size_ == 0) {",
 'int main() { Src s; s.fin = true; s.q.push_back(frame("abc") + std::string(2, 0)); MessageReader r(&s); std::string g; EXPECT(next(r, &g)); EXPECT(!next(r, &g)); EXPECT(!r.Status().ok());' + END,
 "a stream ending inside a header after a non-empty message", "the incomplete header is not reported")
# ---- C17
seed("c17-two-empty", "C17", "rd", MSC, "    while (message_.empty() && src_->NextMessage(&message_)) {\n    }", "    if (src_->NextMessage(&message_) && message_.empty()) {\n      src_->NextMessage(&message_);\n    }",
 'int main() { Msgs m; m.q = {"", "", "ab"}; m.fin = true; auto s = m.CreateInputStream(); EXPECT(s->BytesAvailable() == 2); const void* d; int n; EXPECT(s->Next(&d, &n) && n == 2);' + END,
 "two empty messages in a row", "the stream reports no data although a later message has arrived")
seed("c17-drop-tail", "C17", "rd", MSC, "    if (position_ >= message_.size()) {\n      // If the current", "    if (position_ >= message_.size() || src_->Finished()) {\n      // If the current",
 'int main() { Msgs m; m.q = {"abc"}; m.fin = true; auto s = m.CreateInputStream(); const void* d; int n; EXPECT(s->Next(&d, &n) && n == 3); s->BackUp(2); EXPECT(s->BytesAvailable() == 2); EXPECT(s->Next(&d, &n) && n == 2 && !memcmp(d, "bc", 2));' + END,
 "an availability query after a back-up into the last message of a finished source", "the rest of the last message is dropped")
# ---- C18
RM = 'int main() { NoTypes types; pb::Type type; RequestInfo info; info.message_type = &type; '
seed("c18-shift", "C18", "conv", RMT, "  delimiter[3] = 0xFF & size;\n  size >>= 8;\n  delimiter[2] = 0xFF & size;\n  size >>= 8;", "  delimiter[3] = 0xFF & size;\n  delimiter[2] = 0xFF & (size >> 16);\n  size >>= 16;",
 '#include "grpc_transcoding/request_message_translator.h"\nusing namespace google::grpc::transcoding;\n' + RM + 'RequestMessageTranslator t(types, true, info); t.Input().StartObject("")->RenderString("x", std::string(70000, \'v\'))->EndObject(); std::string m; EXPECT(t.NextMessage(&m)); unsigned n = (unsigned char)m[1] << 24 | (unsigned char)m[2] << 16 | (unsigned char)m[3] << 8 | (unsigned char)m[4]; EXPECT(m.size() > 70000 && n == m.size() - 5);' + END,
 "a request message of 64 KiB or more", "the header declares another length than the message has", srcs=MSGS)
seed("c18-empty", "C18", "conv", RMT, "  if (output_delimiter_) {\n    WriteDelimiter();\n  }\n  *message = std::move(message_);\n  finished_ = true;", "  if (output_delimiter_ && message_.size() < 0x100) {\n    message_[4] = static_cast<char>(message_.size() - kDelimiterSize);\n  } else if (output_delimiter_) {\n    WriteDelimiter();\n  }\n  *message = std::move(message_);\n  finished_ = !message_.empty() || output_delimiter_;",
 '#include "grpc_transcoding/request_message_translator.h"\nusing namespace google::grpc::transcoding;\n' + RM + 'RequestMessageTranslator t(types, false, info); t.Input().StartObject("")->EndObject(); std::string m; EXPECT(t.NextMessage(&m)); EXPECT(t.Finished()); EXPECT(!t.NextMessage(&m));' + END,
 "a request translated without delimiters, polled again after its message", "the message is emitted a second time, empty", srcs=MSGS)
# ---- C19
J = '#include "grpc_transcoding/response_to_json_translator.h"\nusing namespace google::grpc::transcoding;\n'
JB = 'namespace google { namespace protobuf { namespace util { absl::Status BinaryToJsonStream(TypeResolver*, const std::string&, io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out, const JsonPrintOptions&) { const void* d; int n; std::string s; while (in->Next(&d, &n)) { if (!n) break; s.append((const char*)d, n); } if (s == "!") return absl::InvalidArgumentError("bad"); size_t p = 0; while (p < s.size()) { void* o; int k; if (!out->Next(&o, &k)) return absl::InternalError("full"); int c = std::min<size_t>(k, s.size() - p); memcpy(o, s.data() + p, c); p += c; if (c < k) out->BackUp(k - c); } return absl::OkStatus(); } } } }\n'
JS = 'struct Src : TranscoderInputStream { std::string b; size_t pos = 0; bool fin = false; bool Next(const void** d, int* n) override { *d = b.data() + pos; *n = (int)(b.size() - pos); pos = b.size(); return *n > 0 || !fin; } void BackUp(int n) override { pos -= n; } bool Skip(int) override { return false; } int64_t ByteCount() const override { return 0; } int64_t BytesAvailable() const override { return b.size() - pos; } bool Finished() const override { return fin; } };\nstatic std::string frame(const std::string& m) { std::string s(1, 0); for (int i = 3; i >= 0; i--) s += (char)(m.size() >> (8 * i)); return s + m; }\n'
JSRC = "src/response_to_json_translator.cc src/message_reader.cc"
seed("c19-first-late", "C19", "conv", RJT, None, None, J + JB + JS + 'int main() { NoTypes types; Src s; s.b = frame("1") + frame("2"); JsonResponseTranslateOptions o; o.stream_newline_delimited = false; ResponseToJsonTranslator t(&types, "T", true, &s, o); std::string m; EXPECT(t.NextMessage(&m) && m == "[1"); EXPECT(t.NextMessage(&m) && m == ",2"); s.fin = true; EXPECT(t.NextMessage(&m) && m == "]"); Src e; e.b = frame("") + frame("2"); e.fin = true; ResponseToJsonTranslator u(&types, "T", true, &e, o); std::string all; while (u.NextMessage(&m)) all += m; EQ(all, "[,2]");' + END,
 "a streaming response whose first message renders as an empty text (or to which nothing is appended)", "the opening bracket is written a second time", srcs=JSRC,
 edits=[(RJT, "      first_ = false;\n", ""), (RJT, "  if (!status_.ok()) {\n    return false;\n  }\n\n  // Append", "  if (!status_.ok()) {\n    return false;\n  }\n  first_ = first_ && json_out->size() <= 1;\n\n  // Append")])
seed("c19-skip-bad", "C19", "conv", RJT, "      // TranslateMessage() failed - return false. The error details are stored\n      // in status_.\n      return false;", "      // TranslateMessage() failed - return false. The error details are stored\n      // in status_.\n      finished_ = !streaming_;\n      return false;",
 J + JB + JS + 'int main() { NoTypes types; Src s; s.b = frame("!") + frame("2"); JsonResponseTranslateOptions o; o.stream_newline_delimited = true; ResponseToJsonTranslator t(&types, "T", true, &s, o); std::string m; EXPECT(!t.NextMessage(&m)); EXPECT(!t.Status().ok()); EXPECT(t.Finished()); EXPECT(!t.NextMessage(&m)); EXPECT(!t.Status().ok());' + END,
 "a streaming response with a message that fails to translate, and further polls", "the stream goes on after an error and the failing status is overwritten", srcs=JSRC + " src/message_stream.cc",
 edits=[(RJT, "      // TranslateMessage() failed - return false. The error details are stored\n      // in status_.\n      return false;", "      // TranslateMessage() failed - return false. The error details are stored\n      // in status_.\n      finished_ = !streaming_;\n      return false;"), ("src/include/grpc_transcoding/response_to_json_translator.h", "  bool Finished() const { return finished_ || !status_.ok(); }", "  bool Finished() const {\n    return finished_ || (!streaming_ && !status_.ok());\n  }")])
seed("c19-nonstream", "C19", "conv", RJT, "  } else if (streaming_ && reader_.Finished()) {", "  } else if (reader_.Finished() &&\n             (streaming_ || options_.stream_newline_delimited)) {",
 J + JB + JS + 'int main() { NoTypes types; Src s; s.fin = true; JsonResponseTranslateOptions o; o.stream_newline_delimited = true; ResponseToJsonTranslator t(&types, "T", false, &s, o); std::string m = "x"; EXPECT(!t.NextMessage(&m));' + END,
 "a non-streaming response without a message, in newline mode", "an empty message is produced for a response that has none", srcs=JSRC)
seed("c19-newline-after-first", "C19", "conv", RJT, None, None, J + JB + JS + 'int main() { NoTypes types; Src s; s.b = frame("1") + frame("") + frame("3"); s.fin = true; JsonResponseTranslateOptions o; o.stream_newline_delimited = true; ResponseToJsonTranslator t(&types, "T", true, &s, o); std::string m, all; while (t.NextMessage(&m)) all += m; EQ(all, "1\\n\\n3\\n");' + END,
 "newline mode and a message that renders as an empty text", "the newline after the message is missing", srcs=JSRC, edits=[(RJT, "  if (streaming_ && options_.stream_newline_delimited) {\n    if (!WriteChar", "  if (streaming_ && options_.stream_newline_delimited && !json_out->empty()) {\n    if (!WriteChar")])
# ---- C20
P = '#include "grpc_transcoding/prefix_writer.h"\nusing namespace google::grpc::transcoding;\n'
seed("c20-bytes-root", "C20", "conv", PWC, "PrefixWriter* PrefixWriter::RenderBytes(absl::string_view name,\n                                        absl::string_view value) {\n  bool root = non_actionable_depth_ == 0;\n  if (root) {\n    name = StartPrefix(name);\n  }\n  writer_->RenderBytes(name, value);\n  if (root) {", "PrefixWriter* PrefixWriter::RenderBytes(absl::string_view name,\n                                        absl::string_view value) {\n  bool root = non_actionable_depth_ == 0;\n  if (root) {\n    name = StartPrefix(name);\n  }\n  writer_->RenderBytes(name, value);\n  if (root && !value.empty()) {",
 P + 'int main() { Rec r; PrefixWriter w("a.b", &r); w.RenderBytes("", ""); EQ(r.s, "{ {a yb } } "); Rec q; PrefixWriter v("a", &q); v.RenderBytes("", "x"); EQ(q.s, "{ ya=x } ");' + END,
 "an empty byte string as the body under a body path", "the objects opened for the prefix are not closed", srcs=PWC)
seed("c20-list-end", "C20", "conv", PWC, "PrefixWriter* PrefixWriter::EndList() {\n  writer_->EndList();\n  if (--non_actionable_depth_ == 0) {\n    EndPrefix();", "PrefixWriter* PrefixWriter::EndList() {\n  if (non_actionable_depth_ == 1) {\n    writer_->EndList();\n  } else {\n    writer_->EndList();\n  }\n  if (--non_actionable_depth_ == 0 && !prefix_.empty()) {\n    writer_->EndObject();",
 P + 'int main() { Rec r; PrefixWriter w("a.b", &r); w.StartList("")->EndList(); EQ(r.s, "{ {a [b ] } } ");' + END,
 "a list as the body under a body path of two or more fields", "only one of the opened objects is closed", srcs=PWC)
seed("c20-name-reuse", "C20", "conv", PWC, "  for (const auto& prefix : prefix_) {\n    writer_->StartObject(name);\n    name = prefix;\n  }\n  return name;", "  for (const auto& prefix : prefix_) {\n    writer_->StartObject(name == prefix ? absl::string_view() : name);\n    name = prefix;\n  }\n  return name;",
 P + 'int main() { Rec r; PrefixWriter w("a.a", &r); w.RenderInt32("", 1); EQ(r.s, "{ {a ia=1 } } ");' + END,
 "a body path with the same field name twice in a row", "the inner object is written without its name", srcs=PWC)
seed("c20-float", "C20", "conv", PWC, "  writer_->RenderFloat(name, value);", "  writer_->RenderFloat(name, root ? value : static_cast<int32_t>(value));",
 P + 'int main() { Rec r; PrefixWriter w("a", &r); w.StartList("")->RenderFloat("", 1.5f)->EndList(); EQ(r.s, "{ [a f=1.500000 ] } ");' + END,
 "a float inside an object or list of the body", "the fraction is cut off", srcs=PWC)
# ---- C21
W = '#include "grpc_transcoding/request_weaver.h"\n#include "grpc_transcoding/status_error_listener.h"\nusing namespace google::grpc::transcoding;\ntypedef RequestWeaver::BindingInfo B;\nstatic Fields F;\nstatic B bind(const char* p, const char* v) { B b; b.field_path = F.path(p); b.value = v; return b; }\n'
WSRC = "src/request_weaver.cc src/status_error_listener.cc"
seed("c21-erase-skip", "C21", "conv", RWC, "      it = current_.top()->bindings.erase(it);\n      continue;\n    }\n    ++it;", "      it = current_.top()->bindings.erase(it);\n    }\n    if (it != current_.top()->bindings.end()) {\n      ++it;\n    }",
 W + 'int main() { Rec r; StatusErrorListener l; RequestWeaver w({bind("r", "1"), bind("r", "2")}, &r, &l, false); w.StartObject("")->RenderString("r", "0")->RenderString("x", "y")->EndObject(); EQ(r.s, "{ sr=1 sr=2 sr=0 sx=y } "); Rec q; RequestWeaver v({bind("x", "1"), bind("x", "2")}, &q, &l, false); v.StartObject("")->RenderString("x", "0")->EndObject(); EQ(q.s, "{ sx=0 } ");' + END,
 "two bindings of one field that the body also sets", "the second binding is passed over when the body's value arrives", srcs=WSRC)
seed("c21-sub-empty", "C21", "conv", RWC, "    if (!msg.second.bindings.empty() || !msg.second.messages.empty()) {", "    if (!msg.second.bindings.empty()) {",
 W + 'int main() { Rec r; StatusErrorListener l; RequestWeaver w({bind("abx", "1")}, &r, &l, false); w.StartObject("")->EndObject(); EQ(r.s, "{ {a {b sx=1 } } } ");' + END,
 "a binding at least three fields deep, none directly in the message between", "the binding is dropped", srcs=WSRC)
seed("c21-last-msg", "C21", "conv", RWC, "  for (auto& msg : messages) {\n    if (field_name == msg.first->name()) {\n      return &msg.second;\n    }\n  }\n  return nullptr;", "  if (!messages.empty() && field_name == messages.back().first->name()) {\n    return &messages.back().second;\n  }\n  for (auto& msg : messages) {\n    if (field_name == msg.first->name()) {\n      return msg.second.bindings.empty() ? nullptr : &msg.second;\n    }\n  }\n  return nullptr;",
 W + 'int main() { Rec r; StatusErrorListener l; RequestWeaver w({bind("aby", "1"), bind("bx", "2")}, &r, &l, false); w.StartObject("")->StartObject("a")->RenderString("x", "3")->EndObject()->EndObject(); EQ(r.s, "{ {a sx=3 {b sy=1 } } {b sx=2 } } ");' + END,
 "bindings into two messages, the first of which has only deeper bindings, and a body object for it", "the existing object is not reused; the binding is written into a second one", srcs=WSRC)
seed("c21-first-path", "C21", "conv", RWC, "  for (size_t i = 0; i + 1 < field_path.size(); ++i) {\n    current = current->FindOrCreateWeaveMsg(field_path[i]);\n  }", "  for (size_t i = 0; i + 1 < field_path.size(); ++i) {\n    WeaveInfo* found = root_.FindWeaveMsg(field_path[i]->name());\n    current = found != nullptr && i > 1\n                  ? found\n                  : current->FindOrCreateWeaveMsg(field_path[i]);\n  }",
 W + 'int main() { Rec r; StatusErrorListener l; RequestWeaver w({bind("ax", "1"), bind("abax", "2")}, &r, &l, false); w.StartObject("")->EndObject(); EQ(r.s, "{ {a sx=1 {b {a sx=2 } } } } ");' + END,
 "a field path of four fields whose third repeats the name of a top-level message that has a binding", "the binding is written into the top-level message", srcs=WSRC)
# ---- C22
HK = ""
def c22(id, a, b, body, needs, breaks): seed(id, "C22", "conv", RWC, a, b, W + 'int main() { Rec r; { StatusErrorListener l; ' + body + ' }' + END, needs, breaks, srcs=WSRC)
c22("c22-uint32", "      absl::StatusOr<uint32_t> status = value_in_binding.ToUint32();", "      absl::StatusOr<int32_t> status = value_in_binding.ToInt32();", 'RequestWeaver w({bind("x", "4294967295")}, &r, &l, true); w.StartObject("")->RenderUint32("x", 4294967295u)->EndObject(); EXPECT(l.status().ok());', "a uint32 value of 2^31 or more that is the same in body and binding", "an equal value is reported as a conflict")
c22("c22-bytes", "      absl::StatusOr<std::string> status = value_in_binding.ToString();\n      if (!status.ok()) {\n        return bindingFailureStatus(field_name, \"string\", value_in_binding);\n      }\n      if (status.value() != value_in_body.ToString().value()) {", "      absl::StatusOr<std::string> status = value_in_binding.ToString();\n      if (!status.ok()) {\n        return bindingFailureStatus(field_name, \"string\", value_in_binding);\n      }\n      if (strcmp(status.value().c_str(),\n                 value_in_body.ToString().value().c_str()) != 0) {", 'RequestWeaver w({bind("x", "a")}, &r, &l, true); w.StartObject("")->RenderString("x", std::string("a\\0b", 3))->EndObject(); EXPECT(!l.status().ok());', "string values that differ only after an embedded NUL", "the conflict is not reported")
c22("c22-bool", "      if (status.value() != value_in_body.ToBool().value()) {", "      if (status.value() && !value_in_body.ToBool().value()) {", 'RequestWeaver w({bind("x", "false")}, &r, &l, true); w.StartObject("")->RenderBool("x", true)->EndObject(); EXPECT(!l.status().ok());', "the body says true and the binding false", "the conflict is not reported")
c22("c22-second", "        absl::Status compare_status =\n            isEqual(name, value_in_body, value_in_binding);\n        if (!compare_status.ok()) {\n          error_listener_->set_status(compare_status);\n        }", "        absl::Status compare_status =\n            isEqual(name, value_in_body, value_in_binding);\n        error_listener_->set_status(compare_status);", 'RequestWeaver w({bind("x", "1"), bind("y", "2")}, &r, &l, true); w.StartObject("")->RenderString("x", "0")->RenderString("y", "2")->EndObject(); EXPECT(!l.status().ok());', "a conflict followed by a bound field whose values are equal", "the conflict reported before is overwritten with success")
# ---- C23
S = '#include "grpc_transcoding/request_stream_translator.h"\nusing namespace google::grpc::transcoding;\n'
SSRC = MSGS + " src/request_stream_translator.cc"
SB = 'static std::string all(RequestStreamTranslator& t) { std::string o, m; while (t.NextMessage(&m)) o += m + "|"; return o; }\nint main() { NoTypes types; pb::Type type; static Fields F; RequestInfo info; info.message_type = &type; '
seed("c23-first-only", "C23", "conv", RST, "  request_info.variable_bindings.swap(request_info_.variable_bindings);", "  if (messages_.empty()) {\n    request_info.variable_bindings = request_info_.variable_bindings;\n  }",
 S + SB + 'RequestWeaver::BindingInfo b; b.field_path = F.path("x"); b.value = "1"; info.variable_bindings = {b}; RequestStreamTranslator t(types, false, info); pbc::ObjectWriter& w = t; w.StartList("")->StartObject("")->EndObject(); std::string m; EXPECT(t.NextMessage(&m) && m.find("x") != std::string::npos); w.StartObject("")->EndObject(); EXPECT(t.NextMessage(&m) && m.find("x") == std::string::npos);' + END,
 "a streamed request whose first message is taken before the second element arrives", "the bindings are applied to later elements too", srcs=SSRC)
seed("c23-depth-err", "C23", "conv", RST, "  --depth_;\n  if (depth_ < 1) {\n    status_ =", "  --depth_;\n  if (depth_ == 0) {\n    // The array has ended.\n    done_ = true;\n    return this;\n  }\n  if (depth_ < 1) {\n    status_ =",
 S + SB + 'RequestStreamTranslator t(types, false, info); pbc::ObjectWriter& w = t; w.StartList("")->EndObject(); EXPECT(!t.Status().ok()); EXPECT(t.Status().code() == absl::StatusCode::kInvalidArgument);' + END,
 "an object end where the outermost array would have to end", "the mismatched end is accepted", srcs=SSRC)
seed("c23-null-elem", "C23", "conv", RST, "  RenderData(name, [this, name]() { translator_->Input().RenderNull(name); });", "  if (depth_ == 1 && !request_info_.body_field_path.empty()) {\n    // Nothing to set: a message without its body field.\n    RenderData(name, [this]() { translator_->Input().StartObject(\"\")->EndObject(); });\n    return this;\n  }\n  RenderData(name, [this, name]() { translator_->Input().RenderNull(name); });",
 S + SB + 'info.body_field_path = "a"; RequestStreamTranslator t(types, false, info); pbc::ObjectWriter& w = t; w.StartList("")->RenderNull("")->EndList(); EQ(all(t), "{=;na=;}=;|");' + END,
 "a null element of a streamed request with a body path", "the element is translated to an object instead of null", srcs=SSRC)
# ---- C24
JT = '#include "grpc_transcoding/json_request_translator.h"\nusing namespace google::grpc::transcoding;\nstatic std::string gParsed; static int gFinish;\nnamespace google { namespace protobuf { namespace util { namespace converter {\nabsl::Status JsonStreamParser::Parse(absl::string_view j) { gParsed += std::string(j); for (char c : j) { if (c == \'!\') return absl::InvalidArgumentError("syntax"); if (c == \'{\') ow_->StartObject(""); if (c == \'}\') ow_->EndObject(); if (c == \'[\') ow_->StartList(""); if (c == \']\') ow_->EndList(); } return absl::OkStatus(); }\nabsl::Status JsonStreamParser::FinishParse() { gFinish++; return gParsed.find(\'?\') != std::string::npos ? absl::InvalidArgumentError("end") : absl::OkStatus(); }\n}}}}\nstruct In : pb::io::ZeroCopyInputStream { std::vector<std::string> q; size_t i = 0; bool fin = true; int reads = 0; bool Next(const void** d, int* n) override { reads++; if (i == q.size()) { *n = 0; return !fin; } *d = q[i].data(); *n = (int)q[i].size(); i++; return true; } void BackUp(int) override {} bool Skip(int) override { return false; } int64_t ByteCount() const override { return 0; } };\nint main() { NoTypes types; pb::Type type; RequestInfo info; info.message_type = &type; In in; '
JSR = MSGS + " src/request_stream_translator.cc src/json_request_translator.cc"
seed("c24-seen-poll", "C24", "conv", JRT, "    seen_input_ = true;\n", "", JT + 'in.fin = false; JsonRequestTranslator t(&types, &in, info, false, false); std::string m; EXPECT(!t.Output().NextMessage(&m)); in.fin = true; EXPECT(t.Output().NextMessage(&m)); EQ(gParsed, "{}");' + END,
 "a poll before any input has arrived, and then completely empty input", "empty input is not treated as '{}' any more", srcs=JSR,
 edits=[(JRT, "    seen_input_ = true;\n", ""), (JRT, "    } else if (0 == size) {", "    }\n    seen_input_ = true;\n    if (0 == size) {")])
seed("c24-finish-status", "C24", "conv", JRT, "      CheckParsingStatus(json_parser_->FinishParse());\n      return false;", "      json_parser_->FinishParse().IgnoreError();\n      return false;", JT + 'in.q = {"?"}; JsonRequestTranslator t(&types, &in, info, false, false); std::string m; EXPECT(!t.Output().NextMessage(&m)); EXPECT(!t.Output().Status().ok());' + END,
 "input that ends before the JSON text is complete", "the parse error at the end is lost", srcs=JSR)
seed("c24-eager", "C24", "conv", JRT, "    while (!translated_->NextMessage(message)) {\n      if (!TranslateChunk()) {\n        // Error or no more input to translate.\n        return false;\n      }\n    }\n    return true;", "    while (!translated_->NextMessage(message)) {\n      if (!TranslateChunk()) {\n        // Error or no more input to translate.\n        return false;\n      }\n    }\n    // Keep the parser one chunk ahead of the caller.\n    if (!translated_->Finished()) TranslateChunk();\n    return true;", JT + 'in.q = {"[{}", ",{}", "]"}; JsonRequestTranslator t(&types, &in, info, true, false); std::string m; EXPECT(t.Output().NextMessage(&m)); EQ(gParsed, "[{}");' + END,
 "a streamed request with more chunks pending than needed for the next message", "chunks are read ahead although a message is available", srcs=JSR)
seed("c24-status-order", "C24", "conv", JRT, "    // Check the translation status\n    status_ = translated_->Status();\n", "    // Check the translation status\n    if (seen_input_ && translated_->Finished()) return true;\n    status_ = translated_->Status();\n", JT + 'in.q = {"]"}; JsonRequestTranslator t(&types, &in, info, true, false); std::string m; EXPECT(!t.Output().NextMessage(&m)); EXPECT(!t.Output().Status().ok());' + END,
 "a translation error that also ends the translated stream", "the error is not reported", srcs=JSR)
# ---- C25 / C26
TI = '#include "grpc_transcoding/type_helper.h"\nusing namespace google::grpc::transcoding;\nstatic pb::Type gT[2];\nstruct Info : pbc::TypeInfo {\n  absl::StatusOr<const pb::Type*> ResolveTypeUrl(absl::string_view u) const override { return GetTypeByTypeUrl(u); }\n  const pb::Type* GetTypeByTypeUrl(absl::string_view u) const override { return u == "u1" ? &gT[1] : nullptr; }\n  const pb::Enum* GetEnumByTypeUrl(absl::string_view) const override { return nullptr; }\n  const pb::Field* FindField(const pb::Type* t, absl::string_view n) const override { for (auto& f : t->fields()) if (f.name() == n) return &f; return nullptr; }\n};\nnamespace google { namespace protobuf { namespace util { namespace converter { TypeInfo* TypeInfo::NewTypeInfo(TypeResolver*) { return new Info; } } } } }\nstatic pb::Field field(const char* n, pb::Field::Kind k, const char* u = "") { pb::Field f; f.set_name(n); f.set_kind(k); f.set_type_url(u); return f; }\nint main() { gT[0].set_name("T"); *gT[0].mutable_fields() = {field("m", pb::Field::TYPE_MESSAGE, "u1"), field("s", pb::Field::TYPE_STRING, "u1"), field("g", pb::Field::TYPE_GROUP, "u1"), field("%6d", pb::Field::TYPE_INT32), field("lost", pb::Field::TYPE_MESSAGE, "u2")}; gT[1].set_name("U"); *gT[1].mutable_fields() = {field("x", pb::Field::TYPE_INT32)}; std::vector<pb::Type> types(1); types[0].set_name("pkg.T"); std::vector<pb::Enum> enums(1); enums[0].set_name("pkg.E"); TypeHelper h(types, enums); std::vector<const pb::Field*> out; '
seed("c25-group", "C25", "conv", THC, "      if (google::protobuf::Field::TYPE_MESSAGE != field->kind()) {", "      if (google::protobuf::Field::TYPE_MESSAGE != field->kind() &&\n          field->type_url().empty()) {", TI + 'EXPECT(!h.ResolveFieldPath(gT[0], std::string("s.x"), &out).ok()); EXPECT(h.ResolveFieldPath(gT[0], std::string("m.x"), &out).ok());' + END,
 "a path through a field that is not a message but carries a type URL (an enum, say)", "the path resolves instead of being rejected", srcs=THC)
seed("c25-unescape-first", "C25", "conv", THC, None, None, TI + 'EXPECT(h.ResolveFieldPath(gT[0], std::string("%6d"), &out).ok()); EXPECT(out.size() == 1 && out[0] == &gT[0].fields(3));' + END,
 "a field name that is itself a percent escape, beside the field it decodes to", "the decoded field is found instead of the field as written", srcs=THC,
 edits=[(THC, "  auto* field = Info()->FindField(type, name);\n  if (field != nullptr) {\n    return field;\n  }\n  // The name may be UrlEscaped, try to un-escape it and lookup.\n  absl::string_view name_view(name.data(), name.size());\n  if (IsUrlEscapedString(name_view)) {\n    field = Info()->FindField(type, UrlUnescapeString(name_view));\n  }\n  return field;", "  // The name may be UrlEscaped, try to un-escape it and lookup.\n  absl::string_view name_view(name.data(), name.size());\n  if (IsUrlEscapedString(name_view)) {\n    auto* field = Info()->FindField(type, UrlUnescapeString(name_view));\n    if (field != nullptr) {\n      return field;\n    }\n  }\n  return Info()->FindField(type, name);")])
seed("c25-partial-out", "C25", "conv", THC, None, None, TI + 'out = {nullptr, nullptr}; EXPECT(!h.ResolveFieldPath(gT[0], std::string("m.nope"), &out).ok()); EXPECT(out.size() == 2 && !out[0] && !out[1]); EXPECT(!h.ResolveFieldPath(gT[0], std::string("nope"), &out).ok()); EXPECT(out.size() == 2);' + END,
 "a path whose later field does not exist, resolved into an output in use", "a failed resolution overwrites the output", srcs=THC,
 edits=[(THC, "  std::vector<const google::protobuf::Field*> field_path;\n\n  for", "  std::vector<const google::protobuf::Field*>& field_path = *field_path_out;\n  if (!field_names.empty() && FindField(&type, field_names[0]) == nullptr) {\n    return absl::Status(absl::StatusCode::kInvalidArgument,\n                        \"Could not find field \\\"\" + field_names[0] +\n                            \"\\\" in the type \\\"\" + type.name() + \"\\\".\");\n  }\n  field_path.clear();\n\n  for"), (THC, "  *field_path_out = std::move(field_path);\n", "")])
seed("c25-url", "C25", "conv", THC, "    auto i = type_map_.find(type_url);\n", "    auto i = type_map_.find(url_prefix_ +\n                            type_url.substr(type_url.find_last_of('/') + 1));\n", TI + 'pb::Type t; EXPECT(h.Resolver()->ResolveMessageType("type.googleapis.com/pkg.T", &t).ok() && t.name() == "pkg.T"); EXPECT(!h.Resolver()->ResolveMessageType("pkg.T", &t).ok()); EXPECT(!h.Resolver()->ResolveMessageType("example.com/pkg.T", &t).ok());' + END,
 "a type URL with another prefix than that of the supplied types", "types are found under URLs they were not supplied for", srcs=THC)
TM = TI.replace("for (auto& f : t->fields())", "Use use; for (auto& f : t->fields())").replace("GetEnumByTypeUrl(absl::string_view) const override {", "GetEnumByTypeUrl(absl::string_view) const override { Use use;").replace("struct Info : pbc::TypeInfo {", "#include <thread>\n#include <atomic>\n#include <unistd.h>\nstatic std::atomic<int> gInside, gOverlap;\nstruct Use { Use() { if (gInside++) gOverlap++; usleep(50); } ~Use() { gInside--; } };\nstruct Info : pbc::TypeInfo {")
seed("c26-reader", "C26", "conv", THC, "    absl::MutexLock lock(&mutex_);\n    return type_info_->FindField(type, camel_case_name);", "    absl::ReaderMutexLock lock(&mutex_);\n    return type_info_->FindField(type, camel_case_name);",
 TM + 'auto run = [&] { for (int i = 0; i < 300; i++) { std::vector<const pb::Field*> o; (void)h.ResolveFieldPath(gT[0], std::string("m.x"), &o); } }; std::thread a(run), b(run); a.join(); b.join(); EXPECT(gOverlap == 0);' + END,
 "two threads resolving field paths at the same time", "the cache is used under a shared lock only, a data race", srcs=THC)
seed("c26-bypass", "C26", "conv", THC, "    absl::MutexLock lock(&mutex_);\n    return type_info_->GetEnumByTypeUrl(type_url);", "    {\n      absl::MutexLock lock(&mutex_);\n      if (type_info_ == nullptr) return nullptr;\n    }\n    return ABSL_TS_UNCHECKED_READ(type_info_)->GetEnumByTypeUrl(type_url);",
 TM + 'auto run = [&] { for (int i = 0; i < 300; i++) h.Info()->GetEnumByTypeUrl("x"); }; std::thread a(run), b(run); a.join(); b.join(); EXPECT(gOverlap == 0);' + END,
 "two threads querying enums at the same time", "the lock is released before the cache is used, a data race", srcs=THC)
# ---- C27
# ---- C29
R29 = '#include "grpc_transcoding/request_message_translator.h"\nusing namespace google::grpc::transcoding;\n' + RM
seed("c29-weave-order", "C29", "conv", RMT, None, None, R29 + 'static Fields F; RequestWeaver::BindingInfo b; b.field_path = F.path("x"); b.value = "1"; info.variable_bindings = {b}; info.body_field_path = "a"; RequestMessageTranslator t(types, false, info); t.Input().StartObject("")->RenderString("y", "2")->EndObject(); std::string m; EXPECT(t.NextMessage(&m)); EQ(m, "{=;{a=;sy=2;}=;sx=1;}=;");' + END,
 "a request with both a body path and variable bindings", "the bindings are woven relative to the body instead of the request message", srcs=MSGS,
 edits=[(RMT, "  // Create a RequestWeaver if we have variable bindings to weave\n  if (!request_info.variable_bindings.empty()) {\n    request_weaver_.reset(new RequestWeaver(\n        std::move(request_info.variable_bindings), writer_pipeline_,\n        &error_listener_, request_info.reject_binding_body_field_collisions));\n    writer_pipeline_ = request_weaver_.get();\n  }\n\n", ""), (RMT, "    writer_pipeline_ = prefix_writer_.get();\n  }\n", "    writer_pipeline_ = prefix_writer_.get();\n  }\n\n  // Create a RequestWeaver if we have variable bindings to weave\n  if (!request_info.variable_bindings.empty()) {\n    request_weaver_.reset(new RequestWeaver(\n        std::move(request_info.variable_bindings), writer_pipeline_,\n        &error_listener_, request_info.reject_binding_body_field_collisions));\n    writer_pipeline_ = request_weaver_.get();\n  }\n")])
seed("c29-enum-opt", "C29", "conv", RMT, "  options.case_insensitive_enum_parsing = case_insensitive_enum_parsing;", "  options.case_insensitive_enum_parsing =\n      options.ignore_unknown_enum_values || case_insensitive_enum_parsing;\n  options.ignore_unknown_fields = !options.case_insensitive_enum_parsing;", R29 + 'info.case_insensitive_enum_parsing = true; RequestMessageTranslator t(types, false, info); t.Input().StartObject("")->EndObject(); EXPECT(pbc::ProtoStreamObjectWriter::logs().size() == 1 && pbc::ProtoStreamObjectWriter::logs()[0].options.ignore_unknown_fields);' + END,
 "a request with case-insensitive enums and an unknown field", "unknown fields are rejected", srcs=MSGS)
seed("c29-prefix-star", "C29", "conv", RMT, "  if (!request_info.body_field_path.empty() &&\n      \"*\" != request_info.body_field_path) {", "  if (!request_info.body_field_path.empty() &&\n      (\"*\" != request_info.body_field_path || request_weaver_ != nullptr)) {", R29 + 'static Fields F; RequestWeaver::BindingInfo b; b.field_path = F.path("x"); b.value = "1"; info.variable_bindings = {b}; info.body_field_path = "*"; RequestMessageTranslator t(types, false, info); t.Input().StartObject("")->RenderString("y", "2")->EndObject(); std::string m; EXPECT(t.NextMessage(&m)); EQ(m, "{=;sy=2;sx=1;}=;");' + END,
 "the body path '*' together with variable bindings", "the body is nested under a field called '*'", srcs=MSGS)
seed("c29-last-error", "C29", "conv", SEL, "                   loc.ToString() + \": invalid value \" + std::string(value) +", "                   loc.ToString() + \": invalid value \" +\n                       std::string(value.data()) +", R29 + 'RequestMessageTranslator t(types, false, info); std::string v = "valuetail"; t.Input().StartObject("")->RenderString("bad", absl::string_view(v.data(), 5)); EXPECT(t.Status().message().find("valuetail") == std::string::npos);' + END,
 "an invalid value that is not NUL-terminated", "bytes beyond the value end up in the message", srcs=MSGS)
