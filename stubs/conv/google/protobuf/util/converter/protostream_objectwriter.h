// Stand-in for the converter library's ProtoStreamObjectWriter: writes a plain transcript of the events it receives.
#pragma once
#include <vector>
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/util/converter/datapiece.h"
#include "google/protobuf/util/converter/error_listener.h"
#include "google/protobuf/util/type_resolver.h"
namespace google { namespace protobuf { namespace util { namespace converter {
class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options {
    bool struct_integers_as_strings = false, ignore_unknown_fields = false, ignore_unknown_enum_values = false, use_lower_camel_for_enums = false, case_insensitive_enum_parsing = false, ignore_null_value_map_entry = false, use_json_name_in_missing_fields = false, use_legacy_json_map_format = false, suppress_implicit_message_list_error = false, suppress_implicit_scalar_message_error = false;
    static const Options& Defaults() { static const Options d; return d; }
  };
  struct Log { Options options; const protobuf::Type* type; ProtoStreamObjectWriter* writer; bool strict; };   // one per writer that received events
  static std::vector<Log>& logs() { static std::vector<Log> l; return l; }
  typedef void (*EmitFn)(strings::ByteSink* out, const std::string& text);   // how the finished message is written
  static EmitFn& emit() { static EmitFn f = nullptr; return f; }
  ProtoStreamObjectWriter(TypeResolver* r, const protobuf::Type& type, strings::ByteSink* out, ErrorListener* l, const Options& o = Options::Defaults()) : type_(&type), out_(out), listener_(l), options_(o) {}
  ProtoStreamObjectWriter* StartObject(absl::string_view name) override { start(); if (!ok_) return this; put('{', name, ""); depth_++; return this; }
  ProtoStreamObjectWriter* EndObject() override { start(); if (!ok_) return this; put('}', "", ""); end(); return this; }
  ProtoStreamObjectWriter* StartList(absl::string_view name) override { start(); root(); if (!ok_) return this; put('[', name, ""); depth_++; return this; }
  ProtoStreamObjectWriter* EndList() override { start(); if (!ok_) return this; put(']', "", ""); end(); return this; }
  ProtoStreamObjectWriter* RenderBool(absl::string_view n, bool v) override { return num('b', n, v); }
  ProtoStreamObjectWriter* RenderInt32(absl::string_view n, int32_t v) override { return num('i', n, (uint64_t)(int64_t)v); }
  ProtoStreamObjectWriter* RenderUint32(absl::string_view n, uint32_t v) override { return num('u', n, v); }
  ProtoStreamObjectWriter* RenderInt64(absl::string_view n, int64_t v) override { return num('I', n, (uint64_t)v); }
  ProtoStreamObjectWriter* RenderUint64(absl::string_view n, uint64_t v) override { return num('U', n, v); }
  ProtoStreamObjectWriter* RenderDouble(absl::string_view n, double v) override { uint64_t u; __builtin_memcpy(&u, &v, 8); return num('d', n, u); }
  ProtoStreamObjectWriter* RenderFloat(absl::string_view n, float v) override { uint32_t u; __builtin_memcpy(&u, &v, 4); return num('f', n, u); }
  ProtoStreamObjectWriter* RenderString(absl::string_view n, absl::string_view v) override { return val('s', n, v); }
  ProtoStreamObjectWriter* RenderBytes(absl::string_view n, absl::string_view v) override { return val('y', n, v); }
  ProtoStreamObjectWriter* RenderNull(absl::string_view n) override { return val('n', n, ""); }
  bool done() override { return done_; }
  static void encode(std::string* o, char k, absl::string_view name, absl::string_view v) { *o += k; o->append(name.data(), name.size()); *o += '='; o->append(v.data(), v.size()); *o += ';'; }
  static std::string numText(uint64_t v) { std::string s; for (int i = 0; i < 8; i++) s += (char)(v >> (8 * i)); return s; }
 private:
  struct Loc : LocationTrackerInterface { std::string ToString() const override { return "loc"; } };
  void start() { if (!started_) { started_ = true; logs().push_back({options_, type_, this, use_strict_base64_decoding()}); } }
  void root() { if (depth_ == 0) { ok_ = false; listener_->InvalidValue(Loc(), "Message", "root"); } }   // the root must be an object
  void put(char k, absl::string_view name, absl::string_view v) { encode(&text_, k, name, v); }
  void end() { if (--depth_ == 0) { if (emit()) emit()(out_, text_); else out_->Append(text_.data(), text_.size()); done_ = true; } }
  ProtoStreamObjectWriter* num(char k, absl::string_view n, uint64_t v) { return val(k, n, numText(v)); }
  ProtoStreamObjectWriter* val(char k, absl::string_view n, absl::string_view v) {
    start(); root(); if (!ok_) return this;
    if (n == "bad") { listener_->InvalidValue(Loc(), "T", v); return this; }
    if (n == "missing") { listener_->MissingField(Loc(), n); return this; }
    put(k, n, v); return this;
  }
  const protobuf::Type* type_; strings::ByteSink* out_; ErrorListener* listener_; Options options_; std::string text_; int depth_ = 0; bool done_ = false, started_ = false, ok_ = true;
};
}}}}
