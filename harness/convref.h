// Events of an ObjectWriter, a recorder, and a player
#pragma once
#include "common.h"
#include "google/protobuf/util/converter/datapiece.h"
#include "google/protobuf/util/converter/object_writer.h"
namespace pbc = google::protobuf::util::converter;
// kind: '{' '}' '[' ']' and the scalar kinds b i u I U d f s y n
struct Ev { char kind; std::string name; uint64_t num = 0; std::string str; };
static inline bool isScalar(char k) { return k != '{' && k != '}' && k != '[' && k != ']'; }
static inline bool evEq(const Ev& a, const Ev& b) { if (a.kind != b.kind) return false; return strEq(a.name, b.name) & (a.num == b.num) & strEq(a.str, b.str); }
static inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dblOf(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline float fltOf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
struct Recorder : pbc::ObjectWriter {
  std::vector<Ev> ev;
  Recorder* add(char k, absl::string_view n, uint64_t v, absl::string_view s) { Ev e; e.kind = k; e.name.assign(n.data() ? n.data() : "", n.size()); e.num = v; e.str.assign(s.data() ? s.data() : "", s.size()); ev.push_back(e); return this; }
  Recorder* StartObject(absl::string_view n) override { return add('{', n, 0, ""); }
  Recorder* EndObject() override { return add('}', "", 0, ""); }
  Recorder* StartList(absl::string_view n) override { return add('[', n, 0, ""); }
  Recorder* EndList() override { return add(']', "", 0, ""); }
  Recorder* RenderBool(absl::string_view n, bool v) override { return add('b', n, v, ""); }
  Recorder* RenderInt32(absl::string_view n, int32_t v) override { return add('i', n, (uint64_t)(int64_t)v, ""); }
  Recorder* RenderUint32(absl::string_view n, uint32_t v) override { return add('u', n, v, ""); }
  Recorder* RenderInt64(absl::string_view n, int64_t v) override { return add('I', n, (uint64_t)v, ""); }
  Recorder* RenderUint64(absl::string_view n, uint64_t v) override { return add('U', n, v, ""); }
  Recorder* RenderDouble(absl::string_view n, double v) override { return add('d', n, bitsOf(v), ""); }
  Recorder* RenderFloat(absl::string_view n, float v) override { uint32_t u; memcpy(&u, &v, 4); return add('f', n, u, ""); }
  Recorder* RenderString(absl::string_view n, absl::string_view v) override { return add('s', n, 0, v); }
  Recorder* RenderBytes(absl::string_view n, absl::string_view v) override { return add('y', n, 0, v); }
  Recorder* RenderNull(absl::string_view n) override { return add('n', n, 0, ""); }
};
static inline pbc::ObjectWriter* play(pbc::ObjectWriter* w, const Ev& e) {
  switch (e.kind) {
    case '{': return w->StartObject(e.name); case '}': return w->EndObject(); case '[': return w->StartList(e.name); case ']': return w->EndList();
    case 'b': return w->RenderBool(e.name, e.num != 0); case 'i': return w->RenderInt32(e.name, (int32_t)e.num); case 'u': return w->RenderUint32(e.name, (uint32_t)e.num);
    case 'I': return w->RenderInt64(e.name, (int64_t)e.num); case 'U': return w->RenderUint64(e.name, e.num); case 'd': return w->RenderDouble(e.name, dblOf(e.num));
    case 'f': return w->RenderFloat(e.name, fltOf((uint32_t)e.num)); case 's': return w->RenderString(e.name, e.str); case 'y': return w->RenderBytes(e.name, e.str); default: return w->RenderNull(e.name);
  }
}
// a scalar event of the given kind with a value covering the type's full range
static inline Ev symScalar(char k, const std::string& name) {
  Ev e; e.kind = k; e.name = name;
  if (k == 'b') e.num = symx_int("bool", 1); else if (k == 'i') e.num = (uint64_t)(int64_t)(int32_t)symx_int("int32", 32); else if (k == 'u' || k == 'f') e.num = symx_int("u32", 32);
  else if (k == 'I' || k == 'U' || k == 'd') e.num = symx_int("u64", 64); else if (k == 's' || k == 'y') e.str = symStr(1, "str");
  return e;
}
static inline void obsEv(const Ev& e) { symx_obs("kind", e.kind); obsStr("name", e.name); symx_obs("num", e.num); obsStr("str", e.str); }
