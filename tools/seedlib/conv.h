#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <math.h>
#include <functional>
#include "google/protobuf/util/converter/datapiece.h"
#include "google/protobuf/util/converter/object_writer.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
namespace pb = google::protobuf; namespace pbc = google::protobuf::util::converter;
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { failures++; printf("%s:%d: %s\n", __FILE__, __LINE__, #c); } } while (0)
static void expectEq(const std::string& got, const std::string& want, int line) { if (got != want) { failures++; printf("line %d: got '%s' want '%s'\n", line, got.c_str(), want.c_str()); } }
#define EQ(a, b) expectEq(a, b, __LINE__)
namespace google { namespace protobuf { namespace util { namespace converter {
bool ConvHook::integer(absl::string_view t, bool* neg, uint64_t* mag) { std::string s(t); if (s.empty()) return false; *neg = s[0] == '-'; char* e; *mag = strtoull(s.c_str() + *neg, &e, 10); return !*e && e != s.c_str() + *neg; }
bool ConvHook::real(absl::string_view t, double* v) { std::string s(t); char* e; *v = strtod(s.c_str(), &e); return !*e && !s.empty(); }
bool ConvHook::boolean(absl::string_view t, bool* v) { *v = t == "true"; return t == "true" || t == "false"; }
}}}}
struct Rec : pbc::ObjectWriter {
  std::string s;
  Rec* ev(char k, absl::string_view n, const std::string& v) { s += k; s += std::string(n); if (v.size()) s += "=" + v; s += ' '; return this; }
  Rec* StartObject(absl::string_view n) override { return ev('{', n, ""); }
  Rec* EndObject() override { return ev('}', "", ""); }
  Rec* StartList(absl::string_view n) override { return ev('[', n, ""); }
  Rec* EndList() override { return ev(']', "", ""); }
  Rec* RenderBool(absl::string_view n, bool v) override { return ev('b', n, v ? "true" : "false"); }
  Rec* RenderInt32(absl::string_view n, int32_t v) override { return ev('i', n, std::to_string(v)); }
  Rec* RenderUint32(absl::string_view n, uint32_t v) override { return ev('u', n, std::to_string(v)); }
  Rec* RenderInt64(absl::string_view n, int64_t v) override { return ev('I', n, std::to_string(v)); }
  Rec* RenderUint64(absl::string_view n, uint64_t v) override { return ev('U', n, std::to_string(v)); }
  Rec* RenderDouble(absl::string_view n, double v) override { return ev('d', n, std::to_string(v)); }
  Rec* RenderFloat(absl::string_view n, float v) override { return ev('f', n, std::to_string(v)); }
  Rec* RenderString(absl::string_view n, absl::string_view v) override { return ev('s', n, std::string(v)); }
  Rec* RenderBytes(absl::string_view n, absl::string_view v) override { return ev('y', n, std::string(v)); }
  Rec* RenderNull(absl::string_view n) override { return ev('n', n, ""); }
};
struct NoTypes : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::NotFoundError("none"); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::NotFoundError("none"); }
};
struct Fields { pb::Field f[5]; Fields() { const char* n[] = {"a", "b", "x", "y", "r"}; for (int i = 0; i < 5; i++) { f[i].set_name(n[i]); f[i].set_cardinality(i == 4 ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL); } }
  std::vector<const pb::Field*> path(const char* p) { std::vector<const pb::Field*> v; for (; *p; p++) v.push_back(&f[*p == 'a' ? 0 : *p == 'b' ? 1 : *p == 'x' ? 2 : *p == 'y' ? 3 : 4]); return v; } };
