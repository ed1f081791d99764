// C25: TypeHelper: type lookup and field path resolution
#include "pathref.h"
#include "google/protobuf/util/converter/type_info.h"
#include "grpc_transcoding/type_helper.h"
using namespace google::grpc::transcoding; using pref::decode;
namespace pb = google::protobuf; namespace pbc = google::protobuf::util::converter;
static const std::string kPrefix = "type.googleapis.com/";
// the library's type cache: asks the resolver for types, finds fields by name
struct Cache : pbc::TypeInfo {
  pb::util::TypeResolver* r; mutable std::vector<std::pair<std::string, std::unique_ptr<pb::Type>>> types; mutable std::vector<std::pair<std::string, std::unique_ptr<pb::Enum>>> enums;
  absl::StatusOr<const pb::Type*> ResolveTypeUrl(absl::string_view u) const override { const pb::Type* t = GetTypeByTypeUrl(u); if (t) return t; return absl::Status(absl::StatusCode::kNotFound, "none"); }
  const pb::Type* GetTypeByTypeUrl(absl::string_view u) const override { std::string s(u.data(), u.size()); for (auto& e : types) if (strEq(e.first, s)) return e.second.get(); std::unique_ptr<pb::Type> t(new pb::Type); if (!r->ResolveMessageType(s, t.get()).ok()) return nullptr; types.emplace_back(s, std::move(t)); return types.back().second.get(); }
  const pb::Enum* GetEnumByTypeUrl(absl::string_view u) const override { std::string s(u.data(), u.size()); std::unique_ptr<pb::Enum> t(new pb::Enum); if (!r->ResolveEnumType(s, t.get()).ok()) return nullptr; enums.emplace_back(s, std::move(t)); return enums.back().second.get(); }
  const pb::Field* FindField(const pb::Type* t, absl::string_view n) const override { for (auto& f : t->fields()) if (f.name().size() == n.size() && memcmp(f.name().data(), n.data(), n.size()) == 0) return &f; return nullptr; }
};
namespace google { namespace protobuf { namespace util { namespace converter { TypeInfo* TypeInfo::NewTypeInfo(TypeResolver* r) { Cache* c = new Cache; c->r = r; return c; } }}}}
static pb::Field field(const std::string& n, pb::Field::Kind k, const std::string& url) { pb::Field f; f.set_name(n); f.set_kind(k); f.set_type_url(url); f.set_cardinality(pb::Field::CARDINALITY_OPTIONAL); return f; }
enum { NVEC = 4 };
static unsigned maxStr(int tier) { return tier ? 6 : 5; }
static unsigned baseJobs(int tier) { return 2 + NVEC * 2 + (maxStr(tier) + 1) * 2; }
static void baseMain(unsigned job) {
  int tier = symx_tier();
  // T{a: ? of type ?, b: string, %: message U, %62: message U}  U{a: message T, c: enum}  V is not supplied
  std::vector<pb::Type> types(2); std::vector<pb::Enum> enums(2); types[0].set_name("T"); types[1].set_name("pkg.U"); enums[0].set_name("E"); enums[1].set_name("T");
  unsigned shape = job % 2; std::string u = kPrefix + "T"; pb::Field::Kind kind = pb::Field::TYPE_MESSAGE;
  if (job < 2) {   // types and enums by URL
    TypeHelper h(types, enums); pb::util::TypeResolver* r = h.Resolver();
    size_t sel = symx_range("length", 0, 4); std::string url = sel == 0 ? symStr(symx_range("n", 0, 3), "url") : sel == 1 ? kPrefix + symStr(symx_range("n", 0, 2), "name") : sel == 2 ? kPrefix + "pkg" + symStr(2, "name") : sel == 3 ? "type.googleapis.com" + symStr(2, "name") : symStr(1, "p") + kPrefix.substr(1) + "T";
    bool isT = strEq(url, kPrefix + "T"), isU = strEq(url, kPrefix + "pkg.U"), isE = strEq(url, kPrefix + "E");
    pb::Type t; pb::Enum e; bool null = symx_range("null", 0, 1); t.set_name("keep"); e.set_name("keep");
    if (job == 0) { absl::Status s = r->ResolveMessageType(url, null ? nullptr : &t); symx_obs("ok", s.ok()); CHECK(s.ok() == (isT | isU), "a type is found, or not found, wrongly"); if (!s.ok()) CHECK(s.code() == absl::StatusCode::kNotFound, "status of an unknown type"); if (null) return; obsStr("t", t.name()); CHECK(t.name() == (isT ? "T" : isU ? "pkg.U" : "keep"), "another type is returned"); if (isT | isU) symx_cover("type"); }
    else { absl::Status s = r->ResolveEnumType(url, null ? nullptr : &e); symx_obs("ok", s.ok()); CHECK(s.ok() == (isE | isT), "an enum is found, or not found, wrongly"); if (!s.ok()) CHECK(s.code() == absl::StatusCode::kNotFound, "status of an unknown enum"); if (null) return; CHECK(e.name() == (isE ? "E" : isT ? "T" : "keep"), "another enum is returned"); if (isE) symx_cover("enum"); }
    return;
  }
  job -= 2; 
  // the kind of field a, or the type it refers to, is symbolic
  if (shape == 0) { kind = (pb::Field::Kind)symx_int("kind", 5); symx_assume(kind <= 18); u = kPrefix + "pkg.U"; } else u = kPrefix + symStr(1, "ref");
  *types[0].mutable_fields() = {field("a", kind, u), field("b", pb::Field::TYPE_STRING, ""), field("%", pb::Field::TYPE_MESSAGE, kPrefix + "pkg.U"), field("%62", pb::Field::TYPE_MESSAGE, kPrefix + "pkg.U")};
  *types[1].mutable_fields() = {field("a", pb::Field::TYPE_MESSAGE, kPrefix + "T"), field("c", pb::Field::TYPE_ENUM, kPrefix + "E"), field("x", pb::Field::TYPE_GROUP, kPrefix + "T"), field("n", pb::Field::TYPE_MESSAGE, kPrefix + "V")};
  std::unique_ptr<TypeHelper> h(new TypeHelper(types, enums));
  std::vector<std::string> names; std::string text; bool vec = job < NVEC * 2;
  if (vec) { unsigned n = job / 2; for (unsigned i = 0; i < n; i++) { size_t len = symx_range("len", 0, 3); if (len == 2 && i) symx_stop(); names.push_back(symStr(n > 2 && len == 3 ? 1 : len, "name")); if (n > 2 && len == 3 && !tier) symx_stop(); } }
  else { text = symStr((job - NVEC * 2) / 2, "path"); std::string cur; for (char c : text) { if (c == '.') { if (!cur.empty()) names.push_back(cur); cur = ""; } else cur += c; } if (!cur.empty()) names.push_back(cur); }
  static const pb::Field sentinel; std::vector<const pb::Field*> out(1, &sentinel);
  absl::Status s = vec ? h->ResolveFieldPath(types[0], names, &out) : h->ResolveFieldPath(types[0], text, &out);
  symx_obs("code", (uint64_t)s.code()); symx_obs("n", out.size());
  // reference: walk the schema by name
  std::vector<std::string> want; const pb::Type* t = &types[0]; bool ok = true;
  for (size_t i = 0; i < names.size() && ok; i++) {
    const pb::Field* f = nullptr; std::string d = decode(names[i], 2, false);
    for (int pass = 0; pass < 2 && !f; pass++) for (auto& x : t->fields()) if (strEq(x.name(), pass ? d : names[i])) { f = &x; break; }
    if (!f) { ok = false; break; }
    want.push_back(t->name() + "." + f->name());
    if (i + 1 == names.size()) break;
    if (f->kind() != pb::Field::TYPE_MESSAGE) { ok = false; symx_cover("not a message"); break; }
    const pb::Type* nt = nullptr; for (auto& x : types) if (strEq(f->type_url(), kPrefix + x.name())) nt = &x; if (!nt) { ok = false; symx_cover("unknown type"); break; } t = nt;
  }
  CHECK(s.ok() == ok, ok ? "a resolvable path is rejected" : "a path is resolved that names no field");
  if (!ok) { CHECK(s.code() == absl::StatusCode::kInvalidArgument, "the error is not an invalid argument"); CHECK(out.size() == 1 && out[0] == &sentinel, "the output is changed although the path is rejected"); symx_cover("rejected"); return; }
  CHECK(out.size() == want.size(), "the result does not have one field per name");
  // every field of the result is the one of that name in the type reached
  const pb::Type* ct = &types[0];
  for (size_t i = 0; i < out.size(); i++) {
    std::string w = want[i]; const pb::Type* owner = w.compare(0, 2, "T.") == 0 ? &types[0] : &types[1]; (void)ct; obsStr("field", out[i]->name());
    const pb::Field* real = nullptr; for (auto& x : owner->fields()) if (strEq(owner->name() + "." + x.name(), w)) real = &x;
    CHECK(real != nullptr, "schema"); CHECK(strEq(out[i]->name(), real->name()) && out[i]->kind() == real->kind() && strEq(out[i]->type_url(), real->type_url()), "another field is returned");
    // fields of supplied types live in the cache (or in the type given, for the first)
    if (i == 0) CHECK(out[i] == real, "the first field is not one of the given type");
  }
  if (out.size() > 1) symx_cover("nested"); else symx_cover(out.empty() ? "empty" : "one");
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 3 };
static void scaleMain(unsigned job) {
  size_t n = 140; std::vector<pb::Type> types(n); std::vector<pb::Enum> enums(n); std::string lng(300, 'l');
  for (size_t i = 0; i < n; i++) {
    types[i].set_name("pkg.sub.T" + std::to_string(i)); enums[i].set_name("pkg.E" + std::to_string(i)); std::vector<pb::Field> fs; std::string next = kPrefix + "pkg.sub.T" + std::to_string((i + 1) % n);
    for (size_t k = 0; k < 20; k++) { pb::Field f = field("f" + std::to_string(k), k % 3 == 2 ? pb::Field::TYPE_STRING : pb::Field::TYPE_MESSAGE, k % 3 == 2 ? "" : next); *types[i].add_fields() = f; }
    *types[i].add_fields() = field(lng + "%", pb::Field::TYPE_MESSAGE, next);
  }
  TypeHelper h(types, enums);
  if (job == 0) {
    pb::util::TypeResolver* r = h.Resolver(); std::string url = kPrefix + "pkg.sub.T3" + symStr(symx_range("n", 0, 2), "name"); pb::Type t; t.set_name("keep"); std::string want = "keep"; for (auto& x : types) if (strEq(url, kPrefix + x.name())) want = x.name();
    CHECK(r->ResolveMessageType(url, &t).ok() == (want != "keep"), "a type is found, or not found, wrongly"); CHECK(t.name() == want && t.fields_size() == (want == "keep" ? 0 : 21), "another type is returned");
    std::string eu = kPrefix + "pkg.E2" + symStr(symx_range("en", 0, 1), "ename"); pb::Enum e; e.set_name("keep"); want = "keep"; for (auto& x : enums) if (strEq(eu, kPrefix + x.name())) want = x.name(); CHECK(r->ResolveEnumType(eu, &e).ok() == (want != "keep"), "an enum is found, or not found, wrongly"); CHECK(e.name() == want, "another enum is returned"); return;
  }
  size_t m = job == 1 ? 12 : 140, at = symx_range("at", 0, 3) * (m - 1) / 3; std::vector<std::string> names; for (size_t i = 0; i < m; i++) names.push_back(i % 5 == 4 ? lng + "%25" : i == at ? "f1" + symStr(symx_range("len", 0, 1), "name") : "f" + std::to_string(i % 2 ? 18 : 7));
  std::vector<const pb::Field*> out; std::string text; for (auto& x : names) { if (!text.empty()) text += '.'; text += x; } bool vec = symx_range("vector", 0, 1); if (!vec && at % 5 != 4) { for (char c : names[at]) symx_assume(c != '.'); }
  absl::Status s = vec ? h.ResolveFieldPath(types[0], names, &out) : h.ResolveFieldPath(types[0], text, &out); symx_obs("code", (uint64_t)s.code());
  bool ok = true; for (size_t i = 0; i < m && ok; i++) { std::string d = decode(names[i], 2, false); const pb::Field* f = nullptr; for (auto& x : types[i % n].fields()) if (strEq(x.name(), names[i]) || strEq(x.name(), d)) { f = &x; break; } if (!f || (i + 1 < m && f->kind() != pb::Field::TYPE_MESSAGE)) ok = false; else if (s.ok() && i < out.size()) CHECK(strEq(out[i]->name(), f->name()) && strEq(out[i]->type_url(), f->type_url()), "another field is returned"); }
  CHECK(s.ok() == ok, ok ? "a resolvable path is rejected" : "a path is resolved that names no field"); if (!ok) { CHECK(s.code() == absl::StatusCode::kInvalidArgument, "the error is not an invalid argument"); CHECK(out.empty(), "the output is changed although the path is rejected"); return; }
  CHECK(out.size() == m, "the result does not have one field per name"); symx_cover("nested");
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
