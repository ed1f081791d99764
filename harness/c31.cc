// C31: types and enums are served as supplied, but for two option names
#include "common.h"
#include "google/protobuf/util/converter/type_info.h"
#include "grpc_transcoding/type_helper.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf; namespace pbc = google::protobuf::util::converter;
static const std::string kPrefix = "type.googleapis.com/", kOld = "proto2.MessageOptions.", kNew = "google.protobuf.MessageOptions.";
static const char* const kNames[] = {"map_entry", "message_set_wire_format"};
static int live;          // caches and resolvers that exist
struct Cache : pbc::TypeInfo {
  pb::util::TypeResolver* r; pb::Type last; Cache() { live++; } ~Cache() { live--; }
  absl::StatusOr<const pb::Type*> ResolveTypeUrl(absl::string_view) const override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
  const pb::Type* GetTypeByTypeUrl(absl::string_view u) const override { Cache* c = const_cast<Cache*>(this); return r->ResolveMessageType(std::string(u.data(), u.size()), &c->last).ok() ? &last : nullptr; }
  const pb::Enum* GetEnumByTypeUrl(absl::string_view) const override { return nullptr; }
  const pb::Field* FindField(const pb::Type*, absl::string_view) const override { return nullptr; }
};
namespace google { namespace protobuf { namespace util { namespace converter { TypeInfo* TypeInfo::NewTypeInfo(TypeResolver* r) { Cache* c = new Cache; c->r = r; return c; } }}}}
struct Given : pb::util::TypeResolver {
  int asked = 0; Given() { live += 16; } ~Given() { live -= 16; }
  absl::Status ResolveMessageType(const std::string& u, pb::Type* t) override { asked++; if (u != "u") return absl::Status(absl::StatusCode::kNotFound, ""); t->set_name("given"); return absl::Status(); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { asked++; return absl::Status(absl::StatusCode::kNotFound, ""); }
};
// an option: one of the two old names, with a symbolic byte put in place of one of its bytes or after it, or a symbolic text
static std::string optionName(bool deep) {
  size_t k = symx_range("kind", 0, deep ? 5 : 3); std::string base = kOld + kNames[k & 1];
  if (k < 2) return base;
  if (k == 2) return base + symStr(symx_range("more", 0, 1), "tail");
  if (k == 3) { size_t at = symx_range("at", 0, base.size() - 1); base[at] = symStr(1, "byte")[0]; return base; }
  if (k == 4) return symStr(2, "name"); 
  return (symx_range("new", 0, 1) ? kNew : std::string(1, '.') + kOld) + kNames[0];
}
static std::string wantName(const std::string& n) {
  std::string r = n; for (auto k : kNames) if (n.size() == kOld.size() + strlen(k)) { if (strEq(n, kOld + k)) { symx_cover("renamed"); r = kNew + k; } } return r;
}
static void addOption(pb::Option* o, const std::string& n, const std::string& v) { o->set_name(n); o->mutable_value()->set_type_url("v"); o->mutable_value()->set_value(v); }
static void sameOption(const pb::Option& o, const std::string& n, const std::string& v) {
  obsStr("option", o.name()); CHECK(strEq(o.name(), n), "an option is served under another name"); CHECK(o.has_value() && strEq(o.value().value(), v) && strEq(o.value().type_url(), "v"), "an option is served with another value");
}
unsigned symx_jobs(int) { return 5; }
void symx_main(unsigned job) {
  std::vector<pb::Type> types; std::vector<pb::Enum> enums;
  if (job == 4) {                        // a resolver of the caller's own
    { Given* g = new Given; std::unique_ptr<TypeHelper> h(new TypeHelper(g)); CHECK(h->Resolver() == g, "another resolver than the given one"); const pb::Type* t = h->Info()->GetTypeByTypeUrl(symx_range("known", 0, 1) ? "u" : "w" + symStr(1, "url")); CHECK(g->asked == 1, "the given resolver is not asked"); CHECK(!t || t->name() == "given", "another type"); CHECK(live == 17, "helper"); }
    CHECK(live == 0, "the resolver or the cache outlives the helper"); symx_cover("given resolver"); return;
  }
  size_t n = job == 3 ? 132 : job == 2 ? 2 : 1, no = job == 3 ? 140 : symx_range("options", 0, 2 + (symx_tier() > 0)); std::vector<std::string> names; std::vector<std::string> vals;
  for (size_t i = 0; i < n; i++) { types.emplace_back(); pb::Type& t = types.back(); t.set_name("pkg.T" + std::to_string(i)); }
  // job 2: two types of one name, told apart by their fields
  if (job == 2) types[1].set_name(types[0].name());
  size_t at = job == 3 ? symx_range("at", 0, 3) * 131 / 3 : 0;
  size_t slot = !no ? 0 : job == 3 ? symx_range("slot", 0, 2) * 139 / 2 : symx_range("slot", 0, no - 1);
  for (size_t i = 0; i < no; i++) { names.push_back(i == slot ? optionName(job == 0 || job == 3) : i % 2 ? kOld + kNames[i / 2 % 2] : "my.option" + std::to_string(i)); vals.push_back(symStr(1, "value")); addOption(types[at].add_options(), names.back(), vals.back()); }
  std::string fo = job == 1 ? kOld + kNames[symx_range("field option", 0, 1)] : "x"; int32_t num = (int32_t)symx_int("number", 32), one = (int32_t)symx_int("oneof", 32); bool packed = symx_int("packed", 1); std::string s1 = symStr(1, "text"), s2 = symStr(1, "text"), s3 = symStr(2, "text");
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < (i == at ? 3 : 1); k++) {
    pb::Field* f = types[i].add_fields(); f->set_name("f" + std::to_string(i) + s1); f->set_kind(k == 1 ? pb::Field::TYPE_SINT64 : pb::Field::TYPE_MESSAGE); f->set_cardinality(k == 2 ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL); f->set_number(num); f->set_oneof_index(one); f->set_packed(packed); f->set_json_name(s2); f->set_type_url(kPrefix + s3); f->set_default_value(s3 + s1); addOption(f->add_options(), fo, s1);
  }
  *types[at].add_oneofs() = s2 + "o";
  for (size_t i = 0; i < n; i++) { enums.emplace_back(); enums.back().set_name("pkg.T" + std::to_string(i)); pb::EnumValue* v = enums.back().add_enumvalue(); v->set_name(s3); v->set_number(num); addOption(v->add_options(), fo, s1); addOption(enums.back().add_options(), fo, s2); }
  if (job == 2) enums[1].set_name(enums[0].name());
  {
    TypeHelper h(types, enums); bool info = job == 3 ? false : symx_range("through the cache", 0, 1); pb::Type t, other; std::string url = kPrefix + "pkg.T" + std::to_string(at);
    if (symx_range("stale", 0, 1)) { addOption(t.add_options(), "stale", "x"); t.add_fields()->set_name("stale"); *t.add_oneofs() = "stale"; }
    if (info) { const pb::Type* p = h.Info()->GetTypeByTypeUrl(url); CHECK(p != nullptr, "a supplied type is not found"); t = *p; } else CHECK(h.Resolver()->ResolveMessageType(url, &t).ok(), "a supplied type is not found");
    CHECK(t.name() == "pkg.T" + std::to_string(at), "another type"); CHECK(t.options_size() == (int)no, "options appear or are lost");
    for (size_t i = 0; i < no; i++) sameOption(t.options(i), wantName(names[i]), vals[i]);
    CHECK(t.fields_size() == 3 && t.oneofs_size() == 1 && strEq(t.oneofs(0), s2 + "o"), "fields or oneofs appear or are lost");
    for (int k = 0; k < 3; k++) { const pb::Field& f = t.fields(k); CHECK(strEq(f.name(), "f" + std::to_string(at) + s1) & (f.kind() == (k == 1 ? pb::Field::TYPE_SINT64 : pb::Field::TYPE_MESSAGE)) & (f.cardinality() == (k == 2 ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL)) & (f.number() == num) & (f.oneof_index() == one) & (f.packed() == packed) & strEq(f.json_name(), s2) & strEq(f.type_url(), kPrefix + s3) & strEq(f.default_value(), s3 + s1), "a field is served differently"); CHECK(f.options_size() == 1, "field options"); sameOption(f.options(0), fo, s1); }
    pb::Enum e; CHECK(h.Resolver()->ResolveEnumType(url, &e).ok(), "a supplied enum is not found"); CHECK(e.name() == "pkg.T" + std::to_string(at) && e.enumvalue_size() == 1 && e.options_size() == 1, "the enum is served differently"); CHECK(strEq(e.enumvalue(0).name(), s3) & (e.enumvalue(0).number() == num), "the enum value is served differently"); CHECK(e.enumvalue(0).options_size() == 1, "enum value options"); sameOption(e.enumvalue(0).options(0), fo, s1); sameOption(e.options(0), fo, s2);
    if (job == 2) { CHECK(enums.size() == 2, ""); symx_cover("same name"); } symx_cover("type");
  }
  CHECK(live == 0, "the cache outlives the helper");
}
