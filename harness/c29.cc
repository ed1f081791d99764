// C29: RequestMessageTranslator: body, body path, bindings and options come together in the one message
#include "convref.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "grpc_transcoding/prefix_writer.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/request_weaver.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf;
namespace google { namespace protobuf { namespace util { namespace converter {
bool ConvHook::integer(absl::string_view, bool*, uint64_t*) { return false; }
bool ConvHook::real(absl::string_view, double*) { return false; }
bool ConvHook::boolean(absl::string_view, bool*) { return false; }
}}}}
struct NoTypes : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
};
typedef pbc::ProtoStreamObjectWriter PW;
struct Loc : pbc::LocationTrackerInterface { std::string t; std::string ToString() const override { return t; } };
static std::string encode(const Recorder& r) {
  std::string o; for (auto& e : r.ev) PW::encode(&o, e.kind, e.name, e.kind == 's' || e.kind == 'y' ? e.str : strchr("{}[]n", e.kind) ? std::string() : PW::numText(e.num)); return o;
}
static bool has(const std::string& hay, const std::string& needle) { if (needle.empty()) return true; uint8_t any = 0; for (size_t i = 0; i + needle.size() <= hay.size(); i++) any |= (uint8_t)(memcmp(hay.data() + i, needle.data(), needle.size()) == 0); return any; }
static const char* const kBody[] = {"", "*", "a", "b.a", "a.x.y"};
// ---- large inputs
static void scaleMain(unsigned job) {
  NoTypes types; pb::Type type; pb::Field f[4]; const char* nm[] = {"a", "b", "x", "r"}; bool ci = symx_int("case insensitive", 1), delim = job & 1, reject = false; size_t np = job < 2 ? 0 : job < 4 ? 30 : 140;
  for (int i = 0; i < 4; i++) { f[i].set_name(nm[i]); f[i].set_cardinality(i == 3 ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL); }
  static const char* const kB[] = {"x", "ax", "br", "bax", "aabx"}; std::vector<RequestWeaver::BindingInfo> binds; std::string sym = symStr(1, "name"), bodyPath; for (size_t i = 0; i < np; i++) bodyPath += (i ? "." : "") + std::string(i % 3 ? "a" : i == 9 ? std::string(300, 'p') : "b");
  for (size_t i = 0; i < (job < 4 ? 40 : 140); i++) { RequestWeaver::BindingInfo b; for (const char* p = kB[i % 5]; *p; p++) b.field_path.push_back(*p == 'a' ? &f[0] : *p == 'b' ? &f[1] : *p == 'x' ? &f[2] : &f[3]); b.value = "V" + std::to_string(i) + (i == 7 ? std::string(300, 'v') : "") + (i == 20 ? symStr(1, "value") : ""); binds.push_back(b); }
  RequestInfo info; info.message_type = &type; info.body_field_path = bodyPath; info.variable_bindings = binds; info.reject_binding_body_field_collisions = reject; info.case_insensitive_enum_parsing = ci;
  PW::logs().clear(); RequestMessageTranslator t(types, delim, info);
  Recorder rec; StatusErrorListener el; RequestWeaver w(binds, &rec, &el, reject); PrefixWriter p(bodyPath, &w); pbc::ObjectWriter* ref = np ? (pbc::ObjectWriter*)&p : &w;
  std::vector<Ev> body; auto ev = [&](char k, const std::string& n) { Ev e; e.kind = k; e.name = n; if (k == 's') e.str = "B"; body.push_back(e); }; size_t at = symx_range("at", 0, 3); ev('{', "");
  for (size_t i = 0; i < 20; i++) { ev('{', at == 0 && i == 3 ? sym : i % 2 ? "a" : "b"); ev('s', at == 1 && i == 15 ? sym : i % 4 ? "x" : "o"); if (i % 5 == 0) { ev('[', "r"); for (int k = 0; k < 12; k++) ev('s', ""); ev(']', ""); } if (i % 2) ev('}', ""); } for (size_t i = 0; i < 10; i++) ev('}', "");
  for (size_t i = 0; i < 270; i++) ev('s', at == 2 && i == 33 ? sym : "l" + std::to_string(i)); ev('s', at == 3 ? sym : "x"); ev('}', "");
  for (auto& e : body) { play(&t.Input(), e); play(ref, e); CHECK(t.Status().ok(), "an error for a good request"); std::string m; if (&e != &body.back()) CHECK(!t.NextMessage(&m), "a message before the request is complete"); }
  std::string m; CHECK(t.NextMessage(&m), "no message"); std::string want = encode(rec); CHECK(strEq(m.substr(delim ? 5 : 0), want), "the message is not the body under its path with the bindings woven in"); symx_cover("message");
  if (delim) { std::string h(1, '\0'); for (int k = 3; k >= 0; k--) h += (char)(want.size() >> 8 * k); CHECK(strEq(m.substr(0, 5), h), "the header does not give the size"); }
  CHECK(PW::logs().size() == 1, "one message, one writer"); auto& l = PW::logs()[0]; CHECK(l.type == &type && l.options.case_insensitive_enum_parsing == ci && l.options.ignore_unknown_fields && !l.strict, "options");
}
enum { NSCALE = 6 };
static void baseMain(unsigned job);
unsigned symx_jobs(int) { return NSCALE + 1 + 5 * 6; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
static void baseMain(unsigned job) {
  int tier = symx_tier();
  if (job == 0) {   // the error listener by itself
    StatusErrorListener l; CHECK(l.status().ok(), "an error from the start"); unsigned n = symx_range("errors", 0, 2);
    for (unsigned i = 0; i < n; i++) {
      Loc loc; loc.t = symStr(symx_range("loclen", 0, 2), "loc"); std::string a = symStr(symx_range("alen", 0, 2), "a"), b = symStr(symx_range("blen", 0, 2), "b"); unsigned k = symx_range("error", 0, 3);
      if (k == 0) l.InvalidName(loc, a, b); else if (k == 1) l.InvalidValue(loc, a, b); else if (k == 2) l.MissingField(loc, a); else l.set_status(absl::Status(absl::StatusCode::kInvalidArgument, a + loc.t));
      CHECK(l.status().code() == absl::StatusCode::kInvalidArgument, "an error is not an invalid argument");
      std::string m(l.status().message()); obsStr("msg", m); CHECK(has(m, loc.t), "the location is not in the message"); CHECK((k == 0 || has(m, a)) && (k >= 2 || has(m, b)), "the names are not in the message"); symx_cover("listener");
    }
    return;
  }
  job--; std::string bodyPath = kBody[job % 5]; unsigned nb = job / 5; NoTypes types; pb::Type type; pb::Field f[4]; const char* nm[] = {"a", "b", "x", "r"};
  for (int i = 0; i < 4; i++) { f[i].set_name(nm[i]); f[i].set_cardinality(i == 3 ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL); }
  static const char* const kB[] = {"x", "ax", "br", "bax", "x"}; std::vector<RequestWeaver::BindingInfo> binds;
  auto bind = [&](const char* p) { RequestWeaver::BindingInfo b; for (; *p; p++) b.field_path.push_back(*p == 'a' ? &f[0] : *p == 'b' ? &f[1] : *p == 'x' ? &f[2] : &f[3]); b.value = "V" + symStr(1, "value"); binds.push_back(b); };
  if (nb == 5) { bind("bax"); bind("ax"); } else if (nb) bind(kB[nb - 1]);
  bool reject = symx_int("reject", 1), ci = symx_int("case insensitive", 1), delim = symx_range("delim", 0, 1);
  RequestInfo info; info.message_type = &type; info.body_field_path = bodyPath; info.variable_bindings = binds; info.reject_binding_body_field_collisions = reject; info.case_insensitive_enum_parsing = ci;
  PW::logs().clear();
  RequestMessageTranslator t(types, delim, info);
  Recorder rec; StatusErrorListener el; std::unique_ptr<RequestWeaver> w; std::unique_ptr<PrefixWriter> p; pbc::ObjectWriter* ref = &rec;
  if (!binds.empty()) { w.reset(new RequestWeaver(binds, ref, &el, reject)); ref = w.get(); }
  bool prefixed = bodyPath != "" && bodyPath != "*"; if (prefixed) { p.reset(new PrefixWriter(bodyPath, ref)); ref = p.get(); }
  // one body value: an object with up to n fields, or (under a body path) a list or a scalar
  std::vector<Ev> body; std::string stack; unsigned n = symx_range("events", 0, tier ? 4 : 3); static const char kKinds[] = "sbiuIUdfyn"; char kind = nb == 1 ? kKinds[symx_range("kind", 0, 9)] : "sU"[symx_range("kind", 0, 1)]; bool err = false, bad = false;
  auto scalar = [&] { Ev e; if (kind == 's' || kind == 'y') { e.kind = kind; e.str = "B" + symStr(1, "bodystr"); } else e = symScalar(kind, ""); return e; };
  unsigned top = prefixed ? symx_range("top", 0, 2) : 0; if (top == 2) body.push_back(scalar()); else { Ev e; e.kind = top ? '[' : '{'; body.push_back(e); stack += e.kind; }
  for (unsigned i = 0; !stack.empty(); i++) {
    Ev e; unsigned op = i >= n ? 3 : symx_range("op", 0, 3);   // scalar, object, list, end
    std::string name = stack.back() == '[' ? "" : symStr(1, "name");
    if (op == 0) { e = scalar(); if (name.size() && i == 0 && symx_range("bad", 0, 1)) { name = "bad"; bad = true; } } else if (op == 3) { e.kind = stack.back() == '{' ? '}' : ']'; stack.pop_back(); name = ""; } else { e.kind = op == 1 ? '{' : '['; stack += e.kind; }
    e.name = name; body.push_back(e);
  }
  for (auto& e : body) {
    play(&t.Input(), e); play(ref, e); if (e.name == "bad") { err = true; rec.ev.erase(rec.ev.end() - 1); }
    bool want = err || !el.status().ok(); CHECK(t.Status().ok() == !want, want ? "an error of the writer or of a binding is lost" : "an error for a good request"); if (want) { CHECK(t.Status().code() == absl::StatusCode::kInvalidArgument, "the error is not an invalid argument"); symx_cover(err ? "writer error" : "conflict"); }
  }
  if (err || !el.status().ok()) return;
  std::string m; CHECK(t.NextMessage(&m), "no message"); obsStr("m", m); CHECK(strEq(m.substr(delim ? 5 : 0), encode(rec)), "the message is not the body under its path with the bindings woven in"); symx_cover("message");
  CHECK(PW::logs().size() == 1, "one message, one writer"); auto& l = PW::logs()[0]; CHECK(l.type == &type, "another message type is written");
  CHECK((l.options.case_insensitive_enum_parsing == ci), "the enum option is not the request's"); CHECK(l.options.ignore_unknown_fields, "unknown fields are not ignored"); CHECK(!l.strict, "base64 is not decoded leniently");
}
