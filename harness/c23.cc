// C23: RequestStreamTranslator against one RequestMessageTranslator per element
#include "convref.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "grpc_transcoding/request_stream_translator.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf;
namespace google { namespace protobuf { namespace util { namespace converter {
bool ConvHook::integer(absl::string_view, bool*, uint64_t*) { return false; }
bool ConvHook::real(absl::string_view, double*) { return false; }
bool ConvHook::boolean(absl::string_view, bool*) { return false; }
}}}}
struct NoTypes : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
};
typedef pbc::ProtoStreamObjectWriter PW;
static unsigned baseJobs(int) { return 2 * 4 * 3; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); NoTypes types; pb::Type type, other; pb::Field fx, fa, fp, fq; fx.set_name("x"); fa.set_name("a"); fa.set_kind(pb::Field::TYPE_MESSAGE); fp.set_name("p"); fp.set_kind(pb::Field::TYPE_MESSAGE); for (auto* f : {&fx, &fa, &fp, &fq}) f->set_cardinality(pb::Field::CARDINALITY_OPTIONAL);
  bool delim = job % 2; static const char* const kBody[] = {"", "*", "p", "p.q"}; std::string bodyPath = kBody[job / 2 % 4]; unsigned nb = job / 8;
  bool reject = symx_int("reject", 1), ci = symx_int("case insensitive", 1);
  std::vector<RequestWeaver::BindingInfo> binds; 
  for (unsigned i = 0; i < nb; i++) { RequestWeaver::BindingInfo b; if (i) b.field_path.push_back(&fa); b.field_path.push_back(&fx); b.value = "V" + symStr(1, "value"); binds.push_back(b); }
  RequestInfo info; info.message_type = &type; info.body_field_path = bodyPath; info.variable_bindings = binds; info.reject_binding_body_field_collisions = reject; info.case_insensitive_enum_parsing = ci;
  PW::logs().clear();
  RequestStreamTranslator t(types, delim, info); pbc::ObjectWriter* w = &t; MessageStream& ms = t;
  // events: names are chosen so that they can meet the bindings; ends that have no start come at the outermost level only
  unsigned n = tier ? 7 : 6; std::string stack; bool lazy = symx_range("lazy", 0, 1), closed = false, failed = false; std::vector<std::string> want, got;
  std::unique_ptr<RequestMessageTranslator> ref; unsigned elements = 0; static const char kKinds[] = "sbiuIUdfyn"; char kind = 0; bool bad = false;
  auto poll = [&] { std::string m; int guard = 0; while (ms.NextMessage(&m)) { if (++guard > 10) symx_fail("messages without end"); got.push_back(m); m = ""; } };
  for (unsigned i = 0; i < n && !closed; i++) {
    Ev e; unsigned op = symx_range("op", 0, 5);   // 0 scalar, 1 object, 2 list, 3 end, 4 wrong end / stop at depth 0, 5 no more events
    if (op == 5) break;
    bool inList = stack.empty() || stack.back() == '[';
    if (op == 0) { if (!kind) kind = kKinds[i > 2 ? 0 : nb ? symx_range("kind", 0, 1) : symx_range("kind", 0, 9)]; e = kind == 's' || kind == 'y' ? Ev{kind, "", 0, "B" + symStr(1, "bodystr")} : symScalar(kind, ""); }
    else if (op == 1 || op == 2) { e.kind = op == 1 ? '{' : '['; }
    else if (op == 3) { if (stack.empty()) { e.kind = ']'; } else e.kind = stack.back() == '{' ? '}' : ']'; }
    else { if (stack.size() > 1) symx_stop(); e.kind = '}'; }   // closes an object although none is open
    if (op <= 2 && !inList) { if (nb == 0 && op == 0 && symx_range("bad", 0, 1)) e.name = "bad"; else e.name = symStr(1, "name"); } else if (op <= 2 && stack.empty()) e.name = "";
    bool wasFailed = failed;
    if (!failed) {
      size_t d = stack.size(); bool elementStart = d == 1 && op <= 2, elementEnd = (d == 1 && op == 0) || (d == 2 && op == 3);
      if (d == 0) { if (op == 2) stack = "["; else failed = true; }
      else if (d == 1 && op == 3) { stack.clear(); closed = true; }
      else if (d == 1 && op == 4) failed = true;
      else {
        if (elementStart) { RequestInfo ri; ri.message_type = &type; ri.body_field_path = bodyPath; ri.reject_binding_body_field_collisions = reject; ri.case_insensitive_enum_parsing = ci; if (elements == 0) ri.variable_bindings = binds; elements++; ref.reset(new RequestMessageTranslator(types, delim, ri)); }
        if (op == 1 || op == 2) stack += e.kind; else if (op == 3) stack.pop_back();
        play(&ref->Input(), e);
        if (elementEnd) {
          std::string m; bool ok = ref->Status().ok() && static_cast<MessageStream&>(*ref).NextMessage(&m);
          if (ok) want.push_back(m); else { failed = true; symx_cover("element error"); } ref.reset();
        }
      }
    }
    CHECK(play(w, e) == w, "the writer returned is not this writer");
    bool err = !t.Status().ok(); symx_obs("status", (uint64_t)t.Status().code());
    CHECK(err == failed, failed ? "an error is not reported" : "an error for a well-formed array"); if (err) { CHECK(t.Status().code() == absl::StatusCode::kInvalidArgument, "the error is not an invalid argument"); CHECK(t.Finished(), "not finished after an error"); if (!wasFailed) symx_cover("error"); }
    else if (!closed) CHECK(!t.Finished(), "finished before the array ends");
    if (!lazy) { poll(); if (!failed) { CHECK(got.size() == want.size(), "a message is late or extra"); CHECK(t.Finished() == closed, "finished is reported wrongly"); } }
    else if (closed) CHECK(t.Finished() == want.empty(), "finished although messages remain");
    if (failed && wasFailed) break;   // one event after the error is enough
  }
  poll(); symx_obs("n", got.size()); 
  CHECK(failed ? got.size() <= want.size() && (lazy || got.size() == want.size()) : got.size() == want.size(), "the number of messages is not the number of elements");
  for (size_t i = 0; i < got.size(); i++) { obsStr("m", got[i]); CHECK(strEq(got[i], want[i]), "a message is not the translation of its element"); symx_cover(i ? "later message" : "message"); }
  if (closed && !failed) { CHECK(t.Finished(), "not finished after the array"); symx_cover("closed"); }
  for (auto& l : PW::logs()) { CHECK(l.type == &type, "an element is translated to another type"); CHECK((l.options.case_insensitive_enum_parsing == ci) & l.options.ignore_unknown_fields & !l.options.ignore_unknown_enum_values & !l.strict, "an element is translated under other options"); }
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 4 };
static void scaleMain(unsigned job) {
  NoTypes types; pb::Type type; pb::Field fx, fa; fx.set_name("x"); fa.set_name("a"); fa.set_kind(pb::Field::TYPE_MESSAGE); for (auto* f : {&fx, &fa}) f->set_cardinality(pb::Field::CARDINALITY_OPTIONAL);
  RequestInfo info; info.message_type = &type; info.body_field_path = job % 2 ? "p.q.r.s.t.u.v.w.x.y" : ""; info.reject_binding_body_field_collisions = false; info.case_insensitive_enum_parsing = job & 1;
  for (int i = 0; i < 40; i++) { RequestWeaver::BindingInfo b; for (int k = 0; k < i; k++) b.field_path.push_back(&fa); b.field_path.push_back(&fx); b.value = "V" + std::to_string(i); info.variable_bindings.push_back(b); }
  bool deep = job / 2, late = symx_range("late", 0, 1); size_t n = deep ? 3 : 140, odd = symx_range("odd", 0, 3) * (n - 1) / 3; std::string sym = symStr(1, "name"); std::vector<std::string> want, got;
  PW::logs().clear(); RequestStreamTranslator t(types, true, info); MessageStream& ms = t; pbc::ObjectWriter* w = &t; w->StartList("");
  auto poll = [&] { std::string m; while (ms.NextMessage(&m)) { got.push_back(m); m = ""; } };
  for (size_t i = 0; i < n; i++) {
    RequestInfo ri = info; if (i) ri.variable_bindings.clear(); RequestMessageTranslator ref(types, true, ri); std::vector<Ev> es; auto ev = [&](char k, const std::string& nm) { Ev e; e.kind = k; e.name = nm; if (k == 's') e.str = "B"; es.push_back(e); };
    size_t d = deep ? (i == 1 ? 300 : 12) : 1 + i % 3;
    ev('{', ""); for (size_t k = 1; k < d; k++) ev(i % 2 ? '{' : k % 2 ? '[' : '{', i % 2 || k % 2 ? (i == odd && k == 1 ? sym : "a") : ""); ev('s', i == odd && d < 2 ? sym : "o"); for (size_t k = d; k-- > 1;) ev(i % 2 ? '}' : k % 2 ? ']' : '}', ""); for (int k = 0; k < (deep ? 30 : 3); k++) ev('s', k % 2 ? "o" : "long" + std::to_string(k)); ev('}', "");
    for (auto& e : es) { play(w, e); play(&ref.Input(), e); CHECK(t.Status().ok(), "an error for a well-formed array"); CHECK(!t.Finished(), "finished before the array ends"); }
    std::string m; CHECK(ref.Status().ok() && static_cast<MessageStream&>(ref).NextMessage(&m), "element"); want.push_back(m); if (!late) { poll(); CHECK(got.size() == want.size(), "a message is late or extra"); }
  }
  w->EndList(); CHECK(t.Finished() == !late, "finished is reported wrongly"); poll(); CHECK(t.Finished() && t.Status().ok(), "not finished after the array"); symx_cover("closed");
  CHECK(got.size() == want.size(), "the number of messages is not the number of elements"); for (size_t i = 0; i < want.size(); i++) { CHECK(strEq(got[i], want[i]), "a message is not the translation of its element"); symx_cover(i ? "later message" : "message"); }
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
