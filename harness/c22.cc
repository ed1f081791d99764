// C22: RequestWeaver conflict reporting
#include "convref.h"
#include "grpc_transcoding/request_weaver.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf;
// what a binding text denotes, chosen per binding (its second character is its index)
struct Num { uint8_t isInt, neg; uint64_t mag; uint8_t isBool, b; bool isReal; double real; };
static Num gNum[3];
static Num& of(absl::string_view t) { return gNum[t[1] - '0']; }
namespace google { namespace protobuf { namespace util { namespace converter {
bool ConvHook::integer(absl::string_view t, bool* neg, uint64_t* mag) { Num& n = of(t); *neg = n.neg; *mag = n.mag; return n.isInt; }
bool ConvHook::real(absl::string_view t, double* v) { Num& n = of(t); *v = n.real; return n.isReal; }
bool ConvHook::boolean(absl::string_view t, bool* v) { Num& n = of(t); *v = n.b; return n.isBool; }
}}}}
static const char kKinds[] = "iuIUbsydf";
// the place of the bound field: in the request itself, in a nested message, or a repeated field; and unrelated body fields
enum { PLACES = 7 };
static unsigned baseJobs(int tier) { return 9 * PLACES; }
static void baseMain(unsigned job) {
  char kind = kKinds[job % 9]; unsigned place = job / 9; pb::Field a, x, r;
  a.set_name("a"); a.set_kind(pb::Field::TYPE_MESSAGE); a.set_cardinality(pb::Field::CARDINALITY_OPTIONAL); x.set_name("x"); x.set_kind(pb::Field::TYPE_STRING); r.set_name("r"); r.set_cardinality(pb::Field::CARDINALITY_REPEATED);
  // any cardinality that is not repeated
  x.set_cardinality((pb::Field::Cardinality)symx_range("cardinality", 0, 2));
  std::vector<RequestWeaver::BindingInfo> in; unsigned nb = place == 6 ? 2 : 1; std::vector<std::string> vals;
  for (unsigned i = 0; i < nb; i++) {
    RequestWeaver::BindingInfo b; if (place == 1 || place == 5) b.field_path.push_back(&a); b.field_path.push_back(place == 2 ? &r : &x);
    b.value = "V" + std::string(1, (char)('0' + i)) + symStr((kind == 's' || kind == 'y') ? symx_range("len", 0, 2) : 1, "value"); vals.push_back(b.value); in.push_back(b);
    Num& n = gNum[i]; n.isInt = symx_int("isInt", 1); n.neg = symx_int("neg", 1); n.mag = symx_int("mag", 64); n.isBool = symx_int("isBool", 1); n.b = symx_int("b", 1); n.isReal = false; n.real = 0;
  }
  bool report = symx_range("report", 0, 1);
  Recorder rec; StatusErrorListener el; RequestWeaver w(in, &rec, &el, report);
  // the body value
  Ev e; uint8_t conflict = 0;
  if (kind == 'd' || kind == 'f') {   // floating point values are not symbolic: unconvertible, equal, close and different ones
    static const double V[] = {0, 1, -1.5, 3e9, -1e18, 1e30, __builtin_inf(), 1.0000005, 1.00002, 16777217, 16777216, -__builtin_inf(), 1e300, -1e300, 1.1e300}; unsigned nv = kind == 'f' ? 12 : 15; e.kind = kind; double bodyv = V[symx_range("bodyreal", 0, nv - 1)]; e.num = bitsOf(bodyv); if (kind == 'f') { float f = (float)bodyv; uint32_t u; memcpy(&u, &f, 4); e.num = u; bodyv = f; }
    for (unsigned i = 0; i < nb; i++) { unsigned c = symx_range("bindreal", 0, nv); gNum[i].isReal = c < nv; gNum[i].real = c < nv ? V[c] : 0; double bv = kind == 'f' ? (double)(float)gNum[i].real : gNum[i].real; conflict |= c == nv || !(bv == bodyv || (bv - bodyv < 1e-6 && bodyv - bv < 1e-6)); }   // the values are equal, closer than 1e-6, or further apart than 1e-5
  } else if (kind == 's' || kind == 'y') {
    e.kind = kind; e.str = symStr(symx_range("bodylen", 0, 4), "bodystr"); for (auto& v : vals) conflict |= (uint8_t)!strEq(v, e.str);
  } else {
    e = symScalar(kind, "");
    for (unsigned i = 0; i < nb; i++) {
      Num& n = gNum[i]; uint8_t same;
      if (kind == 'b') same = n.isBool & (uint8_t)((n.b != 0) == (e.num != 0));
      else if (kind == 'i' || kind == 'I') { uint8_t bneg = (int64_t)e.num < 0; uint64_t bmag = bneg ? 0 - e.num : e.num; same = n.isInt & (uint8_t)(n.mag == bmag) & (uint8_t)(((uint8_t)(n.neg == bneg)) | (uint8_t)(bmag == 0)); }
      else same = n.isInt & (uint8_t)(n.mag == e.num) & (uint8_t)((n.neg ^ 1) | (uint8_t)(e.num == 0));
      conflict |= (uint8_t)(same ^ 1);
    }
  }
  auto obj = [](const char* n, char k) { Ev o; o.kind = k; o.name = n; return o; };
  std::vector<Ev> body; body.push_back(obj("", '{')); 
  e.name = place == 2 ? "r" : "x"; bool compared = true;
  if (place == 1) { body.push_back(obj("a", '{')); body.push_back(e); body.push_back(obj("", '}')); }
  else if (place == 2) { body.push_back(e); compared = false; }
  else if (place == 3) { e.name = symStr(1, "name"); symx_assume(e.name[0] != 'x'); body.push_back(e); compared = false; }   // another field
  else if (place == 4) { body.push_back(obj("a", '{')); body.push_back(e); body.push_back(obj("", '}')); compared = false; }   // x of another message
  else if (place == 5) { body.push_back(e); body.push_back(obj("a", '[')); Ev o = obj("", '{'); body.push_back(o); body.push_back(e); body.push_back(obj("", '}')); body.push_back(obj("", ']')); compared = false; }   // x of the request, and of an element of a list
  else body.push_back(e);   // 0: one binding, 6: two bindings of the same field
  body.push_back(obj("", '}'));
  for (auto& b : body) play(&w, b);
  bool err = !el.status().ok(); symx_obs("status", (uint64_t)el.status().code());
  CHECK(w.Status().code() == el.status().code(), "the weaver's status is not the listener's");
  if (!report || !compared) { CHECK(!err, !report ? "a conflict is reported although reporting is off" : "a conflict is reported for a field the body does not set or that is repeated"); symx_cover("not compared"); return; }
  CHECK((uint8_t)err == conflict, "a conflict is reported for equal values, or not reported for different ones");
  if (err) { CHECK(el.status().code() == absl::StatusCode::kInvalidArgument, "a conflict is not reported as an invalid argument"); symx_cover("conflict"); } else symx_cover("equal");
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 2 };
static void scaleMain(unsigned job) {
  pb::Field x; x.set_name("x"); x.set_kind(pb::Field::TYPE_STRING); x.set_cardinality(pb::Field::CARDINALITY_OPTIONAL); char kind = job ? 'y' : 's';
  static const size_t ls[] = {4, 15, 16, 64, 255, 256, 300}; size_t n = ls[symx_range("length", 0, 6)], k = symx_range("bindings", 0, 2), odd = (k = k == 0 ? 1 : k == 1 ? 5 : 140, symx_range("odd", 0, k < 5 ? 0 : 4) * (k - 1) / 4); std::vector<RequestWeaver::BindingInfo> in;
  Ev e; e.kind = kind; e.name = "x"; e.str = "V0" + std::string(n, 't'); size_t at = symx_range("at", 0, 2); at = at == 0 ? 2 : at == 1 ? n / 2 + 1 : n + 1; unsigned more = symx_range("more", 0, 2); uint8_t conflict = 0;
  for (size_t i = 0; i < k; i++) { RequestWeaver::BindingInfo b; b.field_path.push_back(&x); b.value = e.str; if (i == odd) { b.value[at] = symStr(1, "value")[0]; if (more == 1) b.value += '\0'; else if (more == 2) b.value.erase(b.value.size() - 1); } conflict |= (uint8_t)!strEq(b.value, e.str); in.push_back(b); }
  bool report = symx_range("report", 0, 1); Recorder rec; StatusErrorListener el; RequestWeaver w(in, &rec, &el, report); w.StartObject(""); play(&w, e); w.EndObject();
  bool err = !el.status().ok(); symx_obs("status", (uint64_t)el.status().code());
  if (!report) { CHECK(!err, "a conflict is reported although reporting is off"); return; }
  CHECK((uint8_t)err == conflict, "a conflict is reported for equal values, or not reported for different ones"); symx_cover(err ? "conflict" : "equal");
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
