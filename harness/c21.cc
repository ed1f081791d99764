// C21: RequestWeaver
#include "convref.h"
#include "grpc_transcoding/request_weaver.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf;
namespace google { namespace protobuf { namespace util { namespace converter {
bool ConvHook::integer(absl::string_view, bool*, uint64_t*) { return false; }
bool ConvHook::real(absl::string_view, double*) { return false; }
bool ConvHook::boolean(absl::string_view, bool*) { return false; }
}}}}
// fields any message has: two messages, a scalar and a repeated scalar
static const char* const kNames[] = {"a", "b", "x", "r"};
enum { NPATH = 10 };
static const char* const kPaths[NPATH] = {"x", "r", "ax", "ar", "abx", "bx", "a", "aax", "", "br"};
enum { NLONG = 12 };   // pairs with longer paths that repeat names
static const char* const kLong[NLONG][2] = {{"ax", "abax"}, {"abax", "ax"}, {"bx", "abbx"}, {"aabx", "abx"}, {"abx", "abar"}, {"baax", "bax"}, {"aaax", "aax"}, {"abab", "ab"}, {"abx", "bax"}, {"aabbx", "abbx"}, {"ax", "aaaax"}, {"bbx", "abbr"}};
struct B { std::string path, value; int used = 0; uint8_t dropped = 0; };
struct At : Recorder { std::vector<size_t> pos; size_t cur = 0; };
static void weave(const std::vector<std::string>& which, const std::vector<Ev>& body, bool report) {
  std::vector<B> bs; pb::Field fld[4], more[128];   // the bytes from 128 on name messages of large inputs
  for (auto& w : which) for (char c : w) if (c & 0x80) { pb::Field& f = more[c & 0x7f]; f.set_name(std::string(1, c)); f.set_kind(pb::Field::TYPE_MESSAGE); f.set_cardinality(pb::Field::CARDINALITY_OPTIONAL); }
  for (int i = 0; i < 4; i++) { fld[i].set_name(kNames[i]); fld[i].set_kind(i < 2 ? pb::Field::TYPE_MESSAGE : pb::Field::TYPE_STRING); fld[i].set_cardinality(i == 3 ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL); }
  std::vector<RequestWeaver::BindingInfo> in;
  for (auto& w : which) {
    B b; b.path = w; b.value = "V" + std::string(1, (char)('0' + bs.size())) + symStr(1, "value");
    RequestWeaver::BindingInfo bi; for (char c : b.path) bi.field_path.push_back(c & 0x80 ? &more[c & 0x7f] : c == 'a' ? &fld[0] : c == 'b' ? &fld[1] : c == 'x' ? &fld[2] : &fld[3]); bi.value = b.value; bs.push_back(b); in.push_back(bi);
  }
  // which bindings the body overrides: a non-null scalar of the same name in the (first) message at the binding's place
  for (auto& b : bs) {
    if (b.path.empty()) { b.dropped = 1; continue; }   // names no field
    std::string msg = b.path.substr(0, b.path.size() - 1); char leaf = b.path.back(); uint8_t done = 0; std::vector<uint8_t> match; size_t lists = 0;   // match[d]: the first d names on the stack are those of msg
    for (auto& e : body) {
      size_t d = match.size();
      if (e.kind == '{' || e.kind == '[') { uint8_t m = e.kind == '{' && !lists; if (d == 0) m = 1; else if (d - 1 < msg.size()) m &= e.name.size() == 1 ? (uint8_t)(e.name[0] == msg[d - 1]) & match.back() : (uint8_t)0; else m = 0; match.push_back(m); lists += e.kind == '['; }
      else if (e.kind == '}' || e.kind == ']') { done |= match.back(); match.pop_back(); lists -= e.kind == ']'; }
      else if (e.kind != 'n' && leaf != 'r' && d == msg.size() + 1 && !lists && e.name.size() == 1) b.dropped |= (uint8_t)(e.name[0] == leaf) & match.back() & (uint8_t)(done ^ 1);
    }
  }
  At rec; StatusErrorListener el; 
  RequestWeaver w(in, &rec, &el, report);
  for (auto& e : body) { CHECK(play(&w, e) == &w, "the writer returned is not this writer"); while (rec.pos.size() < rec.ev.size()) rec.pos.push_back(rec.cur); rec.cur++; }
  symx_obs("status", (uint64_t)el.status().code()); symx_obs("n", rec.ev.size());
  for (auto& e : rec.ev) obsEv(e);
  if (!report) CHECK(el.status().ok(), "a conflict is reported although reporting is off");
  // walk the output: what is written while body event k is handled is that event plus complete woven values and objects
  struct O { std::string name; bool woven, any; }; std::vector<O> st; int lists = 0; std::vector<size_t> order;
  for (size_t k = 0, i = 0; k < body.size(); k++) {
    size_t end = i; while (end < rec.ev.size() && rec.pos[end] == k) end++;
    const Ev& be = body[k]; size_t at = end;   // the event that is the body's: the bracket without partner, or the scalar that is not a binding value
    std::vector<size_t> open;
    for (size_t j = i; j < end; j++) {
      char c = rec.ev[j].kind;
      if (c == '{' || c == '[') open.push_back(j);
      else if (c == '}' || c == ']') { if (open.empty()) { CHECK(at == end && be.kind == c, "an object or list is closed that the body did not close"); at = j; } else open.pop_back(); }
      else if (isScalar(be.kind) && at == end && !(rec.ev[j].str.size() == 3)) at = j;
    }
    if (be.kind == '{' || be.kind == '[') { CHECK(open.size() == 1, "an event of the body is lost or an object left open"); at = open[0]; } else CHECK(open.empty(), "an object is left open");
    CHECK(at < end, "an event of the body is lost");
    for (; i < end; i++) {
      const Ev& e = rec.ev[i];
      if (i == at) {
        CHECK(evEq(e, be), "a body event is changed");
        if (e.kind == '{' || e.kind == '[') { st.push_back({e.name, false, true}); lists += e.kind == '['; } else if (!isScalar(e.kind)) { CHECK(!st.empty() && !st.back().woven, "nesting"); lists -= e.kind == ']'; st.pop_back(); }
        continue;
      }
      CHECK(!st.empty() && lists == 0, "something is woven outside the request object or inside a list");
      if (e.kind == '{') { st.back().any = true; st.push_back({e.name, true, false}); symx_cover("created"); }
      else if (e.kind == '}') { CHECK(st.back().woven && st.back().any, "an empty message is created"); st.pop_back(); }
      else {
        CHECK(e.kind == 's' && e.str.size() == 3 && e.str[0] == 'V', "an event that is neither of the body nor a binding value");
        size_t b = (uint8_t)(e.str[1] - '0'); CHECK(b < bs.size(), "unknown binding"); st.back().any = true;
        std::string p; for (auto& o : st) p += o.name; p += e.name;
        CHECK(strEq(p, bs[b].path), "a binding is written to another field"); CHECK(strEq(e.str, bs[b].value), "a binding is written with another value");
        bs[b].used++; order.push_back(b); symx_cover("woven");
      }
    }
  }
  CHECK(st.empty(), "nesting");
  for (auto& b : bs) { CHECK(b.used <= 1, "a binding is written twice"); CHECK((uint8_t)b.used == (uint8_t)(b.dropped ^ 1), "a binding is lost, or written although the body sets its field"); if (!b.used) symx_cover("set by body"); }
  for (size_t i = 0; i < order.size(); i++) for (size_t j = i + 1; j < order.size(); j++) if (bs[order[i]].path == bs[order[j]].path) CHECK(order[i] < order[j], "bindings of one field are reordered");
}
static unsigned baseJobs(int tier) { return NPATH + NPATH * NPATH + NLONG; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); 
  std::vector<std::string> which; char kind = 's'; unsigned n;
  if (job < NPATH) { which.push_back(kPaths[job]); kind = "siuIUdfby"[symx_range("kind", 0, 8)]; n = tier ? 5 : 4; }   // one binding (or none), every kind of body scalar
  else if (job >= NPATH + NPATH * NPATH) { for (auto p : kLong[job - NPATH - NPATH * NPATH]) which.push_back(p); n = tier ? 4 : 3; }
  else { job -= NPATH; which.push_back(kPaths[job % NPATH]); which.push_back(kPaths[job / NPATH]); n = tier ? 5 : 4; unsigned t = symx_range("third", 0, tier ? NPATH : 2); if (t) { which.push_back(kPaths[t - 1]); n--; } }
  if (which.size() == 1 && which[0].empty()) which.clear();
  // body: an object with well-nested content; the names of its fields are symbolic
  std::vector<Ev> body; std::string stack; n = symx_range("events", 0, n);
  { Ev e; e.kind = '{'; body.push_back(e); stack = "{"; }
  for (unsigned i = 0; !stack.empty(); i++) {
    Ev e; unsigned op = i >= n ? 4 : symx_range("op", 0, 4);   // 0 scalar, 1 null, 2 object, 3 list, 4 end
    if (op == 4) { e.kind = stack.back() == '{' ? '}' : ']'; stack.pop_back(); body.push_back(e); continue; }
    std::string name = stack.back() == '[' ? "" : symStr(1, "name");
    if (op == 0) { if (kind == 's' || kind == 'y') { e.kind = kind; e.str = "B" + symStr(1, "bodystr"); } else e = symScalar(kind, ""); }
    else e.kind = op == 1 ? 'n' : op == 2 ? '{' : '[';
    e.name = name; if (op >= 2) stack += e.kind; body.push_back(e);
  }
  weave(which, body, which.size() < 3 && symx_range("report", 0, 1));
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 9 };
static void scaleMain(unsigned job) {
  static const char* const kB[] = {"x", "r", "ax", "ar", "bx", "abx", "aax", "aaaaaaaaaaaax", "bbbbr", "x", "ax", "br", "a", "baaax"};
  std::vector<std::string> which(kB, kB + 14); std::vector<Ev> body; auto ev = [&](char k, const std::string& n) { Ev e; e.kind = k; e.name = n; if (k == 's') e.str = "Bq"; body.push_back(e); };
  unsigned pos = symx_range("pos", 0, 3); std::string sym = symStr(1, "name"); ev('{', "");
  if (job == 0) { size_t d = pos & 1 ? 300 : 20; ev('[', pos & 2 ? sym : "r"); for (size_t i = 1; i < d; i++) ev('[', ""); ev('{', ""); ev('s', "x"); ev('}', ""); for (size_t i = 0; i < d; i++) ev(']', ""); ev('s', pos & 2 ? "x" : sym); }
  else if (job == 4) { size_t d = pos & 1 ? 300 : 140; ev(pos & 2 ? '{' : '[', pos & 2 ? "o" : "r"); for (size_t i = 1; i < d; i++) { ev('{', i % 3 ? "a" : "o"); ev('s', i == 77 ? sym : "x"); } for (size_t i = 1; i < d; i++) { if (i % 2) ev('s', "x"); ev('}', ""); } ev(pos & 2 ? '}' : ']', ""); }
  else if (job == 5) { which.clear(); static const char* const kM[] = {"x", "ax", "bx", "abx", "r", "bar", "aabbx"}; for (size_t i = 0; i < 140; i++) which.push_back(std::string(i % 9 == 8 ? i / 9 : 0, 'b') + kM[i % 7]); ev('{', pos & 1 ? sym : "a"); ev('s', pos & 2 ? sym : "x"); ev('{', "b"); ev('s', "x"); ev('}', ""); ev('}', ""); ev('s', sym); }
  else if (job == 6) {                   // many messages in one, and in one of those
    which.clear(); for (size_t i = 0; i < 128; i++) which.push_back((i % 4 == 3 ? "\x85" : "") + std::string(1, (char)(i + 128)) + "x"); which.push_back("\xf0x"); which.push_back("\x85\xf0x"); size_t at = pos * 40 + 6; 
    for (size_t i = 0; i < 128; i += 3) { ev('{', i / 3 == at / 3 ? sym : std::string(1, (char)(i + 128))); if (i % 2) ev('s', "x"); else if (i == 6) { ev('{', "\x87"); ev('s', "x"); ev('}', ""); ev('{', "\xf0"); ev('}', ""); } ev('}', ""); }
  } else if (job == 7) {                 // many bindings of one message
    which.clear(); for (size_t i = 0; i < 140; i++) which.push_back(i % 5 == 2 ? "r" : i % 7 == 3 ? "a" : "x"); if (pos & 1) ev('s', "a"); ev('s', pos & 2 ? sym : "x"); ev('s', pos & 2 ? "r" : sym);
  } else if (job == 8) {                 // long paths
    which.clear(); static const size_t ls[] = {17, 33, 66, 140}; size_t d = ls[pos]; for (size_t i = 0; i < 3; i++) which.push_back(std::string(d, 'a') + std::string(i * 20, 'b') + "x"); which.push_back(std::string(d / 2, 'a') + "x"); size_t at = symx_range("at", 0, 2) * (d - 1) / 2;
    for (size_t i = 0; i < d; i++) ev('{', i == at ? sym : "a"); if (at) { ev('s', "x"); ev('{', "b"); ev('}', ""); } for (size_t i = 0; i < d; i++) ev('}', "");
  } else if (job == 1) { size_t d = 14, at = pos * 4; for (size_t i = 0; i < d; i++) ev('{', i == at ? sym : "a"); for (size_t i = 0; i < d; i++) { ev('s', i == 3 ? sym : i % 3 ? "o" : "x"); ev('}', ""); } ev('s', "o"); }
  else if (job == 2) { for (size_t i = 0; i < 40; i++) ev('s', i == pos * 13 ? sym : i % 2 ? "o" : "long" + std::to_string(i)); ev('{', "b"); for (size_t i = 0; i < 40; i++) ev(i % 5 ? 's' : 'n', i == 39 - pos * 13 ? sym : "p"); ev('}', ""); }
  else { for (size_t i = 0; i < 16; i++) { ev('{', i == pos * 5 ? sym : i % 2 ? "o" : "b"); ev('s', i % 4 ? "x" : "o"); ev('}', ""); } ev('s', sym); }
  ev('}', ""); weave(which, body, symx_range("report", 0, 1));
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
