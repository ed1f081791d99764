// C27: no entry point reads or writes out of bounds, throws, aborts or loops for ever, whatever the bytes
#include "common.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"
using namespace google::grpc::transcoding;
namespace pbio = google::protobuf::io;
typedef const char* M;
static char tagmem[4];
static const char* const kTables[][4] = {
    {"/", "/a/*", "/**:v", "/a/{x=**}/b"}, {"/{x}/{y=a/*}", "/a/{x=b/**}:v", "/*/*/c:w", "/{x=**}/{y=a/b}"}, {"/{a.b=*}", "/**/a/{z=b}", "/a:", ""}, {"/{a=*/**}", "/*:%", "/**/{z=a/b/c}:v", "/a"},
};
static void lookup(PathMatcher<M>& pm, const std::string& method, const std::string& path, const std::string& q) {
  std::vector<VariableBinding> vb; std::string body;
  M r = pm.Lookup(method, path, q, &vb, &body); symx_obs("found", r != nullptr); symx_cover(r ? "found" : "null");
  for (auto& b : vb) { obsStr("v", b.value); for (auto& f : b.field_path) obsStr("f", f); }
  CHECK((pm.Lookup(method, path) != nullptr) == (r != nullptr), "the lookup forms disagree");
}
static std::unique_ptr<PathMatcher<M>> build(const char* const* t, int spec, bool plus, bool unreg) {
  PathMatcherBuilder<M> b; static const UrlUnescapeSpec sp[] = {UrlUnescapeSpec::kAllCharactersExceptReserved, UrlUnescapeSpec::kAllCharactersExceptSlash, UrlUnescapeSpec::kAllCharacters};
  b.SetUrlUnescapeSpec(sp[spec]); b.SetQueryParamUnescapePlus(plus); b.SetMatchUnregisteredCustomVerb(unreg);
  for (int i = 0; i < 4; i++) b.Register("GET", t[i], "b", std::unordered_set<std::string>{"k"}, &tagmem[1]);
  return b.Build();
}
struct Src : TranscoderInputStream {
  std::vector<unsigned char> buf; int64_t arrived = 0, pos = 0, cut = -1; bool ended = false;
  bool Next(const void** d, int* size) override {
    if (pos >= arrived) { *size = 0; return !(ended && arrived == (int64_t)buf.size()); }
    int64_t e = cut > pos && cut < arrived ? cut : arrived; *d = buf.data() + pos; *size = (int)(e - pos); pos = e; return true;
  }
  void BackUp(int n) override { CHECK(n >= 0 && n <= pos, "illegal BackUp"); pos -= n; }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { return arrived - pos; }
  bool Finished() const override { return ended && arrived == (int64_t)buf.size(); }
};
static unsigned rl(int tier) { return tier ? 11 : 7; }
static void reader(int tier, size_t n) {
  Src s; s.buf.resize(n); if (n) symx_bytes(s.buf.data(), n, "stream");
  s.cut = symx_range("cut", 0, n); bool frameApi = n & 1;
  MessageReader r(&s);
  for (int st = 0; st < 2; st++) {
    if (st) { s.arrived = n; s.ended = true; } else s.arrived = symx_range("arrived", 0, n);
    for (int k = 0;; k++) {
      CHECK(k <= (int)n, "polling does not end");
      std::unique_ptr<pbio::ZeroCopyInputStream> m;
      if (frameApi) m = r.NextMessageAndGrpcFrame().message; else m = r.NextMessage();
      if (!m) break;
      const void* d; int c; unsigned sum = 0; int guard = 0;
      while (m->Next(&d, &c)) { CHECK(++guard < 40, "a message does not end"); for (int i = 0; i < c; i++) sum += ((const unsigned char*)d)[i]; }
      symx_obs("sum", sum); symx_cover("message");
    }
    symx_obs("code", (uint64_t)r.Status().code()); symx_obs("fin", r.Finished());
  }
  CHECK(r.Finished(), "the reader does not finish although its input has ended");
}
struct MsgSrc : MessageStream {
  std::vector<std::string> m; size_t i = 0;
  bool NextMessage(std::string* o) override { if (i >= m.size()) return false; *o = m[i++]; return true; }
  bool Finished() const override { return i >= m.size(); }
  absl::Status Status() const override { return absl::OkStatus(); }
};
static const unsigned NT = 4;
// jobs: A tables x path length; Q tables x query; T template then path; U decoding; R reader
static unsigned pl(int tier) { return tier ? 6 : 5; }
static unsigned tl(int tier) { return tier ? 6 : 5; }
static unsigned ql(int tier) { return tier ? 5 : 4; }
static unsigned baseJobs(int tier) { return NT * (pl(tier) + 1) + ql(tier) + 1 + tl(tier) + 1 + 4 + rl(tier) + 1; }
static void baseMain(unsigned job) {
  int tier = symx_tier();
  if (job < NT * (pl(tier) + 1)) {        // any request path, any method
    unsigned len = pl(tier) - job / NT; unsigned opt = symx_range("opt", 0, len < pl(tier) ? 3 : 1);
    auto pm = build(kTables[job % NT], opt % 3, opt & 1, (opt >> 1) ^ (opt & 1));
    std::string p = symStr(len, "path"); if (symx_range("slash", 0, 1) && len) { symx_assume(p[0] == '/'); lookup(*pm, "GET", p, ""); } else if (len < pl(tier)) lookup(*pm, symStr(opt, "method"), "/a/" + p, "");
    return;
  }
  job -= NT * (pl(tier) + 1);
  if (job <= ql(tier)) { static const char* const t[4] = {"/a", "/", "/b", "/c"}; bool plus = symx_range("plus", 0, 1); auto pm = build(t, 0, plus, false); lookup(*pm, "GET", "/a", symStr(ql(tier) - job, "query")); return; }
  job -= ql(tier) + 1;
  if (job <= tl(tier)) {                  // any template, then a lookup of any short path, with and without the leading slash
    unsigned n = tl(tier) - job; PathMatcherBuilder<M> b; bool ok = b.Register("GET", symStr(n, "template"), "", &tagmem[1]); symx_obs("accepted", ok); symx_cover(ok ? "accepted" : "rejected");
    auto pm = b.Build(); if (!ok) return;
    static const char* const ps[] = {"", "/", "/a/b/c", "//", "/a:b", "x", ":", "/%2", "/a/b:c?d"}; lookup(*pm, "GET", ps[symx_range("p", 0, 8)], "a=%2&b");
    return;
  }
  job -= tl(tier) + 1;
  if (job < 4) {
    static const UrlUnescapeSpec sp[] = {UrlUnescapeSpec::kAllCharactersExceptReserved, UrlUnescapeSpec::kAllCharactersExceptSlash, UrlUnescapeSpec::kAllCharacters};
    if (job == 3) {                         // the byte stream over messages
      MsgSrc src; unsigned k = symx_range("msgs", 0, 3); for (unsigned i = 0; i < k; i++) src.m.push_back(symStr(symx_range("len", 0, 2), "msg"));
      auto s = src.CreateInputStream(); const void* d; int n; unsigned sum = 0;
      for (int g = 0; s->Next(&d, &n); g++) { CHECK(g < 8, "reading does not end"); for (int i = 0; i < n; i++) sum += ((const unsigned char*)d)[i]; int bu = symx_range("backup", 0, n + 1); if (g < 3) s->BackUp(bu); }
      symx_obs("sum", sum); return;
    }
    size_t n = symx_range("n", 0, tier ? 7 : 6); char* buf = new char[n]; if (n) symx_bytes(buf, n, "escaped"); absl::string_view s(buf, n); obsStr("out", UrlUnescapeString(s, sp[job], symx_range("plus", 0, 1))); symx_obs("is", IsUrlEscapedString(s, sp[job], false)); symx_cover("decoded");
    return;
  }
  reader(tier, rl(tier) - (job - 4));
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 6 };
static std::string rep(size_t n, const char* t) { std::string s; while (n--) s += t; return s; }
static void scaleMain(unsigned job) {
  static const size_t ls[] = {17, 64, 129, 257}; size_t n = ls[symx_range("size", 0, 3)]; auto put = [](std::string s) { unsigned k = symx_range("pos", 0, 5); size_t pos = k < 2 ? k : k == 2 ? s.size() / 2 : s.size() - (k - 3); s.insert(pos, symStr(1, "byte")); return s; };
  if (job == 0) { auto pm = build(kTables[symx_range("table", 0, 3)], 0, false, true); std::string p = "/a" + put(symx_range("long", 0, 1) ? rep(n, "/b") : "/" + rep(n, "%41")); if (symx_range("end", 0, 1)) p += ":v?" + rep(n, "/"); lookup(*pm, "GET", p, ""); }
  else if (job == 1) { static const char* const t[4] = {"/a", "/", "/b", "/c"}; auto pm = build(t, 0, symx_range("plus", 0, 1), false); static const char* const u[] = {"a.b=%41+&", "=", "&", "x.", "%2"}; lookup(*pm, "GET", "/a", put(rep(n, u[symx_range("unit", 0, 4)]))); }
  else if (job == 2) {
    static const char* const u[][2] = {{"/a", ""}, {"/{v=*}", "/**"}, {"/*", ":v"}, {"/{a.b=c/*}", ""}}; unsigned k = symx_range("unit", 0, 4); std::string t = k < 4 ? rep(n, u[k][0]) + u[k][1] : "/{" + rep(n, "f.") + "g=" + rep(n, "a/") + "b}"; PathMatcherBuilder<M> b; bool ok = b.Register("GET", put(t), rep(n, "b"), &tagmem[1]); symx_cover(ok ? "accepted" : "rejected");
    auto pm = b.Build(); lookup(*pm, "GET", k < 4 ? rep(n, k == 3 ? "/c/x" : "/a") + "/q" + (k == 2 ? ":v" : "") : "/" + rep(n, "a/") + "b", "");
  } else if (job == 3) { static const UrlUnescapeSpec sp[] = {UrlUnescapeSpec::kAllCharactersExceptReserved, UrlUnescapeSpec::kAllCharactersExceptSlash, UrlUnescapeSpec::kAllCharacters}; static const char* const u[] = {"%41", "%", "%2", "a", "%2F"}; std::string x = put(rep(n, u[symx_range("unit", 0, 4)])); char* buf = new char[x.size()]; memcpy(buf, x.data(), x.size()); absl::string_view s(buf, x.size()); unsigned m = symx_range("mode", 0, 2); obsStr("out", UrlUnescapeString(s, sp[m], symx_range("plus", 0, 1))); IsUrlEscapedString(s, sp[m], false); symx_cover("decoded"); delete[] buf; }
  else if (job == 4) { Src s; std::string d; for (size_t i = 0; i < 30; i++) { size_t l = i % 4 ? i % 4 : n; d += std::string("\0\0\0", 3) + (char)(l >> 8) + (char)l + std::string(l, 'p'); } d = put(d); s.buf.assign(d.begin(), d.end()); s.cut = n; s.arrived = s.buf.size(); s.ended = true; MessageReader r(&s); for (int g = 0;; g++) { CHECK(g < 3000, "polling does not end"); auto m = r.NextMessage(); if (!m) break; const void* p; int c; unsigned sum = 0; int guard = 0; while (m->Next(&p, &c)) { CHECK(++guard < 40, "a message does not end"); for (int i = 0; i < c; i += 16) sum += ((const unsigned char*)p)[i]; } symx_obs("sum", sum); symx_cover("message"); } CHECK(r.Finished(), "the reader does not finish although its input has ended"); }
  else { MsgSrc src; for (size_t i = 0; i < n; i++) src.m.push_back(std::string(i % 7 * (i % 5), 'm')); src.m[3] += symStr(1, "msg"); auto s = src.CreateInputStream(); const void* d; int c; unsigned sum = 0; for (int g = 0; s->Next(&d, &c); g++) { CHECK(g < 2000, "reading does not end"); for (int i = 0; i < c; i++) sum += ((const unsigned char*)d)[i]; if (c > 3 && g % 3 == 0) s->BackUp(c / 2); } symx_obs("sum", sum); }
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
