// C01 / C02 / (template part of) C27: HttpTemplate::Parse
#include "tmplref.h"
#include "grpc_transcoding/http_template.h"
using google::grpc::transcoding::HttpTemplate;
#ifndef PROP
#define PROP 1
#endif
static void checkOne(const std::string& text) {
  auto t = HttpTemplate::Parse(text);
  symx_obs("accepted", t != nullptr);
  ref::Tmpl r = ref::parse(text);
#if PROP == 1
  CHECK((t != nullptr) == r.ok, "acceptance differs from the grammar");
  if (r.ok) symx_cover("accepted"); else symx_cover("rejected");
#endif
#if PROP == 2
  if (!t || !r.ok) return;
  symx_cover("accepted");
  const auto& sg = t->segments();
  CHECK(sg.size() == r.segs.size(), "number of segments");
  for (size_t i = 0; i < sg.size(); i++) { obsStr("seg", sg[i]); CHECK(strEq(sg[i], r.segs[i]), "segment text"); }
  obsStr("verb", t->verb());
  CHECK(strEq(t->verb(), r.verb), "verb");
  auto& vs = t->Variables();
  CHECK(vs.size() == r.vars.size(), "number of variables");
  bool seenWild = false; size_t wildAt = sg.size();
  for (size_t i = 0; i < sg.size(); i++) if (!seenWild && r.segs[i] == "**") { seenWild = true; wildAt = i; }
  int n = (int)r.segs.size();
  for (size_t i = 0; i < vs.size(); i++) {
    symx_cover("variable");
    const auto& v = vs[i]; const auto& w = r.vars[i];
    symx_obs("start", (uint64_t)(int64_t)v.start_segment); symx_obs("end", (uint64_t)(int64_t)v.end_segment); symx_obs("wild", v.has_wildcard_path);
    bool after = (size_t)w.start > wildAt;         // begins behind the '**'
    CHECK(v.start_segment == (after ? w.start - n - 1 : w.start), "variable start");
    CHECK(v.end_segment == ((w.wild || after) ? w.end - n - 1 : w.end), "variable end");
    CHECK(v.has_wildcard_path == w.wild, "has_wildcard_path");
    CHECK(v.field_path.size() == w.path.size(), "field path length");
    for (size_t j = 0; j < w.path.size(); j++) { obsStr("id", v.field_path[j]); CHECK(strEq(v.field_path[j], w.path[j]), "field path element"); }
  }
#endif
}
// pool of longer valid templates; a window of symbolic bytes replaces or is inserted at every position
static const char* const kPool[] = {
    "/shelves/{shelf.name=s/*}/books/{b=**}:get", "/v1/{name=projects/*/locations/**/ops}/end", "/a/b/c/d/e/f/g/h/i/j/{x}/{y.z.w=k/l/*}", "/**/lit/tail:verb", "/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/{bbbbbbbbbbbbbbbbbbbbbb=cccccccccccccccccccc/*}",
};
enum { NPOOL = 5 };
static unsigned fullLen(int tier) { return tier ? 8 : 6; }
// job layout: [0, L] fully symbolic of length L-j; then pool windows; then structured shapes
static unsigned nWin(int tier) { return NPOOL * 2 * (tier ? 2 : 1); }
static const char* const kItem[] = {"lit", "*", "**", "{v}", "{v=*}", "{v=**}", "{v.w=lit/*}", "{v=lit/**}", "{v=**/lit}", "{v.w.u=lit}", "{v=*/*}", "{v=**/lit/lit}"};
enum { NITEM = 12 };
static unsigned baseJobs(int tier) { return fullLen(tier) + 1 + nWin(tier) + NITEM; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); unsigned L = fullLen(tier);
  if (job <= L) { checkOne(symStr(L - job, "template")); return; }
  job -= L + 1;
  if (job < nWin(tier)) {
    unsigned w = 1 + job / (NPOOL * 2); bool insert = (job / NPOOL) % 2; std::string s = kPool[job % NPOOL];
    unsigned pos = symx_range("pos", 0, (unsigned)(s.size() - (insert ? 0 : w)));
    std::string win = symStr(w, "win");
    checkOne(s.substr(0, pos) + win + s.substr(pos + (insert ? 0 : w)));
    return;
  }
  job -= nWin(tier);
  unsigned n = symx_range("items", 1, tier ? 4 : 3);
  std::string s;
  for (unsigned i = 0; i < n; i++) {
    unsigned k = i == 0 ? job : (unsigned)symx_range("item", 0, NITEM - 1);
    s += "/";
    for (const char* p = kItem[k]; *p; ++p) {
      s += *p;
      if (p[0] == 't' && p[-1] == 'i') { std::string b = symStr(1, "c"); symx_assume(b[0] != '/' && b[0] != ':' && b[0] != '}'); s += b; }
    }
  }
  if (symx_range("verb", 0, 1)) { s += ":v"; s += symStr(1, "verb"); }
  checkOne(s);
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 10 };
static std::string rep(size_t n, char c) { return std::string(n, c); }
static void scaleMain(unsigned job) {
  std::string s;
  if (job == 0) { for (int i = 0; i < 40; i++) s += "/s" + std::to_string(i); s += "/**/t:get"; }
  else if (job == 1) s = "/" + rep(300, 'l') + "/{" + rep(270, 'v') + "=" + rep(260, 'm') + "/*}:" + rep(300, 'w');
  else if (job == 2) for (int i = 0; i < 20; i++) s += "/{v" + std::to_string(i) + (i % 3 ? "" : "=*") + "}";
  else if (job == 3) { s = "/{f0"; for (int i = 1; i < 40; i++) s += ".f" + std::to_string(i); s += "}/b"; }
  else if (job == 4) { s = "/{v=a0"; for (int i = 1; i < 40; i++) s += i % 4 ? "/a" + std::to_string(i) : "/*"; s += "}/{w=**}/c"; }
  else if (job == 5) { for (int i = 0; i < 12; i++) s += "/{v" + std::to_string(i) + ".w=x/*}"; s += "/**"; for (int i = 0; i < 12; i++) s += i % 2 ? "/{e" + std::to_string(i) + "=y/z}" : "/k"; }
  else if (job == 7) for (int i = 0; i < 140; i++) s += "/{v" + std::to_string(i) + (i % 3 ? ".w.x" : "=*/b") + "}";
  else if (job == 8) { s = "/{f0"; for (int i = 1; i < 270; i++) s += ".f" + std::to_string(i); s += "=" + rep(2100, 'q'); for (int i = 0; i < 140; i++) s += "/*"; s += "}:" + rep(2100, 'w'); }
  else if (job == 9) { s = "/**"; for (int i = 0; i < 540; i++) s += "/t" + std::to_string(i); s += "/{z=" + rep(1100, 'z') + "}"; }
  else { for (int i = 0; i < 270; i++) s += "/a"; s += "/{v=**}/{u=b}/c"; }
  static const unsigned at[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; unsigned k = symx_range("pos", 0, 29); size_t pos = k < 10 ? at[k] : k < 20 ? s.size() * (k - 9) / 11 : s.size() - (k - 20);
  bool ins = symx_range("insert", 0, 1); if (!ins && pos == s.size()) symx_stop();
  std::string win = symStr(1, "win"); checkOne(s.substr(0, pos) + win + s.substr(pos + (ins ? 0 : 1)));
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
