// C30: PathMatcherNode used on its own: insertion, duplicates, copies
#include "pathref.h"
#include "grpc_transcoding/path_matcher_node.h"
#include "grpc_transcoding/http_template.h"
#include <algorithm>
#include <memory>
using namespace google::grpc::transcoding; using pref::Seg;
typedef PathMatcherNode Node; typedef PathMatcherNode::PathInfo Info;
struct Ins { std::string method; std::vector<Seg> segs; bool mark; size_t tag; };
static char mem[600]; static void* tag(size_t i) { return &mem[i + 1]; } static size_t idx(void* p) { return p ? (size_t)((char*)p - mem - 1) : 599; }
static std::string symLit(const char* n, size_t len = 1) { std::string s = symStr(len, n); bool ok = true; for (char c : s) ok = ok & (c != '/') & (c != '*'); symx_assume(ok); return s; }
static std::string symPart(const char* n, size_t len = 1) { std::string s = symStr(len, n); bool ok = true; for (char c : s) ok = ok & (c != '/'); symx_assume(ok); return s; }
// shapes: segments of 3 kinds, one '**' at most, only literals after it
static std::vector<std::vector<int>> shapes(int D) {
  std::vector<std::vector<int>> r(1);
  for (int d = 1; d <= D; d++) { int n = 1; for (int i = 0; i < d; i++) n *= 3; for (int c = 0; c < n; c++) { std::vector<int> k; bool ok = true, ds = false; for (int i = 0, x = c; i < d; i++, x /= 3) { int s = x % 3; if (ds && s) ok = false; if (s == 2) ds = true; k.push_back(s); } if (ok) r.push_back(k); } }
  return r;
}
static Info infoOf(const std::vector<Seg>& t, bool single) {
  Info::Builder b; for (auto& s : t) { if (s.kind == pref::LIT) b.AppendLiteralNode(s.lit); else if (s.kind == pref::DSTAR) b.AppendLiteralNode(HttpTemplate::kWildCardPathKey); else if (single) b.AppendSingleParameterNode(); else b.AppendLiteralNode(HttpTemplate::kWildCardPathPartKey); }
  return b.Build();
}
// the same sequence of nodes
static bool sameSegs(const std::vector<Seg>& a, const std::vector<Seg>& b) {
  if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) { if (a[i].kind != b[i].kind) return false; if (a[i].kind == pref::LIT) ok = ok & strEq(a[i].lit, b[i].lit); } return ok;
}
static bool same(const Ins& a, const Ins& b) { return sameSegs(a.segs, b.segs) & strEq(a.method, b.method); }
static void put(Node& n, std::vector<Ins>& l, Ins i, bool single) {
  bool known = false; for (auto& x : l) known = known | same(x, i);
  l.push_back(i); bool fresh = n.InsertPath(infoOf(i.segs, single), i.method, tag(i.tag), i.mark); symx_obs("fresh", fresh);
  CHECK(fresh == !known, "insertion reports a known path as new, or a new one as known"); if (!fresh) symx_cover("duplicate");
}
static void look(const Node& n, const std::vector<Ins>& l, const std::string& m, const std::vector<std::string>& p) {
  PathMatcherLookupResult r; n.LookupPath(p.begin(), p.end(), m, &r); symx_obs("got", idx(r.data)); symx_obs("multiple", r.is_multiple);
  std::vector<bool> h; bool any = false; for (auto& x : l) { bool b = pref::pathMatch(x.segs, p) & pref::methodMatch(x.method, m); h.push_back(b); any = any | b; }
  CHECK((r.data != nullptr) == any, any ? "an inserted path that matches is not found" : "a path is found that was not inserted");
  if (!r.data) { symx_cover("null"); return; }
  symx_cover("found"); size_t g = idx(r.data), at = l.size(); for (size_t i = 0; i < l.size(); i++) if (l[i].tag == g) at = i;
  CHECK(at < l.size(), "the data was never inserted here"); CHECK(h[at], "the data belongs to a path that does not match");
  const Ins& w = l[at]; bool multiple = false, known = false;
  for (size_t j = 0; j < l.size(); j++) {
    int c = pref::prefer(l[j].segs, w.segs); bool eq = same(l[j], w);
    CHECK(!(h[j] & ((c < 0) | ((c == 0) & !strEq(l[j].method, "*") & strEq(w.method, "*")))), "a more specific path was inserted");
    if (j > at) CHECK(!eq, "not the data inserted last for this path"); else { multiple = multiple | (eq & known & l[j].mark); known = known | eq; }
  }
  CHECK(r.is_multiple == multiple, "wrong duplicate mark"); if (r.is_multiple) symx_cover("multiple");
}
static std::string symMethod(const char* n) { std::string s = symStr(1, n); symx_assume((s[0] == 'G') | (s[0] == 'P') | (s[0] == '*')); return s; }
static int depth(int tier) { return tier ? 3 : 2; }
enum { NSCALE = 6 };
static void baseMain(unsigned job) {
  int tier = symx_tier(); auto sh = shapes(depth(tier)); bool single = job & 1; job /= 2; size_t first = job % sh.size(); unsigned mode = job / sh.size();
  Node root; std::unique_ptr<Node> clone; std::vector<Ins> a, b;
  auto make = [&](const std::vector<int>& k, size_t t) { Ins i; i.method = symMethod("method"); i.mark = symx_int("mark", 1); i.tag = t; for (int x : k) i.segs.push_back(Seg{x, x ? "" : symLit("lit")}); return i; };
  Ins x = make(sh[first], 0); put(root, a, x, single);
  size_t np = symx_range("parts", 0, depth(tier) + 1); std::vector<std::string> p; for (size_t i = 0; i < np; i++) p.push_back(symPart("part", mode == 2 && i + 1 == np ? symx_range("len", 0, 2) : 1));
  if (mode == 0) {                       // two more paths, one of which repeats the first up to its method
    put(root, a, make(sh[symx_range("shape", 0, sh.size() - 1)], 1), single); Ins y = x; y.tag = 2; y.method = symMethod("method"); y.mark = symx_int("mark", 1); put(root, a, y, single); look(root, a, "G", p); return;
  }
  if (mode == 1) {                       // a copy is taken, then one of the two changes
    if (symx_range("before", 0, 1)) put(root, a, make({0, 0}, 1), single);
    clone = root.Clone(); b = a; bool second = symx_range("second", 0, 1); Ins y = make(sh[symx_range("shape", 0, sh.size() - 1)], 2); y.mark = symx_range("marked", 0, 1); put(second ? *clone : root, second ? b : a, y, single);
    symx_cover("copy"); look(root, a, "G", p); look(*clone, b, "G", p); return;
  }
  // the copy outlives the original
  put(root, a, make(sh[symx_range("shape", 0, sh.size() - 1)], 1), single); { std::unique_ptr<Node> mid = root.Clone(); clone = mid->Clone(); } symx_cover("copy"); look(*clone, a, "G", p);
}
// ---- large inputs
static std::string num(size_t i) { return std::to_string(i); }
static void scaleMain(unsigned job) {
  std::unique_ptr<Node> root(new Node), clone; std::vector<Ins> a; size_t t = 0; std::vector<std::string> p; std::string m = "G";
  auto add = [&](std::vector<Seg> s, const std::string& method = "G", bool mark = true) { put(*root, a, Ins{method, s, mark, t++}, false); };
  auto chain = [&](size_t n) { std::vector<Seg> s; for (size_t i = 0; i < n; i++) s.push_back(Seg{pref::LIT, "s" + num(i)}); return s; };
  if (job == 0) {                        // deep
    static const size_t ds[] = {9, 17, 70}; size_t d = ds[symx_range("depth", 0, 2)]; auto c = chain(d); add(c); c.push_back(Seg{pref::LIT, symLit("lit")}); add(c); c.back() = Seg{pref::STAR, ""}; add(c); auto e = chain(d / 2); e.push_back(Seg{pref::DSTAR, ""}); add(e); for (int i = 0; i < 8; i++) e.push_back(Seg{pref::LIT, "t" + num(i)}); add(e);
    for (auto& s : chain(d)) p.push_back(s.lit); size_t at = symx_range("at", 0, d); if (at < d) p[at] = "s" + symPart("byte"); for (size_t i = 0, n = symx_range("tail", 0, 2); i < n; i++) p.push_back(symPart("part"));
  } else if (job == 1) {                 // wide
    for (size_t i = 0; i < 24; i++) { auto s = chain(1); s[0].lit = "r" + num(i); if (i % 3 == 0) s.push_back(Seg{pref::STAR, ""}); add(s); } add({Seg{pref::DSTAR, ""}}); p.push_back("r" + symPart("part", symx_range("len", 1, 2))); if (symx_range("more", 0, 1)) p.push_back(symPart("part"));
  } else if (job == 2) {                 // many methods
    auto s = chain(2); for (size_t i = 0; i < 20; i++) add(s, "M" + num(i)); add(s, "*"); s[1] = Seg{pref::STAR, ""}; add(s, "M7"); for (auto& x : chain(2)) p.push_back(x.lit); m = "M" + symStr(symx_range("len", 0, 2), "qmethod"); bool ok = true; for (char c : m) ok = ok & (c != ':'); symx_assume(ok); if (symx_range("star", 0, 1)) p[1] = symPart("byte");
  } else if (job >= 4) {                 // more than 256 children or methods
    for (size_t i = 0; i < 262; i++) { auto s = chain(2); if (job == 4) s[1].lit = "r" + num(i); add(s, job == 4 ? "G" : "M" + num(i), i % 2); }
    static const char* const ks[] = {"", "6", "13", "25", "26"}; std::string k = ks[symx_range("stem", 0, 4)] + symPart("byte"); for (auto& x : chain(2)) p.push_back(x.lit); if (job == 4) p[1] = "r" + k; else m = "M" + k; symx_assume(m.find(':') == std::string::npos);
  } else {                               // many duplicates, '**' over many segments
    auto e = chain(1); e.push_back(Seg{pref::DSTAR, ""}); e.push_back(Seg{pref::LIT, std::string(300, 'l') + symLit("lit")}); for (size_t i = 0, n = symx_range("again", 0, 12); i < (n == 12 ? 261 : n); i++) add(e, "G", i == 7); add(e, "*", false); p.push_back("s0"); for (size_t i = 0, n = symx_range("covered", 0, 1) ? 280 : 1; i < n; i++) p.push_back("c"); p.push_back(std::string(300, 'l') + symPart("byte"));
  }
  clone = root->Clone(); look(*root, a, m, p); root.reset(); look(*clone, a, m, p);
}
unsigned symx_jobs(int tier) { return NSCALE + shapes(depth(tier)).size() * 6; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
