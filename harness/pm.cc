// C04..C12 and the lookup part of C27: PathMatcherBuilder / PathMatcher
#include "pathref.h"
#include <thread>
#include "grpc_transcoding/path_matcher.h"
using namespace google::grpc::transcoding;
using pref::Reg; using pref::Seg;
#ifndef PROP
#define PROP 4
#endif
typedef const char* M;
static char tagmem[300];
static M tag(size_t i) { return &tagmem[i + 1]; }
static size_t idx(M m) { size_t i = 0; while (i < 298 && m != &tagmem[i + 1]) i++; return i; }
static bool plainLit(const std::string& s) { bool ok = true; for (char c : s) ok = ok & (c != '/') & (c != ':') & (c != '}') & (c != '?'); return ok & (s[0] != '*') & (s[0] != '{'); }
static std::string symLit(size_t n, const char* name) { std::string s = symStr(n, name); symx_assume(plainLit(s)); return s; }
// request segment: any byte but the separators the normaliser looks for
static std::string symPart(size_t n, const char* name) { std::string s = symStr(n, name); bool ok = true; for (char c : s) ok = ok & (c != '/') & (c != ':') & (c != '?'); symx_assume(ok); return s; }
static std::string textOf(const Reg& r) {
  std::string s;
  for (auto& g : r.segs) { s += '/'; s += g.kind == pref::LIT ? g.lit : g.kind == pref::STAR ? "*" : "**"; }
  if (r.segs.empty()) s = "/";
  if (!r.verb.empty()) { s += ':'; s += r.verb; }
  return s;
}
// text with variables spanning [a,b); vars must be disjoint and in order
static std::string textWithVars(const Reg& r, bool shortForm) {
  std::string s;
  for (size_t i = 0; i < r.segs.size(); i++) {
    s += '/';
    for (auto& v : r.vars) if (v.a == i) { s += '{'; for (size_t k = 0; k < v.path.size(); k++) { if (k) s += '.'; s += v.path[k]; } if (shortForm && v.b == v.a + 1 && r.segs[i].kind == pref::STAR) goto close; s += '='; break; }
    s += r.segs[i].kind == pref::LIT ? r.segs[i].lit : r.segs[i].kind == pref::STAR ? "*" : "**";
   close:
    for (auto& v : r.vars) if (v.b == i + 1) s += '}';
  }
  if (r.segs.empty()) s = "/";
  if (!r.verb.empty()) { s += ':'; s += r.verb; }
  return s;
}
// all template shapes of at most D segments: code -> kinds, or false when the code is not a valid shape
static std::vector<std::vector<int>> shapes(int D) {
  std::vector<std::vector<int>> out, cur; cur.push_back({});
  for (int d = 0; d <= D; d++) {
    std::vector<std::vector<int>> nx;
    for (auto& c : cur) {
      out.push_back(c);
      bool w = false; for (int k : c) w = w || k == 2;
      for (int k = 0; k < (w ? 1 : 3); k++) { auto e = c; e.push_back(k); nx.push_back(e); }
    }
    cur = nx;
  }
  return out;
}
static void fill(Reg& r, const std::vector<int>& k, const char* name, size_t litLen = 1) { for (int x : k) r.segs.push_back(Seg{x, x == 0 ? symLit(litLen, name) : ""}); }
static std::string joinPath(const std::vector<std::string>& p) { std::string s; for (auto& x : p) { s += '/'; s += x; } return s.empty() ? "/" : s; }
// the answer of the reference and the comparison with what the lookup returned
static void checkAnswer(const std::vector<Reg>& rs, const std::string& m, const std::string& verb, const std::vector<std::string>& parts, M got, bool exactOnly) {
  std::vector<bool> hv; bool any = false;
  bool h[64];
  for (size_t i = 0; i < rs.size(); i++) { h[i] = pref::hits(rs[i], m, verb, parts); any = any | h[i]; }
  symx_obs("result", got == nullptr ? 0 : idx(got) + 1);
  auto answer = [&](size_t i) {
    bool ok = h[i];
    for (size_t j = 0; j < rs.size(); j++) if (j != i && rs[j].accepted) ok = ok & !(h[j] & (pref::better(rs[j], rs[i]) | pref::sameRoute(rs[j], rs[i])));
    return ok;
  };
  if (got == nullptr) {
    symx_cover("null");
    bool some = false; for (size_t i = 0; i < rs.size(); i++) if (rs[i].accepted) some = some | answer(i);
    CHECK(!some, "null although a registered template matches");
  } else {
    size_t g = idx(got); bool hg = false, ag = false;
    symx_cover("found");
    for (size_t i = 0; i < rs.size(); i++) if (i == g) { hg = h[i]; ag = answer(i); }
    CHECK(hg, "the returned method's template does not match");
    if (!exactOnly) CHECK(ag, "the returned method is not the most specific match, or is a duplicate");
  }
}
static std::unordered_set<std::string> sysSet(const Reg& r) { return std::unordered_set<std::string>(r.sys.begin(), r.sys.end()); }


static bool sameBindings(const std::vector<VariableBinding>& a, const std::vector<VariableBinding>& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].field_path.size() != b[i].field_path.size()) return false;
    for (size_t j = 0; j < a[i].field_path.size(); j++) ok = ok & strEq(a[i].field_path[j], b[i].field_path[j]);
    ok = ok & strEq(a[i].value, b[i].value);
  }
  return ok;
}
static void obsBindings(const std::vector<VariableBinding>& v) { for (auto& b : v) { for (auto& f : b.field_path) obsStr("f", f); obsStr("v", b.value); } }
static void checkBindings(const std::vector<VariableBinding>& got, const std::vector<VariableBinding>& want) {
  obsBindings(got);
  CHECK(got.size() == want.size(), "number of bindings");
  for (size_t i = 0; i < got.size(); i++) {
    CHECK(got[i].field_path.size() == want[i].field_path.size(), "length of a binding's field path");
    for (size_t j = 0; j < got[i].field_path.size(); j++) CHECK(strEq(got[i].field_path[j], want[i].field_path[j]), "binding field path");
    CHECK(strEq(got[i].value, want[i].value), "binding value");
  }
}
static std::vector<VariableBinding> pathBindings(const Reg& r, const std::vector<std::string>& p, int mode) {
  std::vector<VariableBinding> w;
  for (auto& v : r.vars) { VariableBinding b; b.field_path = v.path; b.value = pref::value(r, v, p, mode); w.push_back(b); }
  return w;
}
static std::vector<std::string> splitAt(const std::string& s, char d) {
  std::vector<std::string> o; std::string cur;
  for (char c : s) if (c == d) { o.push_back(cur); cur.clear(); } else cur += c;
  o.push_back(cur); return o;
}
static std::vector<VariableBinding> queryBindings(const std::string& q, const std::vector<std::string>& sys, bool plus) {
  std::vector<VariableBinding> w;
  for (auto& piece : splitAt(q, '&')) {
    size_t e = 0; while (e < piece.size() && piece[e] != '=') e++;
    if (e == 0 || e == piece.size()) continue;
    std::string name = piece.substr(0, e);
    bool skip = false; for (auto& s : sys) skip = skip | strEq(s, name);
    if (skip) continue;
    VariableBinding b; b.field_path = splitAt(name, '.'); b.value = pref::decode(piece.substr(e + 1), 2, plus); w.push_back(b);
  }
  return w;
}
#if PROP == 4 || PROP == 5
// ---- C04, C05: sets and orders of registrations, all shapes; literal and request bytes symbolic
// part 0: two registrations, depth <= 3, one-byte segments; part 1: three registrations; part 2: two registrations, depth <= 2, segments of 0..2 bytes
// part 3: three registrations of depth 1-3 from a list chosen so that lookups must back out of more than one node
struct Part { int regs, depth, parts; bool lens; int lo = 0; };
static Part partOf(int tier, unsigned k) {
  static const Part q[4] = {{2, 3, 4, false}, {3, 2, 3, false}, {2, 2, 3, true}, {3, 0, 4, false, 3}}, t[4] = {{2, 4, 5, false}, {3, 3, 4, false}, {3, 2, 3, true}, {3, 0, 5, false, 2}};
  return tier ? t[k] : q[k];
}
static std::vector<std::vector<int>> partShapes(const Part& c) {
  if (c.depth) return shapes(c.depth);
  std::vector<std::vector<int>> v = {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}, {0, 0, 2}, {0, 2}, {0, 2, 0}, {2}};
  if (symx_tier()) for (auto& x : std::vector<std::vector<int>>{{0, 1, 2}, {0, 0, 0, 0}, {0, 0, 1, 0}, {0, 1, 1, 0}}) v.push_back(x);
  return v;
}
static unsigned baseJobs(int tier) { unsigned n = 0; for (int k = 0; k < 4; k++) n += partShapes(partOf(tier, k)).size(); return n; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); unsigned k = 0; std::vector<std::vector<int>> sh;
  for (;; k++) { sh = partShapes(partOf(tier, k)); if (job < sh.size()) break; job -= sh.size(); }
  Part c = partOf(tier, k); std::vector<Reg> rs(c.regs);
  for (int i = 0; i < c.regs; i++) {
    size_t x = i == 0 ? sh.size() - 1 - job : symx_range("shape", 0, sh.size() - 1);
    if (c.lo) rs[i].method = "G"; else rs[i].method = symStr(1, "method"); if (!c.lo) { char m = rs[i].method[0]; symx_assume((m == 'G') | (m == 'P') | (m == '*')); } fill(rs[i], sh[x], "lit", c.lens ? (i == 0 ? 2 : 1) : 1);
  }
  PathMatcherBuilder<M> b;
  for (int i = 0; i < c.regs; i++) {
    // C05: the first wildcard of registration i is bound to a variable of its own
    if (PROP == 5) for (size_t k = 0; k < rs[i].segs.size(); k++) if (rs[i].segs[k].kind != pref::LIT) { rs[i].vars.push_back(pref::Var{{std::string("x") + char('0' + i)}, k, k + 1}); break; }
    CHECK(b.Register(rs[i].method, textWithVars(rs[i], false), PROP == 5 ? std::string(1, char('0' + i)) : "", tag(i)), "registration of a valid template failed");
  }
  auto pm = b.Build();
  size_t np = symx_range("parts", c.lo, c.parts); std::vector<std::string> p;
  for (size_t i = 0; i < np; i++) p.push_back(symPart(c.lens ? symx_range("len", i + 1 < np ? 0 : 1, 2) : 1, "part"));
  M got; std::vector<VariableBinding> vb; std::string body;
  if (PROP == 5) got = pm->Lookup("G", joinPath(p), "", &vb, &body); else got = pm->Lookup("G", joinPath(p));
  checkAnswer(rs, "G", "", p, got, PROP == 4);
  if (PROP == 5 && got) { size_t g = idx(got); CHECK(strEq(body, std::string(1, char('0' + g))), "body field path of another registration"); checkBindings(vb, pathBindings(rs[g], p, 0)); }
}
#endif

// parses "/a/*/**:v" where 'L' stands for a fresh literal
static Reg regOf(const char* t, const char* method = "GET") {
  Reg r; r.method = method;
  for (const char* p = t; *p;) {
    if (*p == '/') { ++p; continue; }
    if (*p == ':') { r.verb = p + 1; break; }
    std::string s; while (*p && *p != '/' && *p != ':') s += *p++;
    r.segs.push_back(s == "*" ? Seg{pref::STAR, ""} : s == "**" ? Seg{pref::DSTAR, ""} : s == "L" ? Seg{pref::LIT, symLit(1, "lit")} : Seg{pref::LIT, s});
  }
  return r;
}
static pref::Var varOf(const char* path, size_t a, size_t b) { return pref::Var{splitAt(path, '.'), a, b}; }

#if PROP == 6
// ---- C06: methods and verbs are arbitrary byte strings
static const char* const kShape[] = {"/*", "/**", "/L", "/L/*", "/**/L"};
static unsigned baseJobs(int tier) { return (tier ? 5 : 2) * 6; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); unsigned ns = tier ? 5 : 2;
  size_t n = 2; std::vector<Reg> rs;
  for (size_t i = 0; i < n; i++) {
    Reg r = regOf(kShape[i == 0 ? job / 6 : symx_range("shape", 0, ns - 1)]);
    r.method = symStr(i == 0 ? 1 + job % 2 : tier ? symx_range("mlen", 1, 2) : 1, "method");
    size_t vl = i == 0 ? job / 2 % 3 : symx_range("vlen", 0, tier ? 2 : 1);
    r.verb = symStr(vl, "verb"); for (char c : r.verb) symx_assume((c != '/') & (c != ':') & (c != '}') & (c != '?'));
    rs.push_back(r);
  }
  bool unreg = symx_range("unregistered", 0, 1);
  PathMatcherBuilder<M> b; b.SetMatchUnregisteredCustomVerb(unreg);
  std::vector<std::string> verbs;
  for (size_t i = 0; i < n; i++) { CHECK(b.Register(rs[i].method, textOf(rs[i]), "", tag(i)), "registration failed"); if (!rs[i].verb.empty()) verbs.push_back(rs[i].verb); }
  auto pm = b.Build();
  std::string method = symStr(symx_range("qmlen", 1, 2), "qmethod");
  size_t np = symx_range("parts", 1, tier ? 2 : 1); std::string path;
  for (size_t i = 0; i < np; i++) path += "/" + symPart(tier ? symx_range("plen", 0, 1) : 1, "part");
  unsigned sl = symx_range("suffix", 0, 3); if (sl) path += ":" + symPart(sl - 1, "qverb");
  M got = pm->Lookup(method, path);
  pref::Norm q = pref::normalise(path, verbs, unreg);
  if (!q.verb.empty()) symx_cover("verb");
  checkAnswer(rs, method, q.verb, q.parts, got, false);
}
#endif

#if PROP == 7
// ---- C07: arbitrary request path bytes
static const char* const kSet[][7] = {{"/", "/*", "/*/*", "/*/*/*", "/*:v", "/*/*:v", nullptr}, {"/", "/**", "/**:v", "/a/*", nullptr}, {"/**/a", "/*/a:v", "/a/*", "/:v", nullptr}};
enum { NSET = 3 };
static unsigned mlen(int tier) { return tier ? 7 : 5; }
static unsigned blen(int tier) { return tier ? 5 : 4; }
static unsigned baseJobs(int tier) { return NSET * 2 * ((mlen(tier) + 2) + (blen(tier) + 1)); }
static void baseMain(unsigned job) {
  int tier = symx_tier(); unsigned set = job % NSET; bool unreg = (job / NSET) % 2; job /= NSET * 2;
  bool bind = job >= mlen(tier) + 2; unsigned len = bind ? blen(tier) + 1 - (job - mlen(tier) - 2) : mlen(tier) + 1 - job;   // length of the path, 0 = empty path
  if (bind && len == 0) return;
  PathMatcherBuilder<M> b; b.SetMatchUnregisteredCustomVerb(unreg); std::vector<Reg> rs; std::vector<std::string> verbs;
  for (size_t i = 0; kSet[set][i]; i++) {
    Reg r = regOf(kSet[set][i]); if (r.segs.empty() && !r.verb.empty()) continue;
    for (size_t k = 0; k < r.segs.size(); k++) if (r.segs[k].kind != pref::LIT) { std::string nm(1, (char)('k' + k)); r.vars.push_back(varOf(nm.c_str(), k, k + 1)); }
    CHECK(b.Register("GET", textWithVars(r, true), "", tag(rs.size())), "registration failed"); if (!r.verb.empty()) verbs.push_back(r.verb); rs.push_back(r);
  }
  auto pm = b.Build();
  std::string path; if (len) path = "/" + symStr(len - 1, "path");
  M got; std::vector<VariableBinding> vb; std::string body;
  if (bind) got = pm->Lookup("GET", path, "", &vb, &body); else got = pm->Lookup("GET", path);
  pref::Norm q = pref::normalise(path, verbs, unreg);
  checkAnswer(rs, "GET", q.verb, q.parts, got, false);
  if (bind && got) checkBindings(vb, pathBindings(rs[idx(got)], q.parts, 0));
}
#endif

#if PROP == 8
// ---- C08: template shapes with variables
struct TV { const char* t; const char* vars; };   // vars: "name:a-b,..."
static const TV kT[] = {
    {"/*", "x:0-1"}, {"/L/*", "x.y:1-2"}, {"/L/*", "x:0-2"}, {"/*/*", "x:0-1,y:1-2"}, {"/*/*", "x:0-2"}, {"/**", "x:0-1"}, {"/L/**", "x:1-2"}, {"/L/**", "x:0-2"}, {"/*/**", "x:0-1,y:1-2"}, {"/*/**", "x:0-2"},
    {"/**/L", "x:0-1"}, {"/**/L", "x:0-2"}, {"/**/L", "x:1-2"}, {"/**/L", "x:0-1,y.z:1-2"}, {"/**/L/L", "x:0-1,y:1-3"}, {"/**/L/L", "x:0-2,y:2-3"}, {"/**/L/L", "y:1-2,z:2-3"}, {"/L/**/L/L", "w:0-1,x:1-3,y:3-4"}, {"/*/**/L", "w:0-1,x:1-2,y:2-3"}, {"/L", "x:0-1"}, {"/L/L/*", "x:0-1,y:1-3"}, {"/*/L/*:v", "x:0-1,y:1-3"}, {"/**:v", "a.b.c:0-1"}, {"/", ""}, {"/L/*/*", "x:0-2,y:2-3"}, {"/*/*/**", "x:0-2,y:2-3"}, {"/*/*/*", "x:0-2,y:2-3"},
};
enum { NT = sizeof(kT) / sizeof(kT[0]) };
static unsigned baseJobs(int tier) { return NT * 3; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); int mode = job % 3; const TV& t = kT[job / 3];
  Reg r = regOf(t.t);
  for (auto& v : splitAt(t.vars, ',')) if (!v.empty()) { size_t c = v.find(':'); r.vars.push_back(varOf(v.substr(0, c).c_str(), v[c + 1] - '0', v[c + 3] - '0')); }
  std::string body = symStr(job / 3 % 2, "body"); bool single = false; for (auto& v : r.vars) single = single || (v.b == v.a + 1 && r.segs[v.a].kind == pref::STAR);
  PathMatcherBuilder<M> b; b.SetUrlUnescapeSpec((UrlUnescapeSpec)mode);
  CHECK(b.Register("GET", textWithVars(r, single && symx_range("short", 0, 1)), body, tag(0)), "registration failed");
  auto pm = b.Build();
  size_t lo = r.segs.size(), d = pref::dstarAt(r.segs); if (d + 1 == r.segs.size()) lo--;
  size_t np = symx_range("parts", lo, d < r.segs.size() ? lo + 2 : lo); std::vector<std::string> p;
  size_t longOne = np ? symx_range("long", 0, np - 1) : 0, none = np && !tier ? symx_range("empty", 0, np - 1) : 0;   // none > 0: segment none - 1 is empty
  if (none == longOne + 1) symx_stop();
  for (size_t i = 0; i < np; i++) if (i == longOne && none == 0 && symx_range("nested", 0, 1)) p.push_back("%25" + symPart(2, "escape")); else p.push_back(symPart(i == longOne ? (tier ? 5 : 4) : tier ? symx_range("len", i + 1 < np ? 0 : 1, 1) : i + 1 != none, "part"));
  for (size_t i = 0; i < r.segs.size(); i++) if (r.segs[i].kind == pref::LIT) { size_t k = i < d ? i : np - (r.segs.size() - i); p[k] = r.segs[i].lit; }   // a matching path
  if (np && p.back().empty()) symx_stop();
  std::string path = joinPath(p); if (!r.verb.empty()) path += ":" + r.verb;
  std::vector<VariableBinding> got; VariableBinding stale; stale.field_path.push_back("stale"); stale.value = "stale"; got.push_back(stale);
  std::string bodyOut = "stale";
  M m = pm->Lookup("GET", path, "", &got, &bodyOut);
  CHECK(m == tag(0), "no match");
  symx_cover("bound");
  checkBindings(got, pathBindings(r, p, mode));
  CHECK(strEq(bodyOut, body), "body field path");
}
#endif

#if PROP == 9
// ---- C09: query strings
static const char* const kPool[] = {"a.b.c=1%20&key=2&d=x+y=z", "k=v&&=x&noeq&a..b=%41%zz&k=w", "shelf.theme=Kids+Books&api_key=q&trace=%2Ftmp%2f&x=", "book.author.first_name=%E4%BD%A0&key=&b=b=b"};
enum { NP = 4 };
static unsigned flen(int tier) { return tier ? 7 : 5; }
static unsigned baseJobs(int tier) { return 2 * (flen(tier) + 1) + NP * (tier ? 3 : 2) * 2; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); bool plus = job % 2; job /= 2; std::string q;
  Reg r = regOf("/s/*"); r.vars.push_back(varOf("p.q", 1, 2));
  unsigned ns = symx_range("nsys", 0, 2); r.sys = {}; if (ns > 0) r.sys.push_back("key"); if (ns > 1) r.sys.push_back(symStr(1, "sysparam"));
  if (job <= flen(tier)) q = symStr(flen(tier) - job, "query");
  else {
    job -= flen(tier) + 1; unsigned w = 1 + job / NP; std::string s = kPool[job % NP];
    unsigned pos = symx_range("pos", 0, s.size()); bool ins = symx_range("insert", 0, 1);
    std::string win = symStr(w, "win"); if (!ins && pos + w > s.size()) symx_stop();
    q = s.substr(0, pos) + win + s.substr(pos + (ins ? 0 : w));
  }
  PathMatcherBuilder<M> b; b.SetQueryParamUnescapePlus(plus);
  // another method with other system parameters must not matter
  CHECK(b.Register("POST", "/s/*", "other", std::unordered_set<std::string>{"a", "d"}, tag(1)), "registration failed");
  CHECK(b.Register("GET", textWithVars(r, false), "bd", sysSet(r), tag(0)), "registration failed");
  auto pm = b.Build(); std::vector<VariableBinding> got; std::string body;
  CHECK(pm->Lookup("GET", "/s/P+", q, &got, &body) == tag(0), "no match");
  auto want = pathBindings(r, {"s", "P+"}, 0);
  for (auto& x : queryBindings(q, r.sys, plus)) { want.push_back(x); symx_cover("query binding"); }
  checkBindings(got, want); CHECK(body == "bd", "body field path");
}
#endif

#if PROP == 10
// ---- C10: duplicates
struct F10 { const char* t; const char* text; };   // structure and the text with variables; L is the literal byte
static const F10 kF[] = {{"/L", "/L"}, {"/L", "/{v=L}"}, {"/*", "/*"}, {"/*", "/{x}"}, {"/*", "/{y.z=*}"}, {"/**", "/**"}, {"/**", "/{x=**}"}, {"/L/*", "/L/{x}"}, {"/L/*", "/{w=L/*}"}, {"/**/L", "/{x=**}/L"}, {"/**/L", "/**/{n=L}"}};
enum { NF = 11 };
static const unsigned kB[] = {0, 1, 3, 6};
static unsigned baseJobs(int tier) { return NF * 4 + 4 * 8; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); bool two = job < NF * 4; if (!two) job -= NF * 4;
  size_t n = two ? 2 : 3; std::vector<Reg> rs; PathMatcherBuilder<M> b; bool fail = false; std::vector<std::string> verbs;
  unsigned f0 = two ? job / 4 : kB[job / 8], o0 = two ? job % 4 : (job & 1) * 2, odd = two ? 9 : job / 2 % 4;
  for (size_t i = 0; i < n; i++) {
    unsigned f = i == 0 ? f0 : two ? symx_range("form", 0, NF - 1) : kB[symx_range("form", 0, 3)];
    Reg r = regOf(kF[f].t); r.method = two || i == odd ? symStr(1, "method") : "G";
    bool v = i == 0 ? o0 & 1 : two && symx_range("verb", 0, 1); if (v) r.verb = "v";
    std::string text; for (const char* p = kF[f].text; *p; ++p) if (*p == 'L') { for (auto& g : r.segs) if (g.kind == pref::LIT) text += g.lit; } else text += *p;
    if (v) text += ":v";
    bool want = i == 0 ? o0 & 2 : symx_range("fail", 0, 1);
    if (want != fail) { b.SetFailRegistrationOnDuplicate(want); fail = want; }
    bool dup = false;
    for (auto& e : rs) {
      bool same = e.segs.size() == r.segs.size() && e.verb == r.verb;
      if (same) for (size_t k = 0; k < e.segs.size(); k++) same = same && e.segs[k].kind == r.segs[k].kind && strEq(e.segs[k].lit, r.segs[k].lit);
      same = same && strEq(e.method, r.method);
      dup = dup || same;
    }
    bool ok = b.Register(r.method, text, "", tag(i)); symx_obs("ok", ok);
    CHECK(ok == !(dup && fail), "result of Register for a duplicate / non-duplicate");
    if (dup) symx_cover("duplicate");
    rs.push_back(r);
  }
  auto pm = b.Build(); verbs.push_back("v"); bool anyVerb = false; for (auto& r : rs) anyVerb = anyVerb || !r.verb.empty();
  size_t np = symx_range("parts", 0, 2); std::vector<std::string> p; for (size_t i = 0; i < np; i++) p.push_back(symPart(1, "part"));
  std::string m = symStr(1, "qmethod"); bool qv = np && two && symx_range("qverb", 0, 1); std::string path = joinPath(p);
  std::string verb; if (qv) { path += ":v"; if (anyVerb) verb = "v"; else p.back() += ":v"; }
  M got = pm->Lookup(m, path);
  checkAnswer(rs, m, verb, p, got, false);
}
#endif

#if PROP == 11
// ---- C11: a rejected registration leaves no trace; metadata belongs to the matched registration
#include "tmplref.h"
static unsigned ilen(int tier) { return tier ? 6 : 5; }
static const char* const kBad[] = {"/a/{x=**}/*:v", "/{x", "/a//b:v", "/{x=a/{y}}:w", "/**/**:v", "a/b:v", "/a/b:", "/{x=*}:v/b", "/{.x}:v", "/a?:v/"};
enum { NBAD = 10 };
static unsigned baseJobs(int tier) { return ilen(tier) + 1 + NBAD; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); std::string bad;
  if (job <= ilen(tier)) bad = symStr(ilen(tier) - job, "badtemplate"); else bad = kBad[job - ilen(tier) - 1];
  if (ref::parse(bad).ok) return;
  symx_cover("rejected");
  unsigned at = symx_range("at", 0, 2);
  std::string badMethod = symx_range("badmethod", 0, 1) ? "GET" : "*";
  PathMatcherBuilder<M> b, c; std::vector<Reg> rs; std::vector<std::string> verbs;
  const char* t[] = {"/*", "/L/**"}; const char* tv[] = {"/{x}", "/L/{y.z=**}"};
  bool share = job > ilen(tier) && symx_range("share", 0, 1);   // both routes are registered for the same method
  bool withVerb = symx_range("verb", 0, 1), unreg = symx_range("unregistered", 0, 1), dupFail = symx_range("dupfail", 0, 1);
  for (auto* x : {&b, &c}) { x->SetMatchUnregisteredCustomVerb(unreg); x->SetFailRegistrationOnDuplicate(dupFail); }
  std::unordered_set<std::string> bs{"q", "r"};
  for (unsigned i = 0; i < 2; i++) {
    if (at == i) CHECK(!b.Register(badMethod, bad, "badbody", bs, tag(7)), "an invalid template was accepted");
    Reg r = regOf(t[i]); r.body = i ? "body1" : share ? "" : "b0"; r.sys.push_back(i ? "q" : "s");
    std::string text; for (const char* p = tv[i]; *p; ++p) if (*p == 'L') text += r.segs[0].lit; else text += *p;
    if (i && withVerb) { r.verb = "v"; text += ":v"; verbs.push_back("v"); }
    r.vars.push_back(i ? varOf("y.z", 1, 2) : varOf("x", 0, 1));
    for (auto* x : {&b, &c}) CHECK(x->Register("GET", text, r.body, sysSet(r), tag(share ? 0 : i)), "registration failed");
    rs.push_back(r);
  }
  if (at == 2) CHECK(!b.Register(badMethod, bad, "badbody", bs, tag(7)), "an invalid template was accepted");
  auto pb = b.Build(), pc = c.Build();
  // requests: paths of one or two segments with and without a verb-like suffix
  size_t np = symx_range("parts", 1, 2); std::string path; for (size_t i = 0; i < np; i++) path += "/" + symPart(1, "part");
  std::string suffix; unsigned sx = symx_range("suffix", 0, 2); if (sx == 1) suffix = ":" + symPart(1, "qverb"); if (sx == 2) suffix = ":";
  path += suffix;
  std::string q = "q=1&r=2&s=3", b1 = "?", b2 = "?"; std::vector<VariableBinding> v1, v2;
  M m1 = pb->Lookup("GET", path, q, &v1, &b1), m2 = pc->Lookup("GET", path, q, &v2, &b2);
  symx_obs("m", m1 == nullptr ? 0 : idx(m1) + 1);
  CHECK(m1 == m2, "a rejected registration changes a lookup"); CHECK(strEq(b1, b2), "a rejected registration changes the body field path"); CHECK(sameBindings(v1, v2), "a rejected registration changes bindings");
  pref::Norm n = pref::normalise(path, verbs, unreg);
  size_t g = m1 == nullptr ? 0 : idx(m1);
  if (share && m1 && pref::hits(rs[1], "GET", n.verb, n.parts)) { symx_cover("shared"); g = 1; }   // "/L/**" is the more specific of the two wherever both match
  checkAnswer(rs, "GET", n.verb, n.parts, m1 == nullptr ? nullptr : tag(g), false);
  if (m1) {
    const Reg& r = rs[g]; symx_cover("found after rejection");
    CHECK(strEq(b1, r.body), "body field path of another registration");
    auto want = pathBindings(r, n.parts, 0); for (auto& x : queryBindings(q, r.sys, false)) want.push_back(x);
    checkBindings(v1, want);
  }
}
#endif

#if PROP == 12
// ---- C12: immutability and repeatability
static unsigned baseJobs(int tier) { return tier ? 5 * 5 : 4 * 4; }
static std::string reqPath(unsigned len, const char* n) { return "/" + symStr(len, n); }
static void baseMain(unsigned job) {
  int tier = symx_tier(); unsigned k = tier ? 5 : 4, l1 = job % k, l2 = job / k;
  PathMatcherBuilder<M> b; b.SetMatchUnregisteredCustomVerb(symx_range("unregistered", 0, 1)); b.SetQueryParamUnescapePlus(symx_range("plus", 0, 1));
  const char* t[] = {"/", "/{x}", "/a/{y=**}", "/a/b:v", "/{z=a/*}/c", "/{w=**}/d"};
  for (size_t i = 0; i < 6; i++) CHECK(b.Register(i == 3 ? "*" : "GET", t[i], i % 2 ? "body" : "", std::unordered_set<std::string>{"k"}, tag(i)), "registration failed");
  b.Register("GET", "/{dup}/d/d", "", tag(6)); b.Register("GET", "/*/d/d", "", tag(7));
  auto pm = b.Build();
  std::string p1 = reqPath(l1, "path1"), p2 = reqPath(l2, "path2"), q1 = "x=1+2&k=3", q2 = "y=%41"; std::string get = "GET", put = "PUT";
  std::string body1, body2, body3; std::vector<VariableBinding> v1, v2, v3;
  M r1, r2, r3, r4, r5, r6;
#ifdef TSAN_REPLAY
  {
    std::thread th([&] { std::vector<VariableBinding> v; std::string bd; for (int i = 0; i < 200; i++) { pm->Lookup(get, p1, q1, &v, &bd); pm->Lookup(get, p1); pm->Lookup(put, p2, q2, &v, &bd); } });
    std::vector<VariableBinding> v; std::string bd; for (int i = 0; i < 200; i++) { pm->Lookup(get, p1, q1, &v, &bd); pm->Lookup(get, p1); pm->Lookup(put, p2, q2, &v, &bd); }
    th.join();
  }
#endif
  symx_freeze();
  { std::string b1, b2; }
  std::vector<VariableBinding> *o1 = new std::vector<VariableBinding>, *o2 = new std::vector<VariableBinding>, *o3 = new std::vector<VariableBinding>(1); std::string *s1 = new std::string, *s2 = new std::string, *s3 = new std::string("stale");
  r1 = pm->Lookup(get, p1, q1, o1, s1);
  r2 = pm->Lookup(put, p2, q2, o2, s2);
  r3 = pm->Lookup(get, p1, q1, o3, s3);
  r4 = pm->Lookup(get, p1);
  r5 = pm->Lookup(get, p1, q1, nullptr, nullptr);
  r6 = pm->Lookup(get, p1, q1, nullptr, s3);
  symx_unfreeze();
  symx_obs("r1", r1 ? idx(r1) + 1 : 0); symx_obs("r2", r2 ? idx(r2) + 1 : 0);
  CHECK(r1 == r3 && r1 == r6, "the same lookup gives another method"); CHECK(r1 == r4 && r1 == r5, "the two lookup forms disagree");
  if (r1) { symx_cover("found"); CHECK(sameBindings(*o1, *o3), "the same lookup gives other bindings"); CHECK(strEq(*s1, *s3), "the same lookup gives another body field path"); obsBindings(*o1); } else symx_cover("null");
  // lookups reusing the output of another lookup give the same result
  r3 = pm->Lookup(get, p1, q1, o2, s2); CHECK(r3 == r1, "the same lookup gives another method");
  if (r1) { CHECK(sameBindings(*o1, *o2), "bindings depend on what the output held before"); CHECK(strEq(*s1, *s2), "body field path depends on what the output held before"); }
  delete o1; delete o2; delete o3; delete s1; delete s2; delete s3;
}
#endif
#include "pmscale.h"
