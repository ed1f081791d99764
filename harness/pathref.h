// Reference model of the path matcher (C04..C12), written from the property texts.
#pragma once
#include "common.h"
namespace pref {
enum { LIT = 0, STAR = 1, DSTAR = 2 };
struct Seg { int kind; std::string lit; };
struct Var { std::vector<std::string> path; size_t a, b; };          // template segments [a, b)
struct Reg { std::string method; std::vector<Seg> segs; std::string verb; std::vector<Var> vars; std::string body; std::vector<std::string> sys; bool accepted = true; };
// same text; sizes are concrete in every harness, contents are not: no branch on contents
static inline bool eqs(const std::string& a, const std::string& b) { return strEq(a, b); }
static inline size_t dstarAt(const std::vector<Seg>& t) { for (size_t i = 0; i < t.size(); i++) if (t[i].kind == DSTAR) return i; return t.size(); }
static inline bool segMatch(const Seg& s, const std::string& p) { return s.kind != LIT || eqs(s.lit, p); }
static inline bool pathMatch(const std::vector<Seg>& t, const std::vector<std::string>& p) {
  size_t d = dstarAt(t); bool ok = true;
  if (d == t.size()) { if (p.size() != t.size()) return false; for (size_t i = 0; i < p.size(); i++) ok &= segMatch(t[i], p[i]); return ok; }
  size_t tail = t.size() - d - 1;
  if (p.size() < d + (tail ? 1 : 0) + tail) return false;      // final '**' matches zero or more, '**' before literals one or more
  for (size_t i = 0; i < d; i++) ok &= segMatch(t[i], p[i]);
  for (size_t i = 0; i < tail; i++) ok &= segMatch(t[d + 1 + i], p[p.size() - tail + i]);
  return ok;
}
// a is preferred to b, given that both match the same path: decided by the kinds alone (see DESIGN.md, C05)
static inline int prefer(const std::vector<Seg>& a, const std::vector<Seg>& b) {
  for (size_t i = 0;; i++) {
    if (i == a.size() && i == b.size()) return 0;
    if (i == a.size()) return -1;                               // exact end before a '**' matching nothing
    if (i == b.size()) return 1;
    if (a[i].kind != b[i].kind) return a[i].kind < b[i].kind ? -1 : 1;
    if (a[i].kind == DSTAR) { size_t ta = a.size() - i, tb = b.size() - i; return ta == tb ? 0 : ta > tb ? -1 : 1; }   // longer literal tail first
  }
}
static inline bool methodMatch(const std::string& reg, const std::string& req) { return eqs(reg, req) | eqs(reg, "*"); }
struct Expect { std::vector<bool> win; };   // not used with symbolic content: see below
// Given a registration list and a request, is registration i the expected result?  Boolean without branching on contents.
static inline bool hit(const Reg& r, const std::string& m, const std::string& verb, const std::vector<std::string>& p) { return pathMatch(r.segs, p) & methodMatch(r.method, m) & eqs(r.verb, verb); }
static inline bool hits(const Reg& r, const std::string& m, const std::string& verb, const std::vector<std::string>& p) { return r.accepted && hit(r, m, verb, p); }
// both hit: same route (same template segments and verb, same registered method)?
static inline bool sameRoute(const Reg& a, const Reg& b) { return (prefer(a.segs, b.segs) == 0) & eqs(a.method, b.method); }
static inline bool better(const Reg& a, const Reg& b) {   // given that both hit the request
  int c = prefer(a.segs, b.segs); if (c) return c < 0;
  return !eqs(a.method, "*") & eqs(b.method, "*");        // the same template: the exact method before "*"
}
// registration i is the answer: it hits, nothing better hits, no other registration of the same route
static inline bool answer(const std::vector<Reg>& rs, size_t i, const std::vector<bool>& h) {
  bool ok = h[i];
  for (size_t j = 0; j < rs.size(); j++) if (j != i && rs[j].accepted) ok &= !(h[j] & (better(rs[j], rs[i]) | sameRoute(rs[j], rs[i])));
  return ok;
}
// no branch on contents in either
static inline bool isHex(unsigned char c, unsigned& v) {
  unsigned char l = c | 32; bool dig = (c >= '0') & (c <= '9'), let = (l >= 'a') & (l <= 'f');
  v = (unsigned)dig * (c - '0') + (unsigned)let * (l - 'a' + 10u);
  return dig | let;
}
static inline bool isReserved(unsigned char c) { bool r = false; for (const char* p = "!#$&'()*+,/:;=?@[]"; *p; ++p) r = r | ((unsigned char)*p == c); return r; }
// mode 0: all but reserved, 1: all but '/', 2: all
static inline std::string decode(const std::string& s, int mode, bool plus) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    unsigned h, l; unsigned char c = s[i];
    if (plus && c == '+') { o += ' '; i++; continue; }
    if (i + 2 < s.size()) {
      bool h1 = isHex(s[i + 1], h), h2 = isHex(s[i + 2], l); unsigned char d = (unsigned char)(h * 16 + l);
      bool esc = (c == '%') & h1 & h2 & !(mode == 0 ? isReserved(d) : mode == 1 ? d == '/' : false);
      if (esc) { symx_cover("escape"); o += (char)d; i += 3; continue; }
    }
    o += s[i++];
  }
  return o;
}
// normalisation of a request path (which begins with '/', or is empty)
struct Norm { std::vector<std::string> parts; std::string verb; };
static inline Norm normalise(const std::string& path, const std::vector<std::string>& verbs, bool unregistered) {
  Norm n; std::string p;
  for (size_t i = 0; i < path.size() && path[i] != '?'; i++) p += path[i];
  std::string cur; size_t colon = std::string::npos;
  for (size_t i = 1; i < p.size(); i++) {
    if (p[i] == '/') { n.parts.push_back(cur); cur.clear(); colon = std::string::npos; }
    else { if (p[i] == ':') colon = cur.size(); cur += p[i]; }
  }
  if (!p.empty()) n.parts.push_back(cur);
  if (colon != std::string::npos) {
    std::string v = cur.substr(colon + 1);
    bool take = unregistered;
    for (auto& x : verbs) take = take | eqs(x, v);
    if (take) { n.verb = v; n.parts.back() = cur.substr(0, colon); }
  }
  while (!n.parts.empty() && n.parts.back().empty()) n.parts.pop_back();
  return n;
}
// value of a variable
static inline std::string value(const Reg& r, const Var& v, const std::vector<std::string>& p, int mode) {
  size_t d = dstarAt(r.segs), grow = p.size() + 1 >= r.segs.size() ? 0 : 0; (void)grow;
  auto at = [&](size_t k) { return k <= d ? k : p.size() - (r.segs.size() - k); };   // request position of the template boundary k
  size_t a = at(v.a), b = at(v.b);
  bool multi = b - a > 1 || (v.a <= d && d < v.b);
  std::string o;
  for (size_t i = a; i < b; i++) { if (i > a) o += '/'; o += decode(p[i], multi ? mode : 2, false); }
  return o;
}
}
