// Reference for the template grammar (C01/C02), written from the property text.
#pragma once
#include "common.h"
namespace ref {
struct Var { std::vector<std::string> path; int start, end; bool wild; };
struct Tmpl { bool ok = false; std::vector<std::string> segs; std::string verb; bool hasVerb = false; std::vector<Var> vars; };
// LITERAL: maximal run of characters other than '/', ':' and '}'
struct P {
  const unsigned char* s; size_t n, i = 0; Tmpl& t;
  bool at(unsigned char c) const { return i < n && s[i] == c; }
  bool lit(std::string& out) {
    size_t b = i;
    while (i < n && s[i] != '/' && s[i] != ':' && s[i] != '}') i++;
    out.assign((const char*)s + b, i - b);
    return i > b;
  }
  bool seg(bool inVar) {
    if (i >= n) return false;
    if (s[i] == '*') { i++; if (at('*')) { i++; t.segs.push_back("**"); if (inVar) t.vars.back().wild = true; } else t.segs.push_back("*"); return true; }
    if (s[i] == '{') return !inVar && var();
    std::string l; if (!lit(l)) return false; t.segs.push_back(l); return true;
  }
  bool segsList(bool inVar) { if (!seg(inVar)) return false; while (at('/')) { i++; if (!seg(inVar)) return false; } return true; }
  bool var() {
    i++;  // '{'
    t.vars.push_back(Var{{}, (int)t.segs.size(), 0, false});
    for (;;) {
      size_t b = i;
      while (i < n && s[i] != '.' && s[i] != '}' && s[i] != '=') i++;
      if (i == b) return false;
      t.vars.back().path.emplace_back((const char*)s + b, i - b);
      if (at('.')) { i++; continue; }
      break;
    }
    if (at('=')) { i++; if (!segsList(true)) return false; } else t.segs.push_back("*");
    t.vars.back().end = (int)t.segs.size();
    if (!at('}')) return false;
    i++; return true;
  }
};
static inline Tmpl parse(const std::string& x) {
  Tmpl t; P p{(const unsigned char*)x.data(), x.size(), 0, t};
  if (x.size() == 1 && x[0] == '/') { t.ok = true; return t; }
  if (!p.at('/')) return t; p.i++;
  if (!p.segsList(false)) return t;
  if (p.at(':')) { p.i++; if (!p.lit(t.verb)) return t; t.hasVerb = true; }
  if (p.i != p.n) return t;
  size_t w = t.segs.size();
  for (size_t k = 0; k < t.segs.size(); k++) if (t.segs[k] == "**") { w = k; break; }
  for (size_t k = w + 1; k < t.segs.size(); k++) if (t.segs[k] == "*" || t.segs[k] == "**") return t;
  t.ok = true;
  return t;
}
}
