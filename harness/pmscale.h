// Large inputs for C04..C12: concrete skeletons (deep, wide, long) with a few symbolic bytes at chosen places.
static std::string num(size_t i) { return std::to_string(i); }
static std::string rep(size_t n, char c) { return std::string(n, c); }
static std::string deep(size_t n, const char* pre = "s") { std::string s; for (size_t i = 0; i < n; i++) { s += '/'; s += pre; s += num(i); } return s; }
static std::vector<std::string> partsOf(const std::string& path) { auto v = splitAt(path.substr(1), '/'); return v; }
#if PROP == 4 || PROP == 5
static unsigned scaleJobs(int) { return 10; }
// more than 256 registrations: literals of their own, or methods of their own
static void scaleMany(bool methods) {
  size_t n = 262; PathMatcherBuilder<M> b; std::vector<std::string> key;
  for (size_t i = 0; i < n; i++) {
    key.push_back((methods ? "M" : "r") + num(i));
    CHECK(b.Register(methods ? key[i] : "G", methods ? "/m/{x" + num(i) + "}" : "/" + key[i] + "/{x" + num(i) + "}", PROP == 5 ? num(i) : "", std::unordered_set<std::string>{"s" + num(i)}, tag(i)), "registration of a valid template failed");
  }
  auto pm = b.Build(); static const char* const ks[] = {"", "6", "13", "25", "26"}; std::string k = (methods ? "M" : "r") + std::string(ks[symx_range("stem", 0, 4)]) + symPart(1, "byte");
  M got; std::vector<VariableBinding> vb; std::string body, m = methods ? k : "G", path = methods ? "/m/v" : "/" + k + "/v";
  if (PROP == 5) got = pm->Lookup(m, path, "s25=1&s130=2&s257=3", &vb, &body); else got = pm->Lookup(m, path);
  bool any = false, mine = false; size_t g = got ? idx(got) : n; symx_obs("result", g);
  for (size_t i = 0; i < n; i++) { bool e = strEq(k, key[i]); any = any | e; if (i == g) mine = e; }
  if (!got) { symx_cover("null"); CHECK(!any, "null although a registered template matches"); return; }
  symx_cover("found"); CHECK(g < n, "an unknown method"); CHECK(mine, "the returned method's template does not match");
  if (PROP == 5) {
    CHECK(strEq(body, num(g)), "body field path of another registration"); std::vector<VariableBinding> want{{{"x" + num(g)}, "v"}};
    static const char* const qs[] = {"s25", "s130", "s257"}; for (int i = 0; i < 3; i++) if ("s" + num(g) != qs[i]) want.push_back(VariableBinding{{qs[i]}, num(i + 1)});
    checkBindings(vb, want);
  }
}
static void scaleMain(unsigned job) {
  if (job >= 8) return scaleMany(job == 9);
  std::vector<Reg> rs; std::vector<std::string> p; std::string m = "G";
  auto add = [&](const std::string& t, const std::string& method = "G") { Reg r = regOf(t.c_str(), method.c_str()); rs.push_back(r); };
  if (job == 0 || job == 1) {            // deep templates
    static const size_t ds[] = {9, 17, 33, 70}; size_t d = ds[job * 2 + symx_range("depth", 0, 1)]; std::string c = deep(d), h = deep(d / 2), mid = h + "/*";
    for (size_t i = d / 2 + 1; i < d; i++) mid += "/s" + num(i);
    add(c + "/L"); add(c + "/*"); add(mid + "/L"); add(c + "/L/L"); add(h + "/**"); add(c, "*"); add("/**/s" + num(d - 1));
    p = partsOf(c); size_t at = symx_range("at", 0, d); if (at < d) p[at] = "s" + symPart(1, "byte");
    for (size_t i = 0, n = symx_range("tail", 0, 2); i < n; i++) p.push_back(symPart(1, "part"));
  } else if (job == 2) {                 // wide nodes: many literal children and many methods
    for (size_t i = 0; i < 24; i++) add("/r" + num(i) + (i % 3 ? "" : "/*"));
    add("/*"); add("/**");
    p.push_back("r" + symPart(symx_range("len", 1, 2), "part")); if (symx_range("more", 0, 1)) p.push_back(symPart(1, "part"));
  } else if (job == 3) {
    for (size_t i = 0; i < 20; i++) add("/m", "M" + num(i));
    add("/m", "*"); add("/*", "M3"); add("/*", "N1"); p.push_back("m"); m = "M" + symStr(symx_range("len", 0, 2), "qmethod");
  } else if (job == 4) {                 // long literals and methods
    static const size_t ls[] = {15, 16, 23, 31, 32, 63, 64, 127, 128, 255, 256, 300}; size_t n = ls[symx_range("length", 0, 11)];
    Reg r; r.method = "G"; r.segs.push_back(Seg{pref::LIT, rep(n - 1, 'a') + symLit(1, "lit")}); rs.push_back(r);
    r.segs[0].lit = "b" + rep(n, 'a'); rs.push_back(r); r.segs[0] = Seg{pref::LIT, rep(n - 1, 'a')}; rs.push_back(r); add("/*", "*");
    std::string q = rep(n, 'a'); size_t at = symx_range("at", 0, 2); q.replace(at == 0 ? 0 : at == 1 ? n / 2 : n - 1, 1, symPart(1, "byte")); p.push_back(q);
    if (symx_range("longer", 0, 1)) p[0] += 'a';
  } else if (job == 7) {                 // the literals after a '**' occur many times before the end
    add("/**/b/c"); add("/**/b/b/b/d"); add("/a/**/b/e", "*"); add("/**/e"); add("/a/**");
    static const size_t ls[] = {4, 9, 17, 33, 66, 130, 260}; size_t n = ls[symx_range("times", 0, 6)]; bool x = symx_range("between", 0, 1); p.push_back("a");
    for (size_t i = 0; i < n; i++) { p.push_back("b"); if (x) p.push_back("x"); }
    if (symx_range("three", 0, 1)) { p.push_back("b"); p.push_back("b"); p.push_back("b"); }
    p.push_back(symPart(1, "byte"));
  } else {                               // '**' over many segments, long tails
    std::string t; for (size_t i = 0; i < 12; i++) t += "/t" + num(i);
    std::string t2; for (size_t i = 3; i < 12; i++) t2 += "/t" + num(i);
    add("/**" + t); add("/**" + t2); add("/**/t11"); add("/a/**"); if (job == 5) add("/**"); add("/a/*/*/*/*/*/*/*/*/*/*/*/*/*/*/*/*/*");
    static const size_t ls[] = {1, 5, 40, 270, 1100}; size_t n = ls[symx_range("covered", 0, 4)]; p.push_back("a"); for (size_t i = 1; i < n; i++) p.push_back("c");
    for (auto& x : partsOf(t)) p.push_back(x);
    size_t at = symx_range("at", 0, 13); if (at < 12) p[n + at] = "t" + symPart(1, "byte"); else if (at == 12) p[0] = symPart(1, "byte"); else p.insert(p.begin() + n, symPart(1, "byte"));
  }
  size_t order = symx_range("order", 0, PROP == 5 ? 2 : 0), n = rs.size();
  PathMatcherBuilder<M> b;
  if (PROP == 5) for (size_t i = 0; i < n; i++) for (size_t k = 0; k < rs[i].segs.size(); k++) if (rs[i].segs[k].kind != pref::LIT) { rs[i].vars.push_back(pref::Var{{"x" + num(i)}, k, k + 1}); break; }
  for (size_t k = 0; k < n; k++) {
    size_t i = order == 0 ? k : order == 1 ? n - 1 - k : (k + n / 2) % n;
    CHECK(b.Register(rs[i].method, textWithVars(rs[i], false), PROP == 5 ? num(i) : "", tag(i)), "registration of a valid template failed");
  }
  auto pm = b.Build(); M got; std::vector<VariableBinding> vb; std::string body;
  if (PROP == 5) got = pm->Lookup(m, joinPath(p), "", &vb, &body); else got = pm->Lookup(m, joinPath(p));
  checkAnswer(rs, m, "", p, got, PROP == 4);
  if (PROP == 5 && got) { size_t g = idx(got); CHECK(strEq(body, num(g)), "body field path of another registration"); checkBindings(vb, pathBindings(rs[g], p, 0)); }
}
#elif PROP == 6
static unsigned scaleJobs(int) { return 4; }
static void scaleMany() {                // more than 256 registered verbs
  size_t n = 262; PathMatcherBuilder<M> b; bool unreg = symx_range("unregistered", 0, 1); b.SetMatchUnregisteredCustomVerb(unreg);
  for (size_t i = 0; i < n; i++) CHECK(b.Register(i % 3 ? "GET" : "*", "/m:v" + num(i), "", tag(i)), "registration failed");
  auto pm = b.Build(); static const char* const ks[] = {"", "6", "13", "25", "26"}; std::string k = "v" + std::string(ks[symx_range("stem", 0, 4)]) + symPart(1, "byte");
  M got = pm->Lookup("GET", "/m:" + k); bool any = false, mine = false; size_t g = got ? idx(got) : n; symx_obs("result", g);
  for (size_t i = 0; i < n; i++) { bool e = strEq(k, "v" + num(i)); any = any | e; if (i == g) mine = e; }
  if (got) { symx_cover("found"); symx_cover("verb"); CHECK(g < n && mine, "the method of another verb"); } else { symx_cover("null"); CHECK(!any, "null although a registered template matches"); }
}
static void scaleMain(unsigned job) {
  if (job == 3) return scaleMany();
  std::vector<Reg> rs; std::vector<std::string> verbs; bool unreg = symx_range("unregistered", 0, 1); std::string m = "GET", path;
  auto add = [&](const std::string& t, const std::string& method, const std::string& verb) { Reg r = regOf(t.c_str(), method.c_str()); r.verb = verb; rs.push_back(r); if (!verb.empty()) verbs.push_back(verb); };
  if (job == 0) {                        // many verbs, of many lengths
    for (size_t i = 0; i < 14; i++) add(i % 2 ? "/*" : "/a/**", i % 3 ? "GET" : "*", "v" + rep(i * (i > 9 ? 9 : 1), 'e'));
    add("/*", "GET", ""); size_t i = symx_range("which", 0, 13), l = verbs[i].size(), at = symx_range("at", 0, 2);
    std::string v = verbs[i]; v.replace(at == 0 ? 0 : at == 1 ? l / 2 : l - 1, 1, symPart(1, "byte")); path = std::string(i % 2 ? "/p" : "/a/p") + ":" + v; if (symx_range("longer", 0, 1)) path += symPart(1, "extra");
  } else if (job == 1) {                 // long methods
    static const size_t ls[] = {8, 15, 16, 32, 64, 255, 256}; size_t n = ls[symx_range("length", 0, 6)];
    std::string l = rep(n, 'M'); add("/*", l, ""); add("/*", l.substr(1), ""); add("/*", "*", ""); add("/a", l + "N", "v"); add("/a", "*", "v");
    m = l; m.replace(symx_range("at", 0, 1) ? n - 1 : n / 2, 1, symStr(1, "byte")); if (symx_range("shorter", 0, 1)) m.erase(0, 1); else if (symx_range("longer", 0, 1)) m += symStr(1, "extra");
    path = symx_range("verb", 0, 1) ? "/a:v" : "/a";
  } else {                               // a verb behind a deep path, earlier ':' inside it
    std::string c = deep(30); add(c + "/*", "GET", "v"); add(c + "/*", "GET", ""); add("/s0/**", "*", "v"); add("/s0/**", "*", "w:x");
    auto p = partsOf(c); size_t at = symx_range("at", 0, 29); p[at] = symPart(1, "byte") + ":v"; path = joinPath(p) + "/q:" + (symx_range("two", 0, 1) ? "x:" : "") + symPart(1, "qverb");
  }
  PathMatcherBuilder<M> b; b.SetMatchUnregisteredCustomVerb(unreg); std::vector<Reg> acc; std::vector<std::string> vs;
  for (size_t i = 0; i < rs.size(); i++) if (rs[i].verb.find(':') == std::string::npos) { CHECK(b.Register(rs[i].method, textOf(rs[i]), "", tag(acc.size())), "registration failed"); acc.push_back(rs[i]); if (!rs[i].verb.empty()) vs.push_back(rs[i].verb); }
  auto pm = b.Build(); M got = pm->Lookup(m, path); pref::Norm q = pref::normalise(path, vs, unreg);
  if (!q.verb.empty()) symx_cover("verb");
  checkAnswer(acc, m, q.verb, q.parts, got, false);
}
#elif PROP == 7
static const char* const kLong[] = {"/a/b/c/d/e/f/g/h/i/j/k/l///////////", "/aa//b///c?x/y:z?:v", "////////////////a/b:v", "/1234567890123456789012345678901234567890:w/a:v:v", "/x/a:v///////?"};
static unsigned scaleJobs(int tier) { return 5 * 2 + 1; }
static void scaleMain(unsigned job) {
  bool big = job == 10; bool unreg = job & 1; std::string s = big ? "" : kLong[job / 2];
  if (big) { unreg = symx_range("unregistered", 0, 1); s = "/" + rep(300, 'x'); for (int i = 0; i < 40; i++) s += "/y"; if (symx_range("huge", 0, 1)) { s += "/" + rep(5000, 'z'); for (int i = 0; i < 1100; i++) s += "/y"; } s += ":v"; s += "?" + rep(20, '/') + ":v"; }
  PathMatcherBuilder<M> b; b.SetMatchUnregisteredCustomVerb(unreg); std::vector<Reg> rs; std::vector<std::string> verbs;
  for (const char* t : {"/**", "/**:v", "/a/b/c/d/e/f/g/h/i/j/k/l", "/*/*/*/*/c", "/**/a:v", "/*/*/a:v", "/*/*"}) {
    Reg r = regOf(t); for (size_t k = 0; k < r.segs.size(); k++) if (r.segs[k].kind != pref::LIT) r.vars.push_back(varOf(("v" + num(k)).c_str(), k, k + 1));
    CHECK(b.Register("GET", textWithVars(r, true), "", tag(rs.size())), "registration failed"); if (!r.verb.empty()) verbs.push_back(r.verb); rs.push_back(r);
  }
  auto pm = b.Build();
  size_t pos = big ? (symx_range("pos", 0, 3) * 100 + 1) : symx_range("pos", 1, s.size()); bool ins = symx_range("insert", 0, 1); std::string win = symStr(1, "win"); if (!ins && pos + 1 > s.size()) symx_stop();
  std::string path = s.substr(0, pos) + win + s.substr(pos + (ins ? 0 : 1));
  std::vector<VariableBinding> vb; std::string body; M got = pm->Lookup("GET", path, "", &vb, &body);
  pref::Norm q = pref::normalise(path, verbs, unreg);
  checkAnswer(rs, "GET", q.verb, q.parts, got, false);
  if (got) checkBindings(vb, pathBindings(rs[idx(got)], q.parts, 0));
}
#elif PROP == 8
static unsigned scaleJobs(int) { return 3 * 5; }
static void scaleMain(unsigned job) {
  int mode = job % 3; Reg r; std::vector<std::string> p; job /= 3; std::string c = deep(12);
  if (job == 0) {                        // many variables
    std::string t; for (size_t i = 0; i < 14; i++) t += i % 2 ? "/l" + num(i) : "/*"; r = regOf((t + "/**").c_str());
    for (size_t i = 0; i < 14; i += 2) r.vars.push_back(varOf(("v" + num(i) + ".f.g.h").c_str(), i, i + 1 + (i % 4 == 0)));
    r.vars.push_back(varOf("rest", 14, 15)); p = partsOf(t); for (auto& x : p) if (x == "*") x = "val"; size_t e = symx_range("extra", 0, 2) * 6; for (size_t i = 0; i < e; i++) p.push_back("e" + num(i));
  } else if (job == 1) {                 // a variable of many segments
    std::string t = c + "/*/*/*/*" + deep(6, "t"); r = regOf(t.c_str()); r.vars.push_back(varOf("x", 0, 22)); p = partsOf(t); for (auto& x : p) if (x == "*") x = "w";
  } else if (job == 2) {                 // '**' of many segments between long prefixes and tails
    std::string t = c + "/**" + deep(12, "t"); r = regOf(t.c_str()); r.vars.push_back(varOf("a", 0, 3)); r.vars.push_back(varOf("b", 12, 14)); r.vars.push_back(varOf("c", 20, 23)); r.vars.push_back(varOf("d", 23, 25));
    p = partsOf(c); size_t n = symx_range("covered", 0, 2) * 150 + 1; for (size_t i = 0; i < n; i++) p.push_back("m"); for (auto& x : partsOf(deep(12, "t"))) p.push_back(x);
  } else if (job == 3) {                 // a long field path
    r = regOf("/s/*/**"); std::string f = "f0"; for (int i = 1; i < 140; i++) f += ".f" + num(i); r.vars.push_back(varOf(f.c_str(), 0, 2)); r.vars.push_back(varOf((f + "." + rep(300, 'n')).c_str(), 2, 3)); p = {"s", "a", "b", "c"};
  } else { r = regOf("/*/**"); r.vars.push_back(varOf("x", 0, 1)); r.vars.push_back(varOf("y", 1, 2)); p = {"%41%2F%2f%25" + rep(5000, 'z') + "%e4%BD%a0+", "%2F%41" + rep(20, 'q') + "%2B%7e", "%%41%"}; }
  std::vector<size_t> free; { size_t d = pref::dstarAt(r.segs); for (size_t i = 0; i < p.size(); i++) { size_t k = i < d ? i : p.size() - i < r.segs.size() - d ? r.segs.size() - (p.size() - i) : d; if (r.segs[k].kind != pref::LIT) free.push_back(i); } }
  size_t nf = free.size(), w = symx_range("where", 0, nf < 8 ? nf - 1 : 7), at = free[nf < 8 ? w : w < 4 ? w : nf - 8 + w]; std::string& q = p[at];
  unsigned how = symx_range("how", 0, 2); std::string e = how == 0 ? "%" + symPart(2, "escape") : symPart(1, "byte");
  if (how == 2) { size_t pos = q.size() > 24 ? symx_range("pos", 0, 8) : 0; pos = pos < 6 ? pos : q.size() - 9 + pos; q.insert(pos < q.size() ? pos : q.size(), e); } else q += e;
  if (p.back().empty()) symx_stop();
  std::string body = rep(80, 'b'); PathMatcherBuilder<M> b; b.SetUrlUnescapeSpec((UrlUnescapeSpec)mode);
  CHECK(b.Register("GET", textWithVars(r, false), body, tag(0)), "registration failed");
  auto pm = b.Build(); std::vector<VariableBinding> got(3); std::string bodyOut = "stale";
  CHECK(pm->Lookup("GET", joinPath(p), "", &got, &bodyOut) == tag(0), "no match");
  symx_cover("bound"); checkBindings(got, pathBindings(r, p, mode)); CHECK(bodyOut == body, "body field path");
}
#elif PROP == 9
static unsigned scaleJobs(int) { return 5; }
static void scaleMain(unsigned job) {
  Reg r = regOf("/s/*"); r.vars.push_back(varOf("p.q", 1, 2)); bool plus = symx_range("plus", 0, 1); std::vector<std::string> ps; size_t at = 0; size_t pos = 0;
  if (job == 0) for (size_t i = 0; i < 140; i++) ps.push_back("k" + num(i) + (i % 5 ? "" : ".f") + "=v" + num(i));                        // many parameters
  else if (job == 1) { for (size_t i = 0; i < 20; i++) r.sys.push_back("k" + num(i)); for (size_t i = 0; i < 24; i++) ps.push_back("k" + num(i) + "=" + num(i)); }   // many system parameters
  else if (job == 2) ps = {"a=1", rep(300, 'n') + "=" + rep(5000, 'v'), "b=" + rep(100, '%') + "41", "c=2"};                              // long names and values
  else if (job == 3) { std::string f; for (int i = 0; i < 140; i++) f += "f" + num(i) + "."; ps = {f + "end=1", "z=" + rep(40, '+') + rep(40, '='), "y=2"}; }   // long field paths
  else { std::string v; for (int i = 0; i < 30; i++) v += "%e4%BD%a0"; ps = {"=", "&", "==", "x=" + v, "x=" + v, "x"}; for (int i = 0; i < 12; i++) ps.push_back("rep=" + num(i)); }
  at = symx_range("param", 0, job < 2 ? 5 : ps.size() - 1); if (job < 2 && at > 2) at = ps.size() - 6 + at;
  std::string& x = ps[at]; pos = x.size() > 20 ? symx_range("pos", 0, 7) : symx_range("pos", 0, x.size()); if (x.size() > 20 && pos > 3) pos = x.size() - 7 + pos;
  x.insert(pos, symStr(1, "byte"));
  std::string q; for (auto& y : ps) { if (&y != &ps[0]) q += '&'; q += y; }
  PathMatcherBuilder<M> b; b.SetQueryParamUnescapePlus(plus);
  CHECK(b.Register("POST", "/s/*", "other", std::unordered_set<std::string>{"k30", "a"}, tag(1)), "registration failed");
  CHECK(b.Register("GET", textWithVars(r, false), "bd", sysSet(r), tag(0)), "registration failed");
  auto pm = b.Build(); std::vector<VariableBinding> got; std::string body;
  CHECK(pm->Lookup("GET", "/s/P+", q, &got, &body) == tag(0), "no match");
  auto want = pathBindings(r, {"s", "P+"}, 0); for (auto& y : queryBindings(q, r.sys, plus)) { want.push_back(y); symx_cover("query binding"); }
  checkBindings(got, want); CHECK(body == "bd", "body field path");
}
#elif PROP == 10
static unsigned scaleJobs(int) { return 5; }
// more than 256 routes, then one of them again; or one route more than 256 times
static void scaleMany(bool same) {
  size_t n = 261; bool fail = symx_range("fail", 0, 1); PathMatcherBuilder<M> b; b.SetFailRegistrationOnDuplicate(fail); auto lit = [&](size_t i) { return "r" + num(same ? 0 : i); };
  for (size_t i = 0; i < n; i++) CHECK(b.Register("GET", "/" + lit(i) + (same && i % 2 ? "/{y}" : "/*"), "", tag(i)) == !(same && fail && i), "result of Register for a duplicate / non-duplicate");
  static const char* const ks[] = {"", "6", "13", "25"}; std::string k = "r" + std::string(ks[symx_range("stem", 0, 3)]) + symLit(1, "lit");
  bool dup = false; for (size_t i = 0; i < n; i++) dup = dup | strEq(k, lit(i));
  bool ok = b.Register("GET", "/" + k + "/{z}", "", tag(n)); CHECK(ok == !(dup & fail), "result of Register for a duplicate / non-duplicate");
  if (symx_range("third", 0, 1)) CHECK(b.Register("GET", "/" + k + "/*", "", tag(n + 1)) == !fail, "result of Register for a duplicate / non-duplicate"), dup = true;
  if (dup) symx_cover("duplicate"); symx_assume(k.find('?') == std::string::npos);
  auto pm = b.Build(); M got = pm->Lookup("GET", "/" + k + "/w"); symx_obs("result", got ? idx(got) : n + 2); CHECK(dup ? got == nullptr : got == tag(n), "the lookup of a duplicated / new route");
  M o = pm->Lookup("GET", "/r257/w"), o0 = pm->Lookup("GET", "/r0/w"); bool d257 = strEq(k, "r257"), d0 = strEq(k, "r0"); 
  if (!same) { CHECK(o == (d257 ? nullptr : tag(257)), "another route"); CHECK(o0 == (d0 ? nullptr : tag(0)), "another route"); } else if (!d0) CHECK(o0 == nullptr, "a duplicated route is found");
}
static void scaleMain(unsigned job) {
  if (job >= 3) return scaleMany(job == 4);
  // a registration among many, repeating an earlier one or not, with a symbolic byte
  size_t n = 20; bool fail = symx_range("fail", 0, 1); PathMatcherBuilder<M> b; b.SetFailRegistrationOnDuplicate(fail); std::vector<Reg> rs;
  std::string c = job == 1 ? deep(30) : job == 2 ? "/" + rep(200, 'l') : "/r";
  for (size_t i = 0; i < n; i++) rs.push_back(regOf((c + num(i / 2) + (i % 3 == 0 ? "/*" : i % 3 == 1 ? "/**" : "")).c_str(), i % 2 ? "GET" : "PUT"));
  Reg x = rs[symx_range("again", 0, n - 1)]; std::string& l = x.segs[x.segs.size() > 1 && x.segs.back().kind != pref::LIT ? x.segs.size() - 2 : x.segs.size() - 1].lit; size_t w = symx_range("change", 0, 2);
  if (w == 0) l.replace(l.size() - 1, 1, symLit(1, "lit")); else if (w == 1) x.method.replace(symx_range("at", 0, 2), 1, symStr(1, "method")); else l += symLit(1, "lit");
  if (l[0] == '*' || l[0] == '{') symx_stop();
  rs.push_back(x); bool any = false;
  for (size_t i = 0; i < rs.size(); i++) {
    bool dup = false; for (size_t j = 0; j < i; j++) { bool same = rs[j].segs.size() == rs[i].segs.size(); if (same) { for (size_t k = 0; k < rs[i].segs.size(); k++) same = same & (rs[j].segs[k].kind == rs[i].segs[k].kind) & strEq(rs[j].segs[k].lit, rs[i].segs[k].lit); dup = dup | (same & strEq(rs[j].method, rs[i].method)); } }
    bool ok = b.Register(rs[i].method, textOf(rs[i]), "", tag(i)); CHECK(ok == !(dup & fail), "result of Register for a duplicate / non-duplicate"); any = any | dup;
    if (i + 1 == rs.size() && dup) symx_cover("duplicate");
  }
  auto pm = b.Build(); std::vector<std::string> p; for (auto& g : x.segs) p.push_back(g.kind == pref::LIT ? g.lit : "w"); if (symx_range("first", 0, 1)) { p.clear(); for (auto& g : rs[3].segs) p.push_back(g.kind == pref::LIT ? g.lit : "w"); x.method = "GET"; }
  for (auto& s : p) for (char ch : s) symx_assume(ch != '?');
  checkAnswer(rs, x.method, "", p, pm->Lookup(x.method, joinPath(p)), false);
}
#elif PROP == 11
static unsigned scaleJobs(int) { return 2; }
static void scaleMain(unsigned job) {
  // many rejected registrations around many accepted ones
  PathMatcherBuilder<M> b; std::vector<Reg> rs; std::vector<std::string> verbs; b.SetMatchUnregisteredCustomVerb(job); size_t bad = 0; std::unordered_set<std::string> bs{"q", "r"};
  for (size_t i = 0; i < 24; i++) {
    for (size_t k = 0; k < 3; k++, bad++) { std::string t = "/r" + num(i) + "/{x" + num(i) + "=" + kBad[bad % NBAD]; CHECK(!b.Register(k ? "GET" : "*", bad % 2 ? t : kBad[bad % NBAD], "bad", bs, tag(40)), "an invalid template was accepted"); symx_cover("rejected"); }
    Reg r = regOf(("/r" + num(i) + (i % 2 ? "/*" : "/**")).c_str()); r.body = "b" + num(i); for (size_t k = 0; k < i % 4; k++) r.sys.push_back("s" + num(k)); r.sys.push_back("t" + num(i)); if (i % 5 == 4) { r.verb = "w" + num(i); verbs.push_back(r.verb); }
    r.vars.push_back(varOf(("x" + num(i) + ".y").c_str(), 1, 2)); CHECK(b.Register("GET", textWithVars(r, false), r.body, sysSet(r), tag(i)), "registration failed"); rs.push_back(r);
  }
  auto pm = b.Build(); std::string path = "/r" + symPart(symx_range("len", 1, 2), "part") + "/" + symPart(1, "seg"); if (symx_range("suffix", 0, 1)) path += ":w" + std::string(symx_range("two", 0, 1) ? "1" : "") + symPart(1, "verb");
  std::string q = "s0=1&s1=2&s2=3&q=4&t5=5&t14=6", body = "?"; std::vector<VariableBinding> vb; M m = pm->Lookup("GET", path, q, &vb, &body); pref::Norm n = pref::normalise(path, verbs, job);
  checkAnswer(rs, "GET", n.verb, n.parts, m, false);
  if (m) { symx_cover("found after rejection"); const Reg& r = rs[idx(m)]; CHECK(strEq(body, r.body), "body field path of another registration"); auto want = pathBindings(r, n.parts, 0); for (auto& x : queryBindings(q, r.sys, false)) want.push_back(x); checkBindings(vb, want); }
}
#else
static unsigned scaleJobs(int) { return 1; }
static void scaleMain(unsigned) {
  PathMatcherBuilder<M> b; std::string c = deep(20); size_t n = 0;
  std::vector<std::string> ts; ts.push_back(c + "/{x}"); ts.push_back(c + "/{y=**}"); ts.push_back("/s0/{z=**}:v"); ts.push_back("/{a=*/**}/s19/t"); ts.push_back("/" + rep(300, 'l') + "/{q=*/*}");
  for (auto& t : ts) { CHECK(b.Register("GET", t, "body", std::unordered_set<std::string>{"k"}, tag(n)), "registration failed"); n++; }
  auto pm = b.Build(); std::string path = symx_range("which", 0, 1) ? c + "/" + symPart(1, "part") : "/" + rep(299, 'l') + symPart(1, "part") + "/a/b"; if (symx_range("more", 0, 1)) path += "/" + symPart(1, "part") + ":v"; std::string q, get = "GET"; for (int i = 0; i < 20; i++) q += "k" + num(i) + "=%41+" + num(i) + "&";
  symx_freeze(); auto* v1 = new std::vector<VariableBinding>; auto* v2 = new std::vector<VariableBinding>; auto *s1 = new std::string, *s2 = new std::string;
  M r1 = pm->Lookup(get, path, q, v1, s1), r2 = pm->Lookup(get, path, q, v2, s2), r3 = pm->Lookup(get, path); symx_unfreeze();
  CHECK(r1 == r2, "the same lookup gives another method"); CHECK(r1 == r3, "the two lookup forms disagree"); CHECK(sameBindings(*v1, *v2), "the same lookup gives other bindings"); CHECK(strEq(*s1, *s2), "the same lookup gives another body field path");
  delete v1; delete v2; delete s1; delete s2;
}
#endif
unsigned symx_jobs(int tier) { return baseJobs(tier) + scaleJobs(tier); }
void symx_main(unsigned job) { unsigned n = scaleJobs(symx_tier()); if (job < n) scaleMain(job); else baseMain(job - n); }
