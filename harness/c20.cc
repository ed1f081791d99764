// C20: PrefixWriter
#include "convref.h"
#include "grpc_transcoding/prefix_writer.h"
using google::grpc::transcoding::PrefixWriter;
static const char kKinds[] = "biuIUdfsyn";
static const char* const kPrefix[] = {"", "f", "a.b", "", ".a..bc.", "x.y.z"};
enum { NP = 6 };
static unsigned baseJobs(int tier) { return NP * 10; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); unsigned pi = job % NP; char k0 = kKinds[job / NP];
  std::string prefix = kPrefix[pi]; if (pi == 3) prefix = symStr(tier ? 4 : 3, "prefix");
  // the fields of the prefix: its non-empty parts
  std::vector<std::string> fs; { std::string cur; for (char c : prefix) { if (c == '.') { if (!cur.empty()) fs.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) fs.push_back(cur); }
  Recorder rec; PrefixWriter pw(prefix, &rec); std::vector<Ev> want;
  std::string stack; unsigned n = symx_range("events", 1, pi == 3 ? 3 : tier ? 7 : 5); bool usedAll = false;
  for (unsigned i = 0; i < n || !stack.empty(); i++) {
    Ev e; unsigned op = i >= n ? 3 : symx_range("op", 0, stack.empty() ? 2 : 3);   // scalar, object, list, end
    if (i < n && stack.size() + (n - i) < 1) symx_stop();
    if (op == 0) { e = symScalar(usedAll ? kKinds[(k0 + i) % 10] : k0, symStr(i == 0, "name")); if (e.kind == 's' || e.kind == 'y') e.str = symStr(symx_range("strlen", 0, usedAll ? 1 : 2), "str"); usedAll = true; }
    else if (op == 3) { e.kind = stack.back() == '{' ? '}' : ']'; }
    else { e.kind = op == 1 ? '{' : '['; e.name = symStr(i == 0, "name"); }
    bool top = stack.empty(), openTop = top && op != 0; 
    if (op == 1 || op == 2) stack += e.kind; else if (op == 3) stack.pop_back();
    // expected output
    Ev c = e;
    if (top) {
      std::string name = e.name; for (auto& f : fs) { Ev s; s.kind = '{'; s.name = name; want.push_back(s); name = f; }
      c.name = name;
    }
    want.push_back(c);
    if (stack.empty() && !openTop) for (size_t k = 0; k < fs.size(); k++) { Ev s; s.kind = '}'; want.push_back(s); }
    CHECK(play(&pw, e) == &pw, "the writer returned is not this writer");
    CHECK(rec.ev.size() == want.size(), "number of events forwarded");
  }
  for (size_t i = 0; i < want.size(); i++) { obsEv(rec.ev[i]); CHECK(evEq(rec.ev[i], want[i]), "a forwarded event differs"); }
  symx_cover(fs.empty() ? "no prefix" : fs.size() == 1 ? "one" : "several");
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 3 };
static void scaleMain(unsigned job) {
  std::vector<std::string> fs; for (unsigned i = 0, n = job == 0 ? 14 : job == 1 ? 2 : 140; i < n; i++) fs.push_back("field" + std::to_string(i)); if (job == 1) fs.push_back(std::string(300, 'f'));
  fs[symx_range("symbolic", 0, 2) * (fs.size() - 1) / 2] += [] { std::string b = symStr(1, "prefix"); symx_assume(b[0] != '.'); return b; }();
  std::string prefix; for (auto& f : fs) { if (!prefix.empty()) prefix += '.'; prefix += f; }
  Recorder rec; PrefixWriter pw(prefix, &rec); std::vector<Ev> want, in; auto ev = [&](char k, const std::string& n) { Ev e; e.kind = k; e.name = n; in.push_back(e); };
  unsigned shape = symx_range("shape", 0, 3), depth = shape == 1 ? 300 : 12; std::string top = symStr(1, "name"); bool many = job == 1 && symx_range("many", 0, 1);
  if (shape == 3) { for (int i = 0; i < (job == 1 && many ? 270 : job == 2 ? 8 : 20); i++) { Ev e = symScalar("siub"[i % 4], top); in.push_back(e); } }       // many values at the top
  else { for (unsigned i = 0; i < depth; i++) ev(i % 3 == 2 ? '[' : '{', i ? (shape == 2 ? std::string(300, 'n') : "n") : top); for (int i = 0; i < 30; i++) { Ev e; e.kind = "siIUn"[i % 5]; e.name = "v"; e.num = i; if (e.kind == 's') { e.num = 0; e.str = std::string(i * 20, 's'); } if (e.kind == 'n') e.num = 0; in.push_back(e); } for (unsigned i = depth; i-- > 0;) ev(i % 3 == 2 ? ']' : '}', ""); in.push_back(symScalar('I', top)); }
  size_t st = 0;
  for (auto& e : in) {
    bool open = e.kind == '{' || e.kind == '[', close = e.kind == '}' || e.kind == ']'; if (close) st--; Ev c = e;
    if (st == 0 && !close) { std::string name = e.name; for (auto& f : fs) { Ev o; o.kind = '{'; o.name = name; want.push_back(o); name = f; } c.name = name; }
    want.push_back(c); if (open) st++; else if (st == 0) for (size_t k = 0; k < fs.size(); k++) { Ev o; o.kind = '}'; want.push_back(o); }
    CHECK(play(&pw, e) == &pw, "the writer returned is not this writer"); CHECK(rec.ev.size() == want.size(), "number of events forwarded");
  }
  for (size_t i = 0; i < want.size(); i++) CHECK(evEq(rec.ev[i], want[i]), "a forwarded event differs");
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
