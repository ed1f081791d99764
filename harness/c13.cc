// C13: RegisterByHttpRule registers each binding of a rule
#include "common.h"
#include <unordered_set>
#include "grpc_transcoding/path_matcher_utility.h"
using namespace google::grpc::transcoding;
typedef const char* M;
static char tagmem[4];
struct Node { int kind, tmpl; std::string method, text, body; int parent; bool registered = false; };
static const char* kMethods[] = {"", "GET", "PUT", "POST", "DELETE", "PATCH"};
// tree shapes: parent of node i (pre-order)
static const int kShapes[][4] = {{-1, -2, -2, -2}, {-1, 0, -2, -2}, {-1, 0, 0, -2}, {-1, 0, 1, -2}, {-1, 0, 0, 0}, {-1, 0, 1, 0}, {-1, 0, 0, 2}, {-1, 0, 1, 2}, {-1, 0, 1, 1}};
static const unsigned NSHAPE = 9;
static unsigned baseJobs(int tier) { return NSHAPE * 7; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); const int* par = kShapes[job % NSHAPE]; int kind0 = job / NSHAPE;
  std::vector<Node> ns; std::string kind; bool haveKind = false; int n = 0; while (n < 4 && par[n] != -2) n++;
  // at most one node carries an invalid template, and at most one repeats an earlier node's template
  int bad = symx_range("bad", 0, n), dup = n > 1 && !bad ? symx_range("dup", 0, n - 1) : 0, dupOf = dup > 1 ? symx_range("dupof", 0, dup - 1) : 0;
  bool failDup = dup ? symx_range("failondup", 0, 1) : 0, haveSys = bad || dup ? n & 1 : symx_range("sys", 0, 1);
  static const int some[] = {1, 6, 0, 4};                  // kinds tried at every place
  int star = tier || !(bad || dup) ? symx_range("varied", 0, n - 1) : bad ? bad - 1 : dup;               // this node takes every kind
  for (int i = 0; i < n; i++) {
    Node x; x.parent = par[i];
    x.kind = i == 0 ? kind0 : i == star ? symx_range("kind", 0, 6) : (tier && n < 4) ? some[symx_range("kind", 0, 3)] : some[(i + kind0) % 3];
    x.tmpl = dup && dup == i ? dupOf : i;
    x.text = bad == i + 1 ? "/{t" : std::string("/t") + char('0' + x.tmpl);
    if (x.kind == 6) { if (!haveKind) { haveKind = true; static const unsigned kl[] = {1, 3, 0}; if (n <= (tier ? 2 : 1)) kind = symStr(kl[symx_range("longkind", 0, 2)], "custom"); else { static const char* ks[] = {"*", "GET", "HEAD", "?", ""}; kind = ks[symx_range("kindof", 0, bad || dup ? 1 : 4)]; } } x.method = kind; } else x.method = kMethods[x.kind];
    x.body = symStr(i == star, "body");
    ns.push_back(x);
  }
  google::api::HttpRule rule; std::vector<google::api::HttpRule*> rs;
  for (int i = 0; i < n; i++) {
    auto* r = i == 0 ? &rule : rs[ns[i].parent]->add_additional_bindings(); rs.push_back(r);
    const std::string& t = ns[i].text;
    switch (ns[i].kind) { case 1: r->set_get(t); break; case 2: r->set_put(t); break; case 3: r->set_post(t); break; case 4: r->set_delete_(t); break; case 5: r->set_patch(t); break; case 6: r->mutable_custom()->set_kind(kind); r->mutable_custom()->set_path(t); break; default: break; }
    r->set_body(ns[i].body); r->set_response_body("resp"); r->set_selector("sel");
  }
  // what must happen: pre-order, stop at the first failure
  bool ok = true;
  for (int i = 0; i < n && ok; i++) {
    if (ns[i].kind == 0) continue;
    if (bad == i + 1) { ok = false; break; }
    bool d = false; for (int j = 0; j < i; j++) if (ns[j].registered && ns[j].tmpl == ns[i].tmpl && strEq(ns[j].method, ns[i].method)) d = true;
    ns[i].registered = true; if (d && failDup) ok = false;
  }
  std::unordered_set<std::string> sys; std::string s1 = "k"; if (haveSys && n == 1) { s1 = symStr(1, "sys"); symx_assume((s1[0] != '=') & (s1[0] != '&') & (s1[0] != '.') & (s1[0] != 'z') & (s1[0] != '?') & (s1[0] != '/')); } if (haveSys) sys.insert(s1);
  PathMatcherBuilder<M> b; if (failDup) b.SetFailRegistrationOnDuplicate(true);
  M tag = &tagmem[1];
  bool got = haveSys ? PathMatcherUtility::RegisterByHttpRule(b, rule, sys, tag) : PathMatcherUtility::RegisterByHttpRule(b, rule, tag);
  symx_obs("returned", got); symx_cover(got ? "true" : "false");
  CHECK(got == ok, "the returned value does not say whether all bindings were registered");
  auto pm = b.Build();
  for (int t = 0; t < n; t++) for (int m = 1; m <= 7; m++) {
    std::string method = m <= 5 ? kMethods[m] : m == 6 ? kind : "?";
    int cnt = 0, who = -1;
    for (int i = 0; i < n; i++) if (ns[i].registered && ns[i].tmpl == t && strEq(ns[i].method, method)) { cnt++; who = i; }
    if (!cnt) for (int i = 0; i < n; i++) if (ns[i].registered && ns[i].tmpl == t && strEq(ns[i].method, "*")) { cnt++; who = i; }
    std::string path = std::string("/t") + char('0' + t), q = who >= 0 && m == (int)(ns[who].kind ? ns[who].kind : 1) ? s1 + "=1&z=2" : ""; std::vector<VariableBinding> vb; std::string body = "untouched";
    M r = pm->Lookup(method, path, q, &vb, &body); symx_obs("found", r != nullptr);
    CHECK((r != nullptr) == (cnt == 1), "a binding of the rule is not registered under its own method and template");
    if (!r) continue;
    symx_cover("found"); CHECK(r == tag, "another method"); obsStr("body", body); CHECK(strEq(body, ns[who].body), "body field path of another binding");
    CHECK(vb.size() == (q.empty() ? 0 : haveSys ? 1 : 2), "system parameters of the rule");
  }
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 3 };
static void scaleMain(unsigned job) {
  unsigned n = job == 0 ? 60 : 140; google::api::HttpRule rule, *r = &rule; unsigned at = symx_range("symbolic", 0, 9); at = at < 5 ? at : n - 10 + at; std::string sym = symStr(1, "body"); std::vector<Node> ns;
  for (unsigned i = 0; i < n; i++) {
    if (i) r = job == 0 ? r->add_additional_bindings() : job == 1 ? rule.add_additional_bindings() : i % 4 ? r->add_additional_bindings() : rule.add_additional_bindings();   // chain, siblings, both
    Node x; x.kind = 1 + i % 6; x.tmpl = i; x.parent = -1; x.text = "/t" + std::to_string(i) + (i % 7 == 3 ? std::string(200, 'l') : ""); x.body = "b" + std::to_string(i) + (i == at ? sym : ""); x.method = i % 6 == 5 ? "CUSTOM" : kMethods[x.kind];
    switch (x.kind) { case 1: r->set_get(x.text); break; case 2: r->set_put(x.text); break; case 3: r->set_post(x.text); break; case 4: r->set_delete_(x.text); break; case 5: r->set_patch(x.text); break; default: r->mutable_custom()->set_kind("CUSTOM"); r->mutable_custom()->set_path(x.text); break; }
    r->set_body(x.body); ns.push_back(x);
  }
  std::unordered_set<std::string> sys; for (int i = 0; i < 12; i++) sys.insert("k" + std::to_string(i));
  PathMatcherBuilder<M> b; M tag = &tagmem[1]; CHECK(PathMatcherUtility::RegisterByHttpRule(b, rule, sys, tag), "the returned value does not say whether all bindings were registered"); symx_cover("true");
  auto pm = b.Build();
  for (auto& x : ns) for (const char* m : {"GET", "PUT", "CUSTOM"}) {
    std::vector<VariableBinding> vb; std::string body = "?"; M g = pm->Lookup(m, x.text, "k11=1&z=2&k0=3", &vb, &body); CHECK((g == tag) == (x.method == m), "a binding of the rule is not registered under its own method and template");
    if (g) { symx_cover("found"); CHECK(strEq(body, x.body), "body field path of another binding"); CHECK(vb.size() == 1, "system parameters of the rule"); }
  }
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
