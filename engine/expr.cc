#include "expr.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <cmath>

std::vector<VarInfo> g_vars;
static std::vector<Expr*> g_varE;
Expr* varExpr(u32 id) { return g_varE[id]; }
SolverStats g_ss;

namespace {
struct VSHash { size_t operator()(const VarSet& v) const { size_t h = 1469598103934665603ull; for (u32 x : v) h = (h ^ x) * 1099511628211ull; return h; } };
std::unordered_map<VarSet, const VarSet*, VSHash>& vsPool() { static auto* p = new std::unordered_map<VarSet, const VarSet*, VSHash>(); return *p; }
const VarSet* internVS(VarSet&& v) {
  auto it = vsPool().find(v);
  if (it != vsPool().end()) return it->second;
  auto* n = new VarSet(v);
  vsPool()[*n] = n;
  return n;
}
const VarSet* emptyVS() { static const VarSet* e = internVS({}); return e; }
struct PairHash { size_t operator()(const std::pair<const void*, const void*>& p) const { return (size_t)p.first * 0x9E3779B97F4A7C15ull ^ ((size_t)p.second >> 4); } };
const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  static auto* memo = new std::unordered_map<std::pair<const void*, const void*>, const VarSet*, PairHash>();
  auto key = std::make_pair((const void*)a, (const void*)b);
  auto it = memo->find(key);
  if (it != memo->end()) return it->second;
  VarSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  const VarSet* p = internVS(std::move(r));
  (*memo)[key] = p;
  return p;
}

// open-addressing hash-cons table
std::vector<Expr*> tab(1 << 16, nullptr);
u64 nexpr = 0;
size_t hashKey(Op op, unsigned w, u64 c, Expr* a, Expr* b, Expr* d) {
  u64 h = (u64)op * 0x9E3779B97F4A7C15ull + w;
  h = (h ^ c) * 0xff51afd7ed558ccdull; h ^= h >> 32;
  h = (h ^ (a ? a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  h = (h ^ (b ? b->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 31;
  h = (h ^ (d ? d->id + 1 : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 33;
  return h;
}
char* arenaCur = nullptr; size_t arenaLeft = 0;
Expr* allocExpr() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 20; arenaCur = (char*)malloc(arenaLeft); }
  Expr* e = (Expr*)arenaCur; arenaCur += sizeof(Expr); arenaLeft -= sizeof(Expr);
  return e;
}
Expr* intern(Op op, unsigned w, u64 c, Expr* a, Expr* b, Expr* d) {
  if ((nexpr + 1) * 2 > tab.size()) {
    std::vector<Expr*> old; old.swap(tab); tab.assign(old.size() * 2, nullptr);
    for (Expr* e : old) if (e) {
      size_t i = hashKey(e->op, e->w, e->c, e->k[0], e->k[1], e->k[2]) & (tab.size() - 1);
      while (tab[i]) i = (i + 1) & (tab.size() - 1);
      tab[i] = e;
    }
  }
  size_t i = hashKey(op, w, c, a, b, d) & (tab.size() - 1);
  while (tab[i]) {
    Expr* e = tab[i];
    if (e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
    i = (i + 1) & (tab.size() - 1);
  }
  Expr* e = allocExpr();
  e->op = op; e->w = w; e->id = (u32)nexpr++; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
  e->tab = nullptr; e->z3 = nullptr; e->stamp = 0; e->val = 0;
  const VarSet* vs = emptyVS();
  u64 sz = 1;
  for (int j = 0; j < 3; j++) if (e->k[j]) { vs = unionVS(vs, e->k[j]->vs); sz += e->k[j]->size; }
  e->vs = vs; e->size = sz > 0x7fffffff ? 0x7fffffff : (u32)sz;
  tab[i] = e;
  return e;
}
double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
float asF(u64 v) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; }
u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
u64 fromF(float f) { u32 v; memcpy(&v, &f, 4); return v; }
}  // namespace

u64 exprCount() { return nexpr; }

u64 foldOp(Op op, unsigned w, unsigned kw, u64 a, u64 b, u64 c, u64 imm) {
  u64 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(0 - (u64)x) & m; return (u64)(x / y) & m; }
    case O_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sx(a, kw) < sx(b, kw);
    case O_SLE: return sx(a, kw) <= sx(b, kw);
    case O_ITE: return a ? b : c;
    case O_ZEXT: return a;
    case O_SEXT: return (u64)sx(a, kw) & m;
    case O_EXTRACT: return (a >> imm) & m;
    case O_CONCAT: return ((a << imm) | b) & m;
    case O_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case O_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case O_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case O_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case O_FEQ: return kw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case O_FLT: return kw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case O_FLE: return kw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case O_FUNO: return kw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    case O_FPTOSI: { double d = kw == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.3e18)) return 0; return (u64)(i64)d & m; }
    case O_FPTOUI: { double d = kw == 64 ? asD(a) : asF(a); if (!(d > -1 && d < 1.85e19)) return 0; return (u64)d & m; }
    case O_SITOFP: return w == 64 ? fromD((double)sx(a, kw)) : fromF((float)sx(a, kw));
    case O_UITOFP: return w == 64 ? fromD((double)a) : fromF((float)a);
    case O_FPTRUNC: return fromF((float)asD(a));
    case O_FPEXT: return fromD((double)asF(a));
    default: abort();
  }
}

Expr* mkConst(u64 c, unsigned w) { return intern(O_CONST, w, c & maskw(w), nullptr, nullptr, nullptr); }
Expr* mkVar(const std::string& name, unsigned w) {
  u32 id = g_vars.size();
  g_vars.push_back({name, w});
  Expr* e = intern(O_VAR, w, id, nullptr, nullptr, nullptr);
  e->vs = internVS({id});
  g_varE.push_back(e);
  return e;
}
Expr* mkNot1(Expr* a) { return mk(O_XOR, 1, a, mkConst(1, 1)); }

Expr* mkExtract(Expr* a, unsigned off, unsigned w) { return mk(O_EXTRACT, w, a, nullptr, nullptr, off); }

static Expr* tryTabFold(Expr* e) {
  // a boolean over one byte variable that is constant for all 256 values folds
  if (e->w == 1 && e->vs->size() == 1 && g_vars[(*e->vs)[0]].w == 8 && e->size < 4000) {
    const u64* t = exprTable(e);
    bool all1 = true, all0 = true;
    for (int i = 0; i < 256; i++) { if (t[i]) all0 = false; else all1 = false; }
    if (all1) return mkConst(1, 1);
    if (all0) return mkConst(0, 1);
  }
  return e;
}

// an upper bound of the bits that can be set
static u64 possBits(Expr* e, int depth = 8) {
  if (e->w > 64) return ~0ull;
  u64 m = maskw(e->w);
  if (isC(e)) return e->c;
  if (depth == 0) return m;
  switch (e->op) {
    case O_ZEXT: return possBits(e->k[0], depth - 1);
    case O_AND: return possBits(e->k[0], depth - 1) & possBits(e->k[1], depth - 1);
    case O_OR: case O_XOR: return possBits(e->k[0], depth - 1) | possBits(e->k[1], depth - 1);
    case O_ITE: return possBits(e->k[1], depth - 1) | possBits(e->k[2], depth - 1);
    case O_SHL: return isC(e->k[1]) && e->k[1]->c < 64 ? (possBits(e->k[0], depth - 1) << e->k[1]->c) & m : m;
    case O_CONCAT: return ((possBits(e->k[0], depth - 1) << e->k[1]->w) | possBits(e->k[1], depth - 1)) & m;
    case O_EXTRACT: return e->k[0]->w <= 64 ? (possBits(e->k[0], depth - 1) >> e->c) & m : m;
    default: return m;
  }
}

Expr* mk(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u64 imm) {
  // constant folding
  if (isC(a) && (!b || isC(b)) && (!c || isC(c))) {
    if (op == O_CONCAT) imm = b->w;
    if (w <= 64) return mkConst(foldOp(op, w, a->w, a->c, b ? b->c : 0, c ? c->c : 0, imm), w);
  }
  switch (op) {
    case O_ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == O_ADD && isC(a->k[1])) return mk(O_ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (w > 8 && w <= 64 && !isC(b) && (a->op == O_SHL || b->op == O_SHL) && (possBits(a) & possBits(b)) == 0) return mk(O_OR, w, a, b);
      break;
    case O_SUB:
      if (isC(b)) return mk(O_ADD, w, a, mkConst(0 - b->c, w));
      if (a == b) return mkConst(0, w);
      // (x + c1) - x, (x + c1) - (x + c2)
      {
        Expr* ab = a; u64 ac = 0; if (a->op == O_ADD && isC(a->k[1])) { ab = a->k[0]; ac = a->k[1]->c; }
        Expr* bb = b; u64 bc = 0; if (b->op == O_ADD && isC(b->k[1])) { bb = b->k[0]; bc = b->k[1]->c; }
        if (ab == bb) return mkConst(ac - bc, w);
      }
      break;
    case O_MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && w <= 64 && (b->c & (b->c - 1)) == 0) return mk(O_SHL, w, a, mkConst(__builtin_ctzll(b->c), w));
      break;
    case O_UDIV: case O_SDIV:
      if (isC(b, 1)) return a;
      break;
    case O_AND:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return b;
      if (isC(b, maskw(w))) return a;
      if (a == b) return a;
      if (isC(b) && a->op == O_AND && isC(a->k[1])) return mk(O_AND, w, a->k[0], mkConst(a->k[1]->c & b->c, w));
      if (isC(b) && a->op == O_ZEXT && (maskw(a->k[0]->w) & ~b->c) == 0) return a;
      if (isC(b) && w > 8) {  // low mask -> zext(extract)
        u64 m = b->c; if ((m & (m + 1)) == 0) { unsigned n = __builtin_popcountll(m); if (n < w) return mk(O_ZEXT, w, mkExtract(a, 0, n)); }
      }
      if (w == 1) { if (a->op == O_XOR && isC(a->k[1], 1) && a->k[0] == b) return mkConst(0, 1); if (b->op == O_XOR && isC(b->k[1], 1) && b->k[0] == a) return mkConst(0, 1); }
      break;
    case O_OR:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return a;
      if (isC(b, maskw(w))) return b;
      if (a == b) return a;
      if (w == 1) { if (a->op == O_XOR && isC(a->k[1], 1) && a->k[0] == b) return mkConst(1, 1); if (b->op == O_XOR && isC(b->k[1], 1) && b->k[0] == a) return mkConst(1, 1); }
      // (zext x) | ((zext y) << |x|)  ->  zext(concat(y,x))
      {
        Expr *lo = a, *hi = b;
        for (int t = 0; t < 2; t++, std::swap(lo, hi)) {
          if (lo->op == O_ZEXT && hi->op == O_SHL && isC(hi->k[1]) && hi->k[0]->op == O_ZEXT) {
            unsigned s = (unsigned)hi->k[1]->c; Expr* y = hi->k[0]->k[0]; Expr* x = lo->k[0];
            if (x->w <= s && s + y->w <= w) {
              Expr* xx = x->w == s ? x : mk(O_ZEXT, s, x);
              Expr* r = mk(O_CONCAT, s + y->w, y, xx);
              return r->w == w ? r : mk(O_ZEXT, w, r);
            }
          }
        }
        if (w > 8 && w <= 64) for (int t = 0; t < 2; t++, std::swap(lo, hi))
          if (hi->op == O_SHL && isC(hi->k[1]) && hi->k[1]->c > 0 && hi->k[1]->c < w && (possBits(lo) >> hi->k[1]->c) == 0) {
            unsigned s = (unsigned)hi->k[1]->c;
            return mk(O_CONCAT, w, mkExtract(hi->k[0], 0, w - s), mkExtract(lo, 0, s));
          }
      }
      break;
    case O_XOR:
      if (isC(a)) std::swap(a, b);
      if (isC(b, 0)) return a;
      if (a == b) return mkConst(0, w);
      if (isC(b) && a->op == O_XOR && isC(a->k[1])) return mk(O_XOR, w, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      if (w > 8 && w <= 64 && (a->op == O_SHL || b->op == O_SHL) && (possBits(a) & possBits(b)) == 0) return mk(O_OR, w, a, b);
      break;
    case O_SHL:
      if (isC(b, 0)) return a;
      if (isC(b) && b->c >= w) return mkConst(0, w);
      break;
    case O_LSHR:
      if (isC(b, 0)) return a;
      if (isC(b) && b->c >= w) return mkConst(0, w);
      if (isC(b)) return mk(O_ZEXT, w, mkExtract(a, (unsigned)b->c, w - (unsigned)b->c));
      break;
    case O_ASHR:
      if (isC(b, 0)) return a;
      if (isC(b) && b->c < w) return mk(O_SEXT, w, mkExtract(a, (unsigned)b->c, w - (unsigned)b->c));
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (isC(a)) std::swap(a, b);
      if (a->w == 1 && isC(b)) return b->c ? a : mkNot1(a);
      if (isC(b)) {
        if (a->op == O_ZEXT) { if (b->c > maskw(a->k[0]->w)) return mkConst(0, 1); return mk(O_EQ, 1, a->k[0], mkConst(b->c, a->k[0]->w)); }
        if (a->op == O_SEXT) { u64 t = b->c & maskw(a->k[0]->w); if (((u64)sx(t, a->k[0]->w) & maskw(a->w)) != b->c) return mkConst(0, 1); return mk(O_EQ, 1, a->k[0], mkConst(t, a->k[0]->w)); }
        if (a->op == O_ADD && isC(a->k[1])) return mk(O_EQ, 1, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
        if (a->op == O_XOR && isC(a->k[1])) return mk(O_EQ, 1, a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) {
          bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
          if (t && f) return mkConst(1, 1); if (!t && !f) return mkConst(0, 1);
          return t ? a->k[0] : mkNot1(a->k[0]);
        }
        if (a->op == O_ITE && a->size < 2000 && (isC(a->k[1]) || isC(a->k[2])))
          return mk(O_ITE, 1, a->k[0], mk(O_EQ, 1, a->k[1], b), mk(O_EQ, 1, a->k[2], b));
        if (a->op == O_CONCAT && a->w <= 64) {
          Expr* lo = mk(O_EQ, 1, a->k[1], mkConst(b->c & maskw(a->k[1]->w), a->k[1]->w));
          Expr* hi = mk(O_EQ, 1, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w));
          return mk(O_AND, 1, hi, lo);
        }
      } else if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk(O_EQ, 1, a->k[0], b->k[0]);
      else if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mk(O_EQ, 1, a->k[0], b->k[0]);
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (isC(b, 0)) return mkConst(0, 1);
      if (isC(b, 1)) return mk(O_EQ, 1, a, mkConst(0, a->w));
      if (isC(a) && a->c == maskw(a->w)) return mkConst(0, 1);
      if (a->op == O_ZEXT && isC(b)) { if (b->c > maskw(a->k[0]->w)) return mkConst(1, 1); return mk(O_ULT, 1, a->k[0], mkConst(b->c, a->k[0]->w)); }
      if (b->op == O_ZEXT && isC(a)) { if (a->c >= maskw(b->k[0]->w)) return mkConst(0, 1); return mk(O_ULT, 1, mkConst(a->c, b->k[0]->w), b->k[0]); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk(O_ULT, 1, a->k[0], b->k[0]);
      break;
    case O_ULE: return mkNot1(mk(O_ULT, 1, b, a));
    case O_SLE: return mkNot1(mk(O_SLT, 1, b, a));
    case O_SLT:
      if (a == b) return mkConst(0, 1);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk(O_ULT, 1, a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mk(O_SLT, 1, a->k[0], b->k[0]);
      if (a->op == O_ZEXT && isC(b)) { i64 s = sx(b->c, b->w); if (s <= 0) return mkConst(0, 1); return mk(O_ULT, 1, a, b); }
      if (b->op == O_ZEXT && isC(a)) { i64 s = sx(a->c, a->w); if (s < 0) return mkConst(1, 1); return mk(O_ULT, 1, a, b); }
      break;
    case O_ITE:
      if (isC(a)) return a->c ? b : c;
      if (b == c) return b;
      if (a->op == O_XOR && isC(a->k[1], 1)) return mk(O_ITE, w, a->k[0], c, b);
      if (w == 1) {
        if (isC(b, 1) && isC(c, 0)) return a;
        if (isC(b, 0) && isC(c, 1)) return mkNot1(a);
        if (isC(b, 1)) return mk(O_OR, 1, a, c);
        if (isC(b, 0)) return mk(O_AND, 1, mkNot1(a), c);
        if (isC(c, 0)) return mk(O_AND, 1, a, b);
        if (isC(c, 1)) return mk(O_OR, 1, mkNot1(a), b);
      }
      if (b->op == O_ITE && b->k[0] == a) return mk(O_ITE, w, a, b->k[1], c);
      if (c->op == O_ITE && c->k[0] == a) return mk(O_ITE, w, a, b, c->k[2]);
      break;
    case O_ZEXT:
      if (a->w == w) return a;
      if (a->op == O_ZEXT) return mk(O_ZEXT, w, a->k[0]);
      break;
    case O_SEXT:
      if (a->w == w) return a;
      if (a->op == O_SEXT) return mk(O_SEXT, w, a->k[0]);
      if (a->op == O_ZEXT) return mk(O_ZEXT, w, a->k[0]);
      break;
    case O_EXTRACT: {
      unsigned off = (unsigned)imm;
      if (off == 0 && w == a->w) return a;
      if (a->op == O_EXTRACT) return mkExtract(a->k[0], (unsigned)a->c + off, w);
      if (a->op == O_CONCAT) {
        unsigned lw = a->k[1]->w;
        if (off + w <= lw) return mkExtract(a->k[1], off, w);
        if (off >= lw) return mkExtract(a->k[0], off - lw, w);
      }
      if (a->op == O_ZEXT) {
        unsigned kw = a->k[0]->w;
        if (off + w <= kw) return mkExtract(a->k[0], off, w);
        if (off >= kw) return mkConst(0, w);
        return mk(O_ZEXT, w, mkExtract(a->k[0], off, kw - off));
      }
      if (a->op == O_SEXT && off + w <= a->k[0]->w) return mkExtract(a->k[0], off, w);
      if ((a->op == O_AND || a->op == O_OR || a->op == O_XOR) && isC(a->k[1]))
        return mk(a->op, w, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
      if ((a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) && off == 0 && a->size < 200)
        return mk(a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      if (a->op == O_SHL && isC(a->k[1])) {
        unsigned s = (unsigned)a->k[1]->c;
        if (off + w <= s) return mkConst(0, w);
        if (off >= s) return mkExtract(a->k[0], off - s, w);
      }
      if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2])))
        return mk(O_ITE, w, a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
      break;
    }
    case O_CONCAT:
      if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->c == b->c + b->w)
        return mkExtract(a->k[0], (unsigned)b->c, w);
      if (isC(a, 0) && w <= 64) return mk(O_ZEXT, w, b);
      if (a->op == O_ZEXT && w <= 64) return mk(O_ZEXT, w, mk(O_CONCAT, a->k[0]->w + b->w, a->k[0], b));
      break;
    default: break;
  }
  Expr* e = intern(op, w, op == O_EXTRACT ? imm : 0, a, b, c);
  if (w == 1) return tryTabFold(e);
  return e;
}

bool singleByte(Expr* e, u32& var) {
  if (e->vs->size() != 1) return false;
  var = (*e->vs)[0];
  return g_vars[var].w == 8;
}

const u64* exprTable(Expr* e) {
  if (e->tab) return e->tab;
  u64* t = (u64*)malloc(256 * 8);
  if (e->op == O_CONST) { for (int i = 0; i < 256; i++) t[i] = e->c; }
  else if (e->op == O_VAR) { for (int i = 0; i < 256; i++) t[i] = i; }
  else {
    const u64* kt[3] = {nullptr, nullptr, nullptr};
    for (int j = 0; j < 3; j++) if (e->k[j] && !isC(e->k[j])) kt[j] = exprTable(e->k[j]);
    u64 imm = e->c; if (e->op == O_CONCAT) imm = e->k[1]->w;
    for (int i = 0; i < 256; i++) {
      u64 v[3];
      for (int j = 0; j < 3; j++) v[j] = kt[j] ? kt[j][i] : (e->k[j] ? e->k[j]->c : 0);
      t[i] = foldOp(e->op, e->w, e->k[0]->w, v[0], v[1], v[2], imm);
    }
  }
  if (e->op != O_CONST) e->tab = t;
  return t;
}

// Maximal runs of byte values on which a table is constant or the byte plus a constant.
struct Run { int lo, hi; bool delta; u64 c; };
static bool tableRuns(const u64* t, const Dom& dom, u64 m, std::vector<Run>& out, size_t maxRuns) {
  int i = 0;
  while (i < 256) {
    if (!dom[i]) { if (out.empty()) { i++; continue; } out.back().hi = i; i++; continue; }
    int a = i + 1; while (a < 256 && (!dom[a] || t[a] == t[i])) a++;
    int b = i + 1; while (b < 256 && (!dom[b] || ((t[b] - (u64)b) & m) == ((t[i] - (u64)i) & m))) b++;
    if (a >= b) { out.push_back({i, a - 1, false, t[i]}); i = a; }
    else { out.push_back({i, b - 1, true, (t[i] - (u64)i) & m}); i = b; }
    if (out.size() > maxRuns) return false;
  }
  return true;
}
Expr* exprFromTable(Expr* v, const u64* t, const Dom& dom, unsigned w) {
  std::vector<Run> rs;
  if (w > 64 || w < 8 || !tableRuns(t, dom, maskw(w), rs, 24) || rs.empty()) return nullptr;
  Expr* vw = mk(O_ZEXT, w, v); Expr* r = nullptr;
  for (size_t i = rs.size(); i-- > 0;) {
    Expr* val = rs[i].delta ? mk(O_ADD, w, vw, mkConst(rs[i].c, w)) : mkConst(rs[i].c, w);
    r = r ? mk(O_ITE, w, mk(O_ULT, 1, v, mkConst(rs[i].hi + 1, 8)), val, r) : val;
  }
  return r;
}

Dom domOf(Expr* e) {
  const u64* t = exprTable(e);
  Dom d;
  for (int i = 0; i < 256; i++) if (t[i]) d.set(i);
  return d;
}

static u32 g_stamp = 0;
static u64 evalRec(Expr* e, const std::vector<u64>& m) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_VAR) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
  if (e->stamp == g_stamp) return e->val;
  u64 r;
  if (e->op == O_ITE) r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m);
  else {
    u64 a = evalRec(e->k[0], m), b = e->k[1] ? evalRec(e->k[1], m) : 0;
    r = foldOp(e->op, e->w, e->k[0]->w, a, b, 0, e->op == O_CONCAT ? e->k[1]->w : e->c);
  }
  e->stamp = g_stamp; e->val = r;
  return r;
}
u64 evalExpr(Expr* e, const std::vector<u64>& model, bool newEpoch) {
  if (newEpoch) g_stamp++;
  if (e->tab && e->vs->size() == 1) { u32 v = (*e->vs)[0]; return e->tab[(v < model.size() ? model[v] : 0) & 255]; }
  return evalRec(e, model);
}

static const char* opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","feq","flt","fle","funo","fptosi","fptoui","sitofp","uitofp","fptrunc","fpext"};
std::string exprStr(Expr* e, int d) {
  char buf[64];
  if (e->op == O_CONST) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == O_VAR) return g_vars[e->c].name;
  if (d == 0) return "...";
  std::string s = "("; s += opn[e->op];
  if (e->op == O_EXTRACT) { snprintf(buf, 64, "[%u,%u]", (unsigned)e->c, e->w); s += buf; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- Z3
static Z3_context C; static Z3_solver S; static Z3_params P;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void solverInit(unsigned timeoutMs) {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);  // no reference counting: terms live as long as the context
  Z3_set_error_handler(C, z3err);
  S = Z3_mk_solver(C); Z3_solver_inc_ref(C, S);
  P = Z3_mk_params(C); Z3_params_inc_ref(C, P);
  Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), timeoutMs);
  Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "random_seed"), 1);
  Z3_solver_set_params(C, S, P);
}
static Z3_ast Z(Expr* e);
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1))); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); }
static Z3_ast F(Expr* e) { return Z3_mk_fpa_to_fp_bv(C, Z(e), fps(e->w)); }
static Z3_ast unF(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(C, f); }
static Z3_ast Zraw(Expr* e) {
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  switch (e->op) {
    case O_CONST: return Z3_mk_unsigned_int64(C, e->c, Z3_mk_bv_sort(C, e->w));
    case O_VAR: { std::string n = "v" + std::to_string(e->c); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, e->w)); }
    case O_ADD: return Z3_mk_bvadd(C, Z(a), Z(b));
    case O_SUB: return Z3_mk_bvsub(C, Z(a), Z(b));
    case O_MUL: return Z3_mk_bvmul(C, Z(a), Z(b));
    case O_UDIV: return Z3_mk_bvudiv(C, Z(a), Z(b));
    case O_SDIV: return Z3_mk_bvsdiv(C, Z(a), Z(b));
    case O_UREM: return Z3_mk_bvurem(C, Z(a), Z(b));
    case O_SREM: return Z3_mk_bvsrem(C, Z(a), Z(b));
    case O_AND: return Z3_mk_bvand(C, Z(a), Z(b));
    case O_OR: return Z3_mk_bvor(C, Z(a), Z(b));
    case O_XOR: return Z3_mk_bvxor(C, Z(a), Z(b));
    case O_SHL: return Z3_mk_bvshl(C, Z(a), Z(b));
    case O_LSHR: return Z3_mk_bvlshr(C, Z(a), Z(b));
    case O_ASHR: return Z3_mk_bvashr(C, Z(a), Z(b));
    case O_EQ: return b2v(Z3_mk_eq(C, Z(a), Z(b)));
    case O_ULT: return b2v(Z3_mk_bvult(C, Z(a), Z(b)));
    case O_ULE: return b2v(Z3_mk_bvule(C, Z(a), Z(b)));
    case O_SLT: return b2v(Z3_mk_bvslt(C, Z(a), Z(b)));
    case O_SLE: return b2v(Z3_mk_bvsle(C, Z(a), Z(b)));
    case O_ITE: return Z3_mk_ite(C, Z3_mk_eq(C, Z(a), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))), Z(b), Z(c));
    case O_ZEXT: return Z3_mk_zero_ext(C, e->w - a->w, Z(a));
    case O_SEXT: return Z3_mk_sign_ext(C, e->w - a->w, Z(a));
    case O_EXTRACT: return Z3_mk_extract(C, (unsigned)e->c + e->w - 1, (unsigned)e->c, Z(a));
    case O_CONCAT: return Z3_mk_concat(C, Z(a), Z(b));
    case O_FADD: return unF(Z3_mk_fpa_add(C, Z3_mk_fpa_rne(C), F(a), F(b)));
    case O_FSUB: return unF(Z3_mk_fpa_sub(C, Z3_mk_fpa_rne(C), F(a), F(b)));
    case O_FMUL: return unF(Z3_mk_fpa_mul(C, Z3_mk_fpa_rne(C), F(a), F(b)));
    case O_FDIV: return unF(Z3_mk_fpa_div(C, Z3_mk_fpa_rne(C), F(a), F(b)));
    case O_FEQ: return b2v(Z3_mk_fpa_eq(C, F(a), F(b)));
    case O_FLT: return b2v(Z3_mk_fpa_lt(C, F(a), F(b)));
    case O_FLE: return b2v(Z3_mk_fpa_leq(C, F(a), F(b)));
    case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, F(a)), Z3_mk_fpa_is_nan(C, F(b))}; return b2v(Z3_mk_or(C, 2, x)); }
    case O_FPTOSI: return Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), F(a), e->w);
    case O_FPTOUI: return Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), F(a), e->w);
    case O_SITOFP: return unF(Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), Z(a), fps(e->w)));
    case O_UITOFP: return unF(Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), Z(a), fps(e->w)));
    case O_FPTRUNC: return unF(Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), F(a), fps(32)));
    case O_FPEXT: return unF(Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), F(a), fps(64)));
  }
  abort();
}
// Equal, smaller terms for functions of one byte: unions of intervals, and piecewise constants or sums.
static Z3_ast byteNum(u64 v) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, 8)); }
static Z3_ast byteVar(u32 v) { std::string n = "v" + std::to_string(v); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, 8)); }
static Z3_ast canonVal(Expr* e) {
  u32 v;
  if (e->w < 8 || e->w > 64 || e->size < 8 || !singleByte(e, v)) return nullptr;
  Dom all; all.set(); std::vector<Run> rs;
  if (!tableRuns(exprTable(e), all, maskw(e->w), rs, 12)) return nullptr;
  Z3_ast x = byteVar(v), xw = e->w == 8 ? x : Z3_mk_zero_ext(C, e->w - 8, x), r = nullptr;
  for (size_t i = rs.size(); i-- > 0;) {
    Z3_ast k = Z3_mk_unsigned_int64(C, rs[i].c, Z3_mk_bv_sort(C, e->w));
    Z3_ast val = rs[i].delta ? (rs[i].c ? Z3_mk_bvadd(C, xw, k) : xw) : k;
    r = r ? Z3_mk_ite(C, Z3_mk_bvule(C, x, byteNum(rs[i].hi)), val, r) : val;
  }
  return r;
}
static Z3_ast canonBool(Expr* e) {
  u32 v;
  if (e->w != 1 || e->size < 8 || !singleByte(e, v)) return nullptr;
  const u64* t = exprTable(e); std::vector<Z3_ast> parts; Z3_ast x = byteVar(v);
  for (int i = 0; i < 256;) {
    if (!t[i]) { i++; continue; }
    int j = i; while (j < 255 && t[j + 1]) j++;
    if (i == j) parts.push_back(Z3_mk_eq(C, x, byteNum(i)));
    else if (i == 0) parts.push_back(Z3_mk_bvule(C, x, byteNum(j)));
    else if (j == 255) parts.push_back(Z3_mk_bvuge(C, x, byteNum(i)));
    else { Z3_ast y[2] = {Z3_mk_bvuge(C, x, byteNum(i)), Z3_mk_bvule(C, x, byteNum(j))}; parts.push_back(Z3_mk_and(C, 2, y)); }
    if (parts.size() > 24) return nullptr;
    i = j + 1;
  }
  if (parts.empty()) return Z3_mk_false(C);
  return parts.size() == 1 ? parts[0] : Z3_mk_or(C, (unsigned)parts.size(), parts.data());
}
static Z3_ast Z(Expr* e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = canonVal(e);
  if (!r) { r = canonBool(e); if (r) r = b2v(r); }
  if (!r) r = Zraw(e);
  e->z3 = r;
  return r;
}
static std::unordered_map<Expr*, Z3_ast> zbCache;
static Z3_ast Zb1(Expr* e);
static Z3_ast Zb(Expr* e) { auto it = zbCache.find(e); if (it != zbCache.end()) return it->second; Z3_ast r = Zb1(e); zbCache[e] = r; return r; }
static Z3_ast Zb1(Expr* e) {  // as boolean
  if (Z3_ast r = canonBool(e)) return r;
  Z3_ast one = Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1));
  Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
    case O_EQ: return Z3_mk_eq(C, Z(a), Z(b));
    case O_ULT: return Z3_mk_bvult(C, Z(a), Z(b));
    case O_SLT: return Z3_mk_bvslt(C, Z(a), Z(b));
    case O_XOR: if (e->w == 1 && isC(b, 1)) return Z3_mk_not(C, Zb(a)); break;
    case O_AND: { Z3_ast x[2] = {Zb(a), Zb(b)}; return Z3_mk_and(C, 2, x); }
    case O_OR: { Z3_ast x[2] = {Zb(a), Zb(b)}; return Z3_mk_or(C, 2, x); }
    default: break;
  }
  return Z3_mk_eq(C, Z(e), one);
}

struct CacheEnt { int res; std::vector<std::pair<u32, u64>> model; };
static std::unordered_map<std::string, CacheEnt> g_cache;

int solverCheck(const std::vector<Expr*>& cs, std::vector<std::pair<u32, u64>>* out, bool useCache) {
  std::vector<u32> ids;
  for (Expr* e : cs) { if (isC(e)) { if (!e->c) return 0; continue; } ids.push_back(e->id); }
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((const char*)ids.data(), ids.size() * 4);
  if (useCache) {
    auto it = g_cache.find(key);
    if (it != g_cache.end()) { g_ss.cacheHits++; if (out && it->second.res == 1) *out = it->second.model; return it->second.res; }
  }
  auto t0 = std::chrono::steady_clock::now();
  g_ss.queries++;
  Z3_solver_push(C, S);
  const VarSet* vs = emptyVS();
  for (Expr* e : cs) if (!isC(e)) { Z3_solver_assert(C, S, Zb(e)); vs = unionVS(vs, e->vs); }
  if (getenv("SYMX_DUMPQ")) { FILE* f = fopen(getenv("SYMX_DUMPQ"), "w"); fputs(Z3_solver_to_string(C, S), f); fclose(f); }
  Z3_lbool r = Z3_solver_check(C, S);
  CacheEnt ent; ent.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (r == Z3_L_TRUE) {
    g_ss.sat++;
    Z3_model m = Z3_solver_get_model(C, S);
    Z3_model_inc_ref(C, m);
    for (u32 v : *vs) {
      Z3_ast res; std::string n = "v" + std::to_string(v);
      Z3_ast q = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, g_vars[v].w));
      
      u64 val = 0;
      if (Z3_model_eval(C, m, q, true, &res)) Z3_get_numeral_uint64(C, res, &val);
      ent.model.emplace_back(v, val);
    }
    Z3_model_dec_ref(C, m);
  } else if (r == Z3_L_FALSE) g_ss.unsat++; else g_ss.unknown++;
  Z3_solver_pop(C, S, 1);
  g_ss.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (out && ent.res == 1) *out = ent.model;
  if (g_cache.size() > 400000) g_cache.clear();
  if (ent.res >= 0) g_cache.emplace(std::move(key), std::move(ent));
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
std::string solverDump(const std::vector<Expr*>& cs) {
  std::string s;
  for (Expr* e : cs) { s += Z3_ast_to_string(C, Zb(e)); s += "\n"; }
  return s;
}
