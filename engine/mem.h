// Copy-on-write object memory.  Address = (object id << 32) + offset.
#pragma once
#include "expr.h"
#include <cstdlib>

struct Val { Expr* e; u64 c; };
static inline Val cv(u64 c) { return Val{nullptr, c}; }
static inline Val ev(Expr* e) { if (e->op == O_CONST) return Val{nullptr, e->c}; return Val{e, 0}; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum ObjKind : u8 { K_HEAP, K_STACK, K_GLOBAL, K_FUNC };
enum Tag : u8 { T_CONC = 0, T_SYM = 1, T_UNINIT = 2 };

struct Obj {
  u32 rc; u32 size; u8 kind; bool ro; const char* name;
  u8* data; u8* tag; Expr** sym;
};
extern Obj g_freed;

static inline Obj* newObj(u32 size, u8 kind, u8 initTag, const char* name) {
  Obj* o = (Obj*)malloc(sizeof(Obj));
  o->rc = 1; o->size = size; o->kind = kind; o->ro = false; o->name = name;
  u32 padded = (size + 7) & ~7u;
  o->data = (u8*)malloc(padded * 2 + 16);
  o->tag = o->data + padded + 8;
  memset(o->data, 0, padded + 8);
  memset(o->tag, initTag, padded + 8);
  o->sym = nullptr;
  return o;
}
static inline Obj* cloneObj(Obj* s) {
  Obj* o = (Obj*)malloc(sizeof(Obj));
  *o = *s; o->rc = 1;
  u32 padded = (s->size + 7) & ~7u;
  o->data = (u8*)malloc(padded * 2 + 16);
  o->tag = o->data + padded + 8;
  memcpy(o->data, s->data, padded * 2 + 16);
  if (s->sym) { o->sym = (Expr**)malloc(sizeof(Expr*) * (s->size ? s->size : 1)); memcpy(o->sym, s->sym, sizeof(Expr*) * s->size); }
  return o;
}
static inline void unrefObj(Obj* o) {
  if (!o || o == &g_freed) return;
  if (--o->rc == 0) { free(o->data); free(o->sym); free(o); }
}

enum { PAGE = 128 };
struct Page { u32 rc; Obj* o[PAGE]; };
struct Mem {
  std::vector<Page*> pages; u32 next = 1;
  Mem() {}
  Mem(const Mem& m) : pages(m.pages), next(m.next) { for (auto* p : pages) if (p) p->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto* p : pages) drop(p); }
  static void drop(Page* p) {
    if (!p) return;
    if (--p->rc == 0) { for (auto* o : p->o) unrefObj(o); free(p); }
  }
  Page* wpage(u32 pi) {
    if (pi >= pages.size()) pages.resize(pi + 1, nullptr);
    Page* p = pages[pi];
    if (!p) { p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; pages[pi] = p; return p; }
    if (p->rc > 1) {
      Page* n = (Page*)malloc(sizeof(Page)); memcpy(n, p, sizeof(Page)); n->rc = 1; p->rc--;
      for (auto* o : n->o) if (o && o != &g_freed) o->rc++;
      pages[pi] = n; p = n;
    }
    return p;
  }
  u32 alloc(Obj* o) { u32 id = next++; wpage(id / PAGE)->o[id % PAGE] = o; return id; }
  Obj* get(u32 id) const { u32 pi = id / PAGE; if (pi >= pages.size() || !pages[pi]) return nullptr; return pages[pi]->o[id % PAGE]; }
  Obj* getW(u32 id) {
    Page* p = wpage(id / PAGE); Obj* o = p->o[id % PAGE];
    if (o && o != &g_freed && o->rc > 1) { Obj* n = cloneObj(o); o->rc--; p->o[id % PAGE] = n; o = n; }
    return o;
  }
  void freeObj(u32 id) { Page* p = wpage(id / PAGE); Obj*& s = p->o[id % PAGE]; unrefObj(s); s = &g_freed; }
};
