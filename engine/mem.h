// Copy-on-write memory of one execution state.
#pragma once
#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <vector>

static const uint32_t PGSH = 8, PGSZ = 1u << PGSH;
struct Page { int ref; uint8_t d[PGSZ]; Expr **s; };
enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_HEAP, OK_STACK };
struct Obj {
  int ref; uint32_t size; ObjKind kind; bool freed; uint8_t fill; uint32_t site;
  std::vector<Page *> p;    // null page = filled with 'fill'
};
static inline void pgUnref(Page *p) { if (p && --p->ref == 0) { free(p->s); free(p); } }
static inline Page *pgNew(uint8_t fill) {
  Page *p = (Page *)malloc(sizeof(Page)); p->ref = 1; p->s = nullptr; memset(p->d, fill, PGSZ); return p; }
static inline Page *pgClone(Page *o) {
  Page *p = (Page *)malloc(sizeof(Page)); p->ref = 1; memcpy(p->d, o->d, PGSZ); p->s = nullptr;
  if (o->s) { p->s = (Expr **)malloc(sizeof(Expr *) * PGSZ); memcpy(p->s, o->s, sizeof(Expr *) * PGSZ); }
  return p; }
static inline Obj *obNew(uint32_t size, ObjKind k, uint8_t fill) {
  Obj *o = new Obj; o->ref = 1; o->size = size; o->kind = k; o->freed = false; o->fill = fill; o->site = 0;
  o->p.assign((size + PGSZ - 1) >> PGSH, nullptr); return o; }
static inline void obUnref(Obj *o) { if (o && --o->ref == 0) { for (Page *p : o->p) pgUnref(p); delete o; } }
static inline Obj *obClone(Obj *a) {
  Obj *o = new Obj(*a); o->ref = 1; for (Page *p : o->p) if (p) p->ref++; return o; }
static inline Page *pgW(Obj *o, uint32_t i) {   // o is exclusively owned
  Page *p = o->p[i];
  if (!p) return o->p[i] = pgNew(o->fill);
  if (p->ref > 1) { Page *n = pgClone(p); p->ref--; return o->p[i] = n; }
  return p;
}

// COW vector of objects
struct ObTab {
  static const uint32_t CH = 64;
  struct Chunk { int ref; Obj *o[CH]; };
  std::vector<Chunk *> c;
  uint32_t n = 0;
  ObTab() {}
  ObTab(const ObTab &x) : c(x.c), n(x.n) { for (Chunk *k : c) k->ref++; }
  ObTab &operator=(const ObTab &) = delete;
  ~ObTab() { for (Chunk *k : c) drop(k); }
  static void drop(Chunk *k) { if (--k->ref == 0) { for (auto o : k->o) obUnref(o); free(k); } }
  Obj *get(uint32_t i) const { return i < n ? c[i / CH]->o[i % CH] : nullptr; }
  Chunk *w(uint32_t ci) {
    Chunk *k = c[ci];
    if (k->ref > 1) { Chunk *q = (Chunk *)malloc(sizeof(Chunk)); memcpy(q, k, sizeof *q); q->ref = 1;
      for (auto o : q->o) if (o) o->ref++; k->ref--; c[ci] = q; return q; }
    return k;
  }
  Obj *getW(uint32_t i) {
    Chunk *k = w(i / CH);
    Obj *o = k->o[i % CH];
    if (o->ref > 1) { Obj *q = obClone(o); o->ref--; k->o[i % CH] = q; return q; }
    return o;
  }
  uint32_t push(Obj *o) {
    if (n / CH >= c.size()) { Chunk *k = (Chunk *)calloc(1, sizeof(Chunk)); k->ref = 1; c.push_back(k); }
    Chunk *k = w(n / CH);
    obUnref(k->o[n % CH]);
    k->o[n % CH] = o;
    return n++;
  }
  void popTo(uint32_t m) {     // LIFO release
    while (n > m) { n--; Chunk *k = w(n / CH); obUnref(k->o[n % CH]); k->o[n % CH] = nullptr; }
  }
};
