#include "expr.h"
#include <algorithm>
#include <unordered_set>
#include <cstring>
#include <set>
#include <map>
#include <tuple>

static std::vector<Expr *> table(1 << 16, nullptr);   // open addressing
static size_t nexpr = 0;
static uint64_t g_stamp = 1;
uint64_t newStamp() { return ++g_stamp; }
size_t exprCount() { return nexpr; }

struct VSHash { size_t operator()(const VarSet &v) const {
  size_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
static std::unordered_set<VarSet, VSHash> varsets;
static const VarSet *internVS(const VarSet &v) { return &*varsets.insert(v).first; }
static const VarSet *emptyVS() { static const VarSet *e = internVS({}); return e; }

struct PairHash { size_t operator()(const std::pair<const VarSet*,const VarSet*> &p) const {
  return (size_t)p.first * 31 + (size_t)p.second; } };
static std::unordered_map<std::pair<const VarSet*,const VarSet*>, const VarSet*, PairHash> unionMemo;
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair(a, b);
  auto it = unionMemo.find(key);
  if (it != unionMemo.end()) return it->second;
  VarSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  const VarSet *p = internVS(r);
  unionMemo[key] = p;
  return p;
}

static std::unordered_map<uint32_t, SymInfo> syms;
SymInfo symInfo(uint32_t idx, bool &ok) {
  auto it = syms.find(idx);
  ok = it != syms.end();
  return ok ? it->second : SymInfo{64, 0, ~0ULL};
}

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static uint64_t hashNode(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t val) {
  uint64_t h = op * 131 + w;
  h = mix(h, (uint64_t)a); h = mix(h, (uint64_t)b); h = mix(h, (uint64_t)c); h = mix(h, val);
  return h ^ (h >> 29);
}
static char *arena = nullptr; static size_t arenaLeft = 0;
static Expr *allocExpr() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 4096; arena = (char *)malloc(arenaLeft); }
  Expr *e = (Expr *)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
  return e;
}
static void computeRange(Expr *e);
static Expr *node(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t val, bool *isnew = nullptr) {
  uint64_t h = hashNode(op, w, a, b, c, val);
  size_t m = table.size() - 1, i = h & m;
  while (table[i]) {
    Expr *e = table[i];
    if (e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->val == val) return e;
    i = (i + 1) & m;
  }
  Expr *e = allocExpr();
  memset(e, 0, sizeof *e);
  e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->val = val;
  e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
  e->id = nexpr++;
  const VarSet *vs = emptyVS();
  for (int j = 0; j < e->nk; j++) vs = unionVS(vs, e->k[j]->vars);
  if (op == E_SYM) vs = internVS({(uint32_t)val});
  e->vars = vs;
  e->lo = 0; e->hi = maskw(w);
  if (op != E_SYM) computeRange(e);
  table[i] = e;
  if (isnew) *isnew = true;
  if (nexpr * 2 > table.size()) {
    std::vector<Expr *> nt(table.size() * 2, nullptr);
    size_t nm = nt.size() - 1;
    for (Expr *x : table) if (x) {
      size_t j = hashNode(x->op, x->w, x->k[0], x->k[1], x->k[2], x->val) & nm;
      while (nt[j]) j = (j + 1) & nm;
      nt[j] = x;
    }
    table.swap(nt);
  }
  return e;
}

static void computeRange(Expr *e) {
  uint64_t m = maskw(e->w);
  Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
  case E_CONST: e->lo = e->hi = e->val; break;
  case E_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
  case E_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
  case E_EXTRACT: if (e->val == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; }
    else if (e->val && e->val + e->w == a->w) { e->lo = a->lo >> e->val; e->hi = a->hi >> e->val; } break;
  case E_ADD: { uint64_t s = a->hi + b->hi; if (s >= a->hi && s <= m) { e->lo = a->lo + b->lo; e->hi = s; }
    else if (isC(b)) { // subtract of constant
      uint64_t c = (0 - b->val) & m; if (a->lo >= c) { e->lo = a->lo - c; e->hi = a->hi - c; } } break; }
  case E_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
  case E_AND: e->hi = std::min(a->hi, b->hi); break;
  case E_OR: { uint64_t x = a->hi | b->hi; unsigned l = 0; while (l < 64 && (x >> l)) l++; e->hi = l >= 64 ? ~0ULL : maskw(l ? l : 1); if (!x) e->hi = 0; e->hi &= m; e->lo = std::max(a->lo, b->lo); break; }
  case E_XOR: { uint64_t x = a->hi | b->hi; unsigned l = 0; while (l < 64 && (x >> l)) l++; e->hi = l >= 64 ? ~0ULL : maskw(l ? l : 1); if (!x) e->hi = 0; e->hi &= m; break; }
  case E_LSHR: if (isC(b) && b->val < 64) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } else e->hi = a->hi; break;
  case E_SHL: if (isC(b) && b->val < e->w && (a->hi <= (m >> b->val))) { e->lo = a->lo << b->val; e->hi = a->hi << b->val; } break;
  case E_UDIV: if (isC(b) && b->val) { e->lo = a->lo / b->val; e->hi = a->hi / b->val; } break;
  case E_UREM: if (isC(b) && b->val) e->hi = std::min(a->hi, b->val - 1); break;
  case E_MUL: { __uint128_t p = (__uint128_t)a->hi * b->hi; if (p <= m) { e->hi = (uint64_t)p; e->lo = a->lo * b->lo; } break; }
  case E_ITE: e->lo = std::min(b->lo, e->k[2]->lo); e->hi = std::max(b->hi, e->k[2]->hi); break;
  default: break;
  }
}

Expr *mkConst(uint64_t v, unsigned w) { return node(E_CONST, w, 0, 0, 0, v & maskw(w)); }
Expr *mkSym(uint32_t pos, unsigned w, uint64_t lo, uint64_t hi) {
  // the range is part of the identity: distinct declarations at one position differ
  static std::map<std::tuple<uint32_t, unsigned, uint64_t, uint64_t>, uint32_t> intern;
  auto key = std::make_tuple(pos, w, lo, hi);
  auto it = intern.find(key);
  uint32_t idx = it != intern.end() ? it->second : (intern.emplace(key, (uint32_t)intern.size()).first->second);
  bool nw = false;
  Expr *e = node(E_SYM, w, 0, 0, 0, idx, &nw);
  if (nw) { e->lo = lo; e->hi = hi; syms[idx] = SymInfo{w, lo, hi}; }
  return e;
}
Expr *mkExtract(Expr *e, unsigned off, unsigned w) {
  if (off == 0 && w == e->w) return e;
  switch (e->op) {
  case E_CONST: return mkConst(e->val >> off, w);
  case E_EXTRACT: return mkExtract(e->k[0], off + e->val, w);
  case E_CONCAT: {
    unsigned lw = e->k[1]->w;
    if (off >= lw) return mkExtract(e->k[0], off - lw, w);
    if (off + w <= lw) return mkExtract(e->k[1], off, w);
    return mkConcat(mkExtract(e->k[0], 0, off + w - lw), mkExtract(e->k[1], off, lw - off));
  }
  case E_ZEXT: {
    unsigned kw = e->k[0]->w;
    if (off >= kw) return mkConst(0, w);
    if (off + w <= kw) return mkExtract(e->k[0], off, w);
    return mkZExt(mkExtract(e->k[0], off, kw - off), w);
  }
  case E_SEXT: {
    unsigned kw = e->k[0]->w;
    if (off + w <= kw) return mkExtract(e->k[0], off, w);
    if (off < kw) return mkSExt(mkExtract(e->k[0], off, kw - off), w);
    break;
  }
  case E_AND: case E_OR: case E_XOR:
    return mkBin(e->op, mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
  case E_ADD: case E_SUB: case E_MUL:
    if (off == 0) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
    break;
  case E_ITE:
    if ((isC(e->k[1]) || isC(e->k[2])) || w == 1)
      return mkIte(e->k[0], mkExtract(e->k[1], off, w), mkExtract(e->k[2], off, w));
    break;
  case E_LSHR:
    if (isC(e->k[1]) && off + e->k[1]->val + w <= e->w) return mkExtract(e->k[0], off + e->k[1]->val, w);
    break;
  case E_SHL:
    if (isC(e->k[1])) {
      uint64_t s = e->k[1]->val;
      if (off >= s) return mkExtract(e->k[0], off - s, w);
      if (off + w <= s) return mkConst(0, w);
    }
    break;
  default: break;
  }
  if (off == 0 && e->hi == 0) return mkConst(0, w);
  return node(E_EXTRACT, w, e, 0, 0, off);
}
Expr *mkConcat(Expr *h, Expr *l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return mkConst((h->val << l->w) | l->val, w);
  if (isC(h) && h->val == 0) return mkZExt(l, w);
  if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->k[0] == l->k[0] && h->val == l->val + l->w)
    return mkExtract(h->k[0], l->val, w);
  // right-associate constants: (x ++ c1) ++ c2
  if (isC(l) && h->op == E_CONCAT && isC(h->k[1]))
    return mkConcat(h->k[0], mkConst((h->k[1]->val << l->w) | l->val, h->k[1]->w + l->w));
  // merge with the top of a left concat
  if (h->op == E_EXTRACT && l->op == E_CONCAT && l->k[0]->op == E_EXTRACT && l->k[0]->k[0] == h->k[0] &&
      h->val == l->k[0]->val + l->k[0]->w)
    return mkConcat(mkExtract(h->k[0], l->k[0]->val, h->w + l->k[0]->w), l->k[1]);
  if (h->op == E_CONCAT) return mkConcat(h->k[0], mkConcat(h->k[1], l));
  return node(E_CONCAT, w, h, l, 0, 0);
}
Expr *mkZExt(Expr *e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst(e->val, w);
  if (e->op == E_ZEXT) return mkZExt(e->k[0], w);
  return node(E_ZEXT, w, e, 0, 0, 0);
}
Expr *mkSExt(Expr *e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst((uint64_t)sxt(e->val, e->w), w);
  if (e->hi < (1ULL << (e->w - 1))) return mkZExt(e, w);
  if (e->op == E_SEXT) return mkSExt(e->k[0], w);
  if (e->op == E_ITE && isC(e->k[1]) && isC(e->k[2])) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
  return node(E_SEXT, w, e, 0, 0, 0);
}
static uint64_t binC(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m;
  case E_UREM: return b ? a % b : a;
  case E_SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
  case E_SREM: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << b) & m;
  case E_LSHR: return b >= w ? 0 : a >> b;
  case E_ASHR: { int64_t x = sxt(a, w); return (uint64_t)(x >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m; }
  case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
  case E_SLT: return sxt(a, w) < sxt(b, w); case E_SLE: return sxt(a, w) <= sxt(b, w);
  default: return 0;
  }
}
Expr *mkNot(Expr *c) { return mkBin(E_XOR, c, mkConst(1, 1)); }
static Expr *T() { return mkConst(1, 1); }
static Expr *F() { return mkConst(0, 1); }

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  bool cmp = op >= E_EQ && op <= E_SLE;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(binC(op, a->val, b->val, w), rw);
  // canonical: constant on the right for commutative operators
  if (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  uint64_t m = maskw(w);
  // push operators over ite with constant leaves
  if (isC(b) && a->op == E_ITE && (isC(a->k[1]) && isC(a->k[2])))
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isC(b) && cmp && a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2])))
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isC(a) && cmp && b->op == E_ITE && (isC(b->k[1]) || isC(b->k[2])))
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  switch (op) {
  case E_ADD:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
    }
    break;
  case E_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->val, w));
    if (a->op == E_ADD && a->k[0] == b) return a->k[1];
    if (a->op == E_ADD && a->k[1] == b) return a->k[0];
    if (a->op == E_ADD && b->op == E_ADD && a->k[0] == b->k[0]) return mkBin(E_SUB, a->k[1], b->k[1]);
    if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
    if (b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), mkConst(0 - b->k[1]->val, w));
    break;
  case E_MUL:
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      if ((b->val & (b->val - 1)) == 0) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(b->val), w));
    }
    break;
  case E_UDIV:
    if (isC(b) && b->val == 1) return a;
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(E_LSHR, a, mkConst(__builtin_ctzll(b->val), w));
    if (isC(b) && a->hi < b->val) return mkConst(0, w);
    break;
  case E_UREM:
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(E_AND, a, mkConst(b->val - 1, w));
    if (isC(b) && a->hi < b->val) return a;
    break;
  case E_AND:
    if (a == b) return a;
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == m) return a;
      if ((b->val & (b->val + 1)) == 0) { // low mask
        unsigned l = 64 - __builtin_clzll(b->val);
        return mkZExt(mkExtract(a, 0, l), w);
      }
      if (a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->val & b->val, w));
      // contiguous high mask -> concat(extract, 0)
      { unsigned tz = __builtin_ctzll(b->val); uint64_t x = b->val >> tz;
        if ((x & (x + 1)) == 0) { unsigned l = 64 - __builtin_clzll(x);
          return mkZExt(mkConcat(mkExtract(a, tz, l), mkConst(0, tz)), w); } }
    }
    if (w == 1) { if (a->op == E_XOR && isC(a->k[1]) && a->k[0] == b) return F();
                  if (b->op == E_XOR && isC(b->k[1]) && b->k[0] == a) return F(); }
    break;
  case E_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return b; }
    if (w == 1) { if (a->op == E_XOR && isC(a->k[1]) && a->k[0] == b) return T();
                  if (b->op == E_XOR && isC(b->k[1]) && b->k[0] == a) return T(); }
    else {
      // disjoint bits: x ++ 0_k  |  zext(y), y of <= k bits  ->  x ++ y
      for (int s = 0; s < 2; s++) {
        Expr *x = s ? b : a, *y = s ? a : b;
        Expr *xc = x; unsigned zx = 0;
        if (xc->op == E_ZEXT && xc->k[0]->op == E_CONCAT) { xc = xc->k[0]; zx = 1; }
        if (xc->op == E_CONCAT && !isC(y)) {
          // find trailing zero constant
          Expr *q = xc; std::vector<Expr*> parts;
          while (q->op == E_CONCAT) { parts.push_back(q->k[0]); q = q->k[1]; }
          if (isC(q) && q->val == 0 && y->hi <= maskw(q->w)) {
            Expr *r = mkExtract(y, 0, q->w);
            for (size_t i = parts.size(); i-- > 0;) r = mkConcat(parts[i], r);
            (void)zx;
            return mkZExt(r, w);
          }
        }
      }
    }
    break;
  case E_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
      if (w == 1) { // negation of comparisons
        if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
        if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
        if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
        if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
      }
    }
    break;
  case E_SHL:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val));
    }
    if (isC(a) && a->val == 0) return a;
    break;
  case E_LSHR:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, b->val, w - b->val), w);
    }
    break;
  case E_ASHR:
    if (isC(b)) {
      if (b->val == 0) return a;
      uint64_t s = b->val >= w ? w - 1 : b->val;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  case E_EQ:
    if (a == b) return T();
    if (a->hi < b->lo || b->hi < a->lo) return F();
    if (isC(b)) {
      if (w == 1) return b->val ? a : mkNot(a);
      if (a->op == E_ZEXT) { if (b->val > maskw(a->k[0]->w)) return F(); return mkBin(E_EQ, a->k[0], mkConst(b->val, a->k[0]->w)); }
      if (a->op == E_SEXT) {
        unsigned kw = a->k[0]->w;
        if ((uint64_t)sxt(b->val & maskw(kw), kw) != (w >= 64 ? b->val : (uint64_t)sxt(b->val, w))) return F();
        return mkBin(E_EQ, a->k[0], mkConst(b->val, kw));
      }
      if (a->op == E_CONCAT) {
        unsigned lw = a->k[1]->w;
        Expr *h = mkBin(E_EQ, a->k[0], mkConst(b->val >> lw, a->k[0]->w));
        if (isC(h) && !h->val) return h;
        Expr *l = mkBin(E_EQ, a->k[1], mkConst(b->val, lw));
        return mkBin(E_AND, h, l);
      }
      if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
      if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
      if (a->op == E_SUB && b->val == 0) return mkBin(E_EQ, a->k[0], a->k[1]);
      if (a->op == E_OR && b->val == 0) return mkBin(E_AND, mkBin(E_EQ, a->k[0], b), mkBin(E_EQ, a->k[1], b));
    } else {
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
      if (a->op == E_ADD && b->op == E_ADD && a->k[0] == b->k[0]) return mkBin(E_EQ, a->k[1], b->k[1]);
      if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[0]->w == b->k[0]->w)
        return mkBin(E_AND, mkBin(E_EQ, a->k[0], b->k[0]), mkBin(E_EQ, a->k[1], b->k[1]));
    }
    break;
  case E_ULT:
    if (a == b) return F();
    if (a->hi < b->lo) return T();
    if (a->lo >= b->hi) return F();
    if (isC(b) && b->val == 1) return mkBin(E_EQ, a, mkConst(0, w));
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULT, a->k[0], b->k[0]);
    if (a->op == E_ZEXT && isC(b) && b->val <= maskw(a->k[0]->w)) return mkBin(E_ULT, a->k[0], mkConst(b->val, a->k[0]->w));
    if (b->op == E_ZEXT && isC(a) && a->val <= maskw(b->k[0]->w)) return mkBin(E_ULT, mkConst(a->val, b->k[0]->w), b->k[0]);
    break;
  case E_ULE:
    if (a == b) return T();
    if (a->hi <= b->lo) return T();
    if (a->lo > b->hi) return F();
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULE, a->k[0], b->k[0]);
    if (a->op == E_ZEXT && isC(b) && b->val <= maskw(a->k[0]->w)) return mkBin(E_ULE, a->k[0], mkConst(b->val, a->k[0]->w));
    if (b->op == E_ZEXT && isC(a) && a->val <= maskw(b->k[0]->w)) return mkBin(E_ULE, mkConst(a->val, b->k[0]->w), b->k[0]);
    break;
  case E_SLT: case E_SLE: {
    if (a == b) return op == E_SLE ? T() : F();
    uint64_t sb = 1ULL << (w - 1);
    if (a->hi < sb && b->hi < sb) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (a->lo >= sb && b->hi < sb) return T();
    if (a->hi < sb && b->lo >= sb) return F();
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == E_SEXT && isC(b)) {
      unsigned kw = a->k[0]->w; int64_t v = sxt(b->val, w);
      int64_t mn = -(1LL << (kw - 1)), mx = (1LL << (kw - 1)) - 1;
      if (v >= mn && v <= mx) return mkBin(op, a->k[0], mkConst((uint64_t)v, kw));
      return v > mx ? T() : F();
    }
    if (b->op == E_SEXT && isC(a)) {
      unsigned kw = b->k[0]->w; int64_t v = sxt(a->val, w);
      int64_t mn = -(1LL << (kw - 1)), mx = (1LL << (kw - 1)) - 1;
      if (v >= mn && v <= mx) return mkBin(op, mkConst((uint64_t)v, kw), b->k[0]);
      return v < mn ? T() : F();
    }
    break; }
  default: break;
  }
  return node(op, rw, a, b, 0, 0);
}
Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (isC(c)) return c->val ? t : f;
  if (t == f) return t;
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->val ? c : mkNot(c);
    if (isC(t)) return t->val ? mkBin(E_OR, c, f) : mkBin(E_AND, mkNot(c), f);
    if (isC(f)) return f->val ? mkBin(E_OR, mkNot(c), t) : mkBin(E_AND, c, t);
  }
  if (c->op == E_XOR && c->w == 1 && isC(c->k[1])) return mkIte(c->k[0], f, t);
  if (t->op == E_ITE && t->k[0] == c) t = t->k[1];
  if (f->op == E_ITE && f->k[0] == c) f = f->k[2];
  if (t == f) return t;
  if (f->op == E_ITE && f->k[1] == t) return mkIte(mkBin(E_OR, c, f->k[0]), t, f->k[2]);
  return node(E_ITE, t->w, c, t, f, 0);
}

uint64_t evalExpr(Expr *e, const Model &m, uint64_t st) {
  if (e->op == E_CONST) return e->val;
  if (e->stamp == st) return e->cache;
  uint64_t r = 0;
  switch (e->op) {
  case E_SYM: r = e->val < m.size() ? m[e->val] : e->lo; break;
  case E_CONCAT: r = (evalExpr(e->k[0], m, st) << e->k[1]->w) | evalExpr(e->k[1], m, st); break;
  case E_EXTRACT: r = (evalExpr(e->k[0], m, st) >> e->val) & maskw(e->w); break;
  case E_ZEXT: r = evalExpr(e->k[0], m, st); break;
  case E_SEXT: r = (uint64_t)sxt(evalExpr(e->k[0], m, st), e->k[0]->w) & maskw(e->w); break;
  case E_ITE: r = evalExpr(e->k[0], m, st) ? evalExpr(e->k[1], m, st) : evalExpr(e->k[2], m, st); break;
  default: r = binC(e->op, evalExpr(e->k[0], m, st), evalExpr(e->k[1], m, st), e->k[0]->w); break;
  }
  e->stamp = st; e->cache = r;
  return r;
}

static const char *opn[] = {"c","sym","concat","extract","zext","sext","add","sub","mul","udiv","sdiv","urem","srem",
  "and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite"};
std::string exprStr(Expr *e, int d) {
  if (isC(e)) return std::to_string(e->val) + ":" + std::to_string(e->w);
  if (e->op == E_SYM) return "s" + std::to_string(e->val);
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == E_EXTRACT) s += "@" + std::to_string(e->val) + "," + std::to_string(e->w);
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
