// Bit-vector expression DAG (hash-consed) for the symbolic executor.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>

enum Op : uint8_t {
  E_CONST, E_SYM, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE
};

typedef std::vector<uint32_t> VarSet;   // sorted, interned

struct Expr {
  Op op; uint8_t w; uint8_t nk;
  uint32_t id;
  Expr *k[3];
  uint64_t val;              // constant value / extract offset / symbol index
  uint64_t lo, hi;           // cheap unsigned range
  const VarSet *vars;
  // evaluation memo
  uint64_t stamp, cache;
  void *z3; unsigned z3gen;
};

typedef std::vector<uint64_t> Model;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

Expr *mkConst(uint64_t v, unsigned w);
Expr *mkSym(uint32_t idx, unsigned w, uint64_t lo, uint64_t hi);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *e, unsigned off, unsigned w);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkNot(Expr *c);            // width-1 negation
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(E_EQ, a, b); }
static inline bool isC(const Expr *e) { return e->op == E_CONST; }
uint64_t evalExpr(Expr *e, const Model &m, uint64_t stamp);
uint64_t newStamp();
static inline uint64_t evalE(Expr *e, const Model &m) { return evalExpr(e, m, newStamp()); }
std::string exprStr(Expr *e, int depth = 6);
size_t exprCount();
// symbol table info
struct SymInfo { unsigned w; uint64_t lo, hi; };
SymInfo symInfo(uint32_t idx, bool &ok);
