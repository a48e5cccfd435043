// aardsym: symbolic executor for LLVM bitcode.
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include "ir.h"
#include <algorithm>
#include <memory>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static Program P;
struct Val { uint64_t c; Expr *e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }

struct Frame {
  int f; uint32_t pc; int retdst; int nret; uint8_t catchMark;
  uint32_t stackMark;                      // stack object count at entry
  std::vector<Val> s;
  std::vector<Val> va; uint32_t vaObj = 0;
};
struct SymRec { Expr *e; };
struct Note { int tag; Val v; };
struct SavedGlobals { std::vector<std::pair<uint32_t, Obj *>> o; ~SavedGlobals() { for (auto &x : o) obUnref(x.second); } };
static std::vector<std::pair<uint32_t, Obj *>> ProgVars;   // variables of the program under test, as initialised
struct State {
  std::vector<Frame> fr;
  ObTab glob, heap, stack;
  std::vector<Expr *> cons;
  std::set<uint32_t> consIds;              // ids of constraint expressions
  Model model;
  std::vector<uint8_t> bound;              // per symbol: fixed by an equality constraint
  uint32_t nbound = 0;
  std::vector<SymRec> syms;
  std::vector<Note> notes;
  uint64_t ninst = 0, nfork = 0;
  uint64_t heapLive = 0;
  uint32_t depth = 0;
  std::vector<std::shared_ptr<SavedGlobals>> procs;   // variables of processes that wait
  bool incomplete = false;
  // a second thread of control: the frames of the one that waits
  std::vector<Frame> fr2; ObTab stack2; int coDst = -1; bool inCo = false, coLive = false;
};

// ---------------------------------------------------------------- options
static uint64_t optMaxInst = 60000000;
static double optTime = 300, optGrace = 15;
static int optJobs = 8;
static std::string optOut = "/tmp/aardsym.out";
static std::string optProp = "?";
static int optSamples = 4;
static size_t optMaxStates = 4000;
static bool optBug = false;
static std::vector<std::pair<std::string, long>> optArgs;

// ---------------------------------------------------------------- shared
struct Shared { volatile int active; volatile int nproc; volatile int viol; volatile int stop; volatile double violAt; volatile int samples; };
static Shared *SH;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double T0;

// ---------------------------------------------------------------- results
struct Viol { std::string kind, prop, msg, where, trace; std::vector<std::pair<unsigned, uint64_t>> in; std::vector<std::pair<int, uint64_t>> notes; };
static std::vector<Viol> viols;
static std::map<std::string, int> violKeys;
static std::vector<Viol> samples;
static std::map<std::string, uint64_t> labels, asserts, unsupported;
static uint64_t nPaths = 0, nForks = 0, nInst = 0, nTimeout = 0, nKilled = 0, nErr = 0, nDropped = 0, nMaxSyms = 0;
static std::vector<State *> work;

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// ---------------------------------------------------------------- helpers
struct EndPath {};          // path ended
struct ForkRetry {};        // (not used by callers: decide() forks in place)
static State *S;            // current

static Frame &F() { return S->fr.back(); }
static Func &FN() { return P.funcs[S->fr.back().f]; }
static std::string where(int up = 0) {
  for (size_t i = S->fr.size(); i-- > 0;) {
    Func &f = P.funcs[S->fr[i].f];
    if (!f.repo) continue;
    Inst &n = f.code[S->fr[i].pc];
    return f.name;
    (void)n; (void)up;
  }
  return FN().name;
}
static std::string trace() {
  std::string r;
  for (size_t i = S->fr.size(); i-- > 0;) {
    Func &f = P.funcs[S->fr[i].f]; Inst &n = f.code[S->fr[i].pc];
    std::string fl = n.file < P.files.size() ? P.files[n.file] : "";
    size_t sl = fl.rfind('/'); if (sl != std::string::npos) fl = fl.substr(sl + 1);
    r += (r.empty() ? "" : " < ") + f.name + ":" + fl + ":" + std::to_string(n.line);
  }
  return r;
}
static uint64_t evalM(Expr *e) { return evalE(e, S->model); }
static bool allBound(Expr *e) {
  if (e->vars->size() > S->nbound) return false;
  for (uint32_t v : *e->vars) if (v >= S->bound.size() || !S->bound[v]) return false;
  return true;
}
static Val VE(Expr *e) {
  if (isC(e)) return CV(e->val);
  if (S->nbound && allBound(e)) return CV(evalM(e));
  return Val{0, e};
}
static Expr *EX(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static void addCons(State *s, Expr *c) {
  if (isC(c)) return;
  if (c->op == E_AND && c->w == 1) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
  if (!s->consIds.insert(c->id).second) return;
  s->cons.push_back(c);
  Expr *y = nullptr;
  if (c->op == E_EQ && isC(c->k[1]) && c->k[0]->op == E_SYM) y = c->k[0];
  else if (c->op == E_SYM && c->w == 1) y = c;
  else if (c->op == E_XOR && c->w == 1 && isC(c->k[1]) && c->k[0]->op == E_SYM) y = c->k[0];
  if (y) {
    uint32_t ix = y->val;
    if (s->bound.size() <= ix) s->bound.resize(ix + 1, 0);
    if (!s->bound[ix]) { s->bound[ix] = 1; s->nbound++; }
  }
}
static void applyModel(State *s, const PModel &m) {
  for (auto &p : m) { if (s->model.size() <= p.first) s->model.resize(p.first + 1, 0); s->model[p.first] = p.second; }
}
static std::vector<Expr *> sliceOf(State *s, Expr *q) {
  std::vector<Expr *> out;
  static std::vector<uint32_t> mark; static uint32_t gen = 0; gen++;
  auto seen = [&](uint32_t v) { if (mark.size() <= v) mark.resize(v + 64, 0); return mark[v] == gen; };
  auto set = [&](uint32_t v) { if (mark.size() <= v) mark.resize(v + 64, 0); mark[v] = gen; };
  for (uint32_t v : *q->vars) set(v);
  std::vector<char> used(s->cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s->cons.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t v : *s->cons[i]->vars) if (seen(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; out.push_back(s->cons[i]);
      for (uint32_t v : *s->cons[i]->vars) if (!seen(v)) { set(v); ch = true; }
    }
  }
  return out;
}
static Res feasible(Expr *q, PModel &m) {
  if (isC(q)) { m.clear(); return q->val ? SAT : UNSAT; }
  return solveQuery(sliceOf(S, q), q, m);
}
static int known(Expr *c) {
  if (isC(c)) return c->val != 0;
  if (S->consIds.count(c->id)) return 1;
  Expr *n = mkNot(c);
  if (S->consIds.count(n->id)) return 0;
  if (S->nbound && allBound(c)) return evalM(c) != 0;
  return -1;
}
// Decide a condition: fork when both outcomes are feasible.
static bool decide(Expr *c) {
  int k = known(c);
  if (k >= 0) return k;
  bool v = evalM(c) != 0;
  Expr *nc = mkNot(c);
  Expr *mine = v ? c : nc, *other = v ? nc : c;
  PModel m;
  Res r = feasible(other, m);
  if (r == UNSAT) { S->consIds.insert(mine->id); return v; }
  if (r == UNKNOWN) { nTimeout++; addCons(S, mine); return v; }
  if (work.size() < optMaxStates) {
    State *n = new State(*S);
    addCons(n, other);
    applyModel(n, m);
    n->nfork++;
    work.push_back(n);
    nForks++;
  } else { nDropped++; }
  addCons(S, mine);
  S->nfork++;
  return v;
}
static uint64_t concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  (void)w;
  uint64_t x = evalM(v.e);
  decide(mkEq(v.e, mkConst(x, v.e->w)));
  return x;
}
static bool assume(Expr *c) {   // false: infeasible
  int k = known(c);
  if (k >= 0) return k;
  if (evalM(c)) { addCons(S, c); return true; }
  PModel m; Res r = feasible(c, m);
  if (r == UNKNOWN) { nTimeout++; return false; }
  if (r == UNSAT) return false;
  addCons(S, c); applyModel(S, m);
  return true;
}
static Viol snapshot(const Model &m) {
  Viol v;
  for (auto &s : S->syms) v.in.push_back({s.e->w, isC(s.e) ? s.e->val : evalE(s.e, m)});
  for (auto &n : S->notes) v.notes.push_back({n.tag, n.v.e ? evalE(n.v.e, m) : n.v.c});
  return v;
}
static bool mine(const std::string &prop) { // is the assertion about the property being checked?
  if (optProp == "all" || optProp == "?") return true;
  size_t i = 0;
  while (i < prop.size()) {
    while (i < prop.size() && (prop[i] == ' ' || prop[i] == ',')) i++;
    size_t j = prop.find_first_of(", ", i); if (j == std::string::npos) j = prop.size();
    std::string t = prop.substr(i, j - i); i = j;
    if (t == optProp || t == "*" || t == "env") return true;
  }
  return false;
}
static void report(const std::string &kind, const std::string &prop, const std::string &msg, const Model &m) {
  std::string key = kind + "|" + prop + "|" + msg + "|" + (kind == "assert" ? "" : where());
  nErr++;
  if (violKeys[key]++ >= 3) return;
  Viol v = snapshot(m);
  v.kind = kind; v.prop = prop; v.msg = msg; v.where = where(); v.trace = trace();
  viols.push_back(v);
  if (!SH->viol) SH->violAt = now();
  __sync_fetch_and_add(&SH->viol, 1);
  if (optBug) fprintf(stderr, "VIOL %s %s %s at %s\n", kind.c_str(), prop.c_str(), msg.c_str(), v.trace.c_str());
}
[[noreturn]] static void endPath() { throw EndPath(); }
[[noreturn]] static void memError(const std::string &m) { report("memory", optProp, m, S->model); endPath(); }
[[noreturn]] static void unsup(const std::string &m) { unsupported[m + " at " + trace()]++; S->incomplete = true; endPath(); }

// ---------------------------------------------------------------- memory
static Obj *objR(uint32_t id) {
  if (id >= ID_FUNC) return nullptr;
  if (id >= ID_STACK) return S->stack.get(id - ID_STACK);
  if (id >= ID_HEAP) return S->heap.get(id - ID_HEAP);
  if (id == 0) return nullptr;
  return S->glob.get(id);
}
static Obj *objW(uint32_t id) {
  if (id >= ID_STACK) return S->stack.getW(id - ID_STACK);
  if (id >= ID_HEAP) return S->heap.getW(id - ID_HEAP);
  return S->glob.getW(id);
}
static const char *objDesc(uint32_t id) { return id >= ID_FUNC ? "function" : id >= ID_STACK ? "stack" : id >= ID_HEAP ? "heap" : id ? "global" : "null"; }
struct Ref { uint32_t id; uint64_t off; Expr *so; };

// check the access of n bytes at a
static Ref access(Val a, uint64_t n, bool wr, bool symok) {
  Ref r{0, 0, nullptr};
  if (a.e) { a = VE(a.e); }
  if (!a.e) { r.id = a.c >> 32; r.off = a.c & 0xffffffff; }
  else {
    uint64_t v = evalM(a.e);
    r.id = v >> 32; r.off = v & 0xffffffff;
    if ((a.e->lo >> 32) != (a.e->hi >> 32)) {
      Expr *h = mkExtract(a.e, 32, 32);
      decide(mkEq(h, mkConst(r.id, 32)));
    }
    r.so = mkExtract(a.e, 0, 32);
    if (isC(r.so)) { r.off = r.so->val; r.so = nullptr; }
  }
  Obj *o = objR(r.id);
  if (!o) {
    if (n == 0) return r;
    char b[96]; snprintf(b, sizeof b, "%s access through invalid pointer (%s)", wr ? "write" : "read", objDesc(r.id)); memError(b); }
  if (o->freed) memError(wr ? "write after free" : "read after free");
  if (wr && o->kind == OK_CONST) memError("write to constant");
  if (r.so) {
    if (n > o->size) memError(std::string("out of bounds ") + (wr ? "write" : "read") + " of " + objDesc(r.id) + " object");
    bool in = decide(mkBin(E_ULE, r.so, mkConst(o->size - n, 32)));
    if (!in) memError(std::string("out of bounds ") + (wr ? "write" : "read") + " of " + objDesc(r.id) + " object");
    if (S->nbound && allBound(r.so)) { r.off = evalM(r.so); r.so = nullptr; return r; }
    if (!symok) { r.off = concretize(Val{0, r.so}, 32); r.so = nullptr; }
  } else if (r.off + n > o->size)
    memError(std::string("out of bounds ") + (wr ? "write" : "read") + " of " + objDesc(r.id) + " object");
  return r;
}
static inline Val rdByte(Obj *o, uint64_t off) {
  Page *p = o->p[off >> PGSH];
  if (!p) return CV(o->fill);
  uint32_t i = off & (PGSZ - 1);
  if (p->s && p->s[i]) return Val{0, p->s[i]};
  return CV(p->d[i]);
}
static inline void wrByte(Obj *o, uint64_t off, Val v) {
  Page *p = pgW(o, off >> PGSH);
  uint32_t i = off & (PGSZ - 1);
  if (v.e && !isC(v.e)) {
    if (!p->s) p->s = (Expr **)calloc(PGSZ, sizeof(Expr *));
    p->s[i] = v.e;
  } else { p->d[i] = v.e ? v.e->val : v.c; if (p->s) p->s[i] = nullptr; }
}
static Val rdAt(Obj *o, uint64_t off, unsigned n) {
  Page *p = o->p[off >> PGSH];
  uint32_t i = off & (PGSZ - 1);
  if (p && i + n <= PGSZ) {
    bool sym = false;
    if (p->s) for (unsigned j = 0; j < n; j++) if (p->s[i + j]) { sym = true; break; }
    if (!sym) { uint64_t v = 0; memcpy(&v, p->d + i, n); return CV(v); }
  }
  bool sym = false; uint64_t v = 0; Val b[8];
  for (unsigned j = 0; j < n; j++) { b[j] = rdByte(o, off + j); if (b[j].e) sym = true; else v |= b[j].c << (8 * j); }
  if (!sym) return CV(v);
  Expr *e = EX(b[n - 1], 8);
  for (unsigned j = n - 1; j-- > 0;) e = mkConcat(e, EX(b[j], 8));
  return VE(e);
}
static void wrAt(Obj *o, uint64_t off, unsigned n, Val v) {
  if (!v.e) {
    uint32_t i = off & (PGSZ - 1);
    if (i + n <= PGSZ) {
      Page *p = pgW(o, off >> PGSH);
      memcpy(p->d + i, &v.c, n);
      if (p->s) for (unsigned j = 0; j < n; j++) p->s[i + j] = nullptr;
      return;
    }
    for (unsigned j = 0; j < n; j++) wrByte(o, off + j, CV((v.c >> (8 * j)) & 0xff));
    return;
  }
  for (unsigned j = 0; j < n; j++) {
    Expr *b = mkExtract(v.e, 8 * j, 8);
    wrByte(o, off + j, isC(b) ? CV(b->val) : Val{0, b});
  }
}
static uint64_t stepOf(Expr *so) {
  uint64_t st = 1;
  for (unsigned k = 1; k <= 6; k++) { Expr *l = mkExtract(so, 0, k); if (isC(l) && l->val == 0) st = 1ULL << k; else break; }
  return st;
}
static Val loadV(Val a, unsigned nbytes, unsigned w) {
  Ref r = access(a, nbytes, false, true);
  Obj *o = objR(r.id);
  if (r.so) {
    uint64_t lo = r.so->lo, hi = std::min<uint64_t>(r.so->hi, o->size - nbytes), st = stepOf(r.so);
    if (lo > hi || (hi - lo) / st > 600) { r.off = concretize(Val{0, r.so}, 32); r.so = nullptr; o = objR(r.id); }
    else {
      lo -= lo % st;
      Expr *acc = nullptr;
      for (uint64_t x = lo; x <= hi; x += st) {
        Expr *e = EX(rdAt(o, x, nbytes), nbytes * 8);
        acc = acc ? mkIte(mkEq(r.so, mkConst(x, 32)), e, acc) : e;
      }
      if (w < nbytes * 8) acc = mkExtract(acc, 0, w);
      return VE(acc);
    }
  }
  Val v = rdAt(o, r.off, nbytes);
  if (w < nbytes * 8) { if (v.e) return VE(mkExtract(v.e, 0, w)); v.c &= maskw(w); }
  return v;
}
static void storeV(Val a, unsigned nbytes, unsigned w, Val v) {
  if (v.e) { v = VE(v.e); if (v.e && w < nbytes * 8) v.e = mkZExt(v.e, nbytes * 8); }
  Ref r = access(a, nbytes, true, true);
  if (r.so) {
    Obj *o = objW(r.id);
    uint64_t lo = r.so->lo, hi = std::min<uint64_t>(r.so->hi, o->size - nbytes), st = stepOf(r.so);
    if (lo > hi || (hi - lo) / st > 24) { r.off = concretize(Val{0, r.so}, 32); }
    else {
      Expr *ve = EX(v, nbytes * 8);
      lo -= lo % st;
      for (uint64_t x = lo; x <= hi; x += st) {
        Expr *old = EX(rdAt(o, x, nbytes), nbytes * 8);
        Expr *e = mkIte(mkEq(r.so, mkConst(x, 32)), ve, old);
        wrAt(o, x, nbytes, isC(e) ? CV(e->val) : Val{0, e});
      }
      return;
    }
  }
  wrAt(objW(r.id), r.off, nbytes, v);
}
static void copyBytes(Val d, Val s, uint64_t n) {   // memmove
  if (n == 0) return;
  Ref rs = access(s, n, false, false);
  Ref rd = access(d, n, true, false);
  if (rs.id == rd.id && rs.off == rd.off) return;
  Obj *od = objW(rd.id); Obj *os = objR(rs.id);
  if (os == od && rs.off < rd.off) for (uint64_t i = n; i-- > 0;) wrByte(od, rd.off + i, rdByte(os, rs.off + i));
  else {
    uint64_t i = 0;
    while (i < n) {
      // fast path: concrete page runs
      Page *ps = os->p[(rs.off + i) >> PGSH];
      uint32_t so = (rs.off + i) & (PGSZ - 1), dof = (rd.off + i) & (PGSZ - 1);
      uint64_t run = std::min<uint64_t>({n - i, PGSZ - so, PGSZ - dof});
      if (os != od && (!ps || !ps->s)) {
        Page *pd = pgW(od, (rd.off + i) >> PGSH);
        if (ps) memcpy(pd->d + dof, ps->d + so, run); else memset(pd->d + dof, os->fill, run);
        if (pd->s) memset(pd->s + dof, 0, run * sizeof(Expr *));
      } else for (uint64_t j = 0; j < run; j++) wrByte(od, rd.off + i + j, rdByte(os, rs.off + i + j));
      i += run;
    }
  }
}
static void setBytes(Val d, Val c, uint64_t n) {
  if (n == 0) return;
  Ref r = access(d, n, true, false);
  Obj *o = objW(r.id);
  if (c.e) c = VE(mkExtract(c.e, 0, 8)); else c.c &= 0xff;
  for (uint64_t i = 0; i < n; i++) {
    uint32_t dof = (r.off + i) & (PGSZ - 1);
    if (!c.e && dof == 0 && n - i >= PGSZ) {
      Page *p = pgW(o, (r.off + i) >> PGSH); memset(p->d, c.c, PGSZ); if (p->s) memset(p->s, 0, PGSZ * sizeof(Expr *)); i += PGSZ - 1; continue; }
    wrByte(o, r.off + i, c);
  }
}
static uint64_t newHeap(uint64_t size, uint8_t fill) {
  if (size > (1u << 28)) unsup("huge allocation");
  Obj *o = obNew(size, OK_HEAP, fill);
  uint32_t i = S->heap.push(o);
  return (uint64_t)(ID_HEAP + i) << 32;
}
static uint64_t newStack(uint64_t size, uint8_t fill) {
  if (size > (1u << 28)) unsup("huge stack object");
  uint32_t i = S->stack.push(obNew(size, OK_STACK, fill));
  return (uint64_t)(ID_STACK + i) << 32;
}
static std::string cstr(Val a) {   // concrete string (labels, messages)
  std::string r;
  for (;;) { Val b = loadV(CV(a.c + r.size()), 1, 8); uint64_t c = concretize(b, 8); if (!c) return r; r += (char)c; if (r.size() > 4000) return r; }
}

// ---------------------------------------------------------------- arithmetic
static uint64_t binConc(IOp op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
  case I_ADD: return (a + b) & m; case I_SUB: return (a - b) & m; case I_MUL: return (a * b) & m;
  case I_UDIV: return a / b; case I_UREM: return a % b;
  case I_SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); return y == -1 ? (0 - a) & m : (uint64_t)(x / y) & m; }
  case I_SREM: { int64_t x = sxt(a, w), y = sxt(b, w); return y == -1 ? 0 : (uint64_t)(x % y) & m; }
  case I_AND: return a & b; case I_OR: return a | b; case I_XOR: return a ^ b;
  case I_SHL: return b >= w ? 0 : (a << b) & m; case I_LSHR: return b >= w ? 0 : a >> b;
  case I_ASHR: return (uint64_t)(sxt(a, w) >> (b >= w ? w - 1 : b)) & m;
  default: abort();
  }
}
static const Op binOp[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
// LLVM predicates: EQ 32 NE 33 UGT 34 UGE 35 ULT 36 ULE 37 SGT 38 SGE 39 SLT 40 SLE 41
static Val icmp(unsigned pred, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) {
    bool r;
    switch (pred) {
    case 32: r = a.c == b.c; break; case 33: r = a.c != b.c; break;
    case 34: r = a.c > b.c; break; case 35: r = a.c >= b.c; break; case 36: r = a.c < b.c; break; case 37: r = a.c <= b.c; break;
    case 38: r = sxt(a.c, w) > sxt(b.c, w); break; case 39: r = sxt(a.c, w) >= sxt(b.c, w); break;
    case 40: r = sxt(a.c, w) < sxt(b.c, w); break; default: r = sxt(a.c, w) <= sxt(b.c, w); break;
    }
    return CV(r);
  }
  Expr *x = EX(a, w), *y = EX(b, w);
  switch (pred) {
  case 32: return VE(mkEq(x, y)); case 33: return VE(mkNot(mkEq(x, y)));
  case 34: return VE(mkBin(E_ULT, y, x)); case 35: return VE(mkBin(E_ULE, y, x));
  case 36: return VE(mkBin(E_ULT, x, y)); case 37: return VE(mkBin(E_ULE, x, y));
  case 38: return VE(mkBin(E_SLT, y, x)); case 39: return VE(mkBin(E_SLE, y, x));
  case 40: return VE(mkBin(E_SLT, x, y)); default: return VE(mkBin(E_SLE, x, y));
  }
}
static double asD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t c; memcpy(&c, &d, 8); return c; }

// ---------------------------------------------------------------- calls
static Val get(const Opnd &o) { if (o.slot < 0) return CV(o.c); Val v = F().s[o.slot]; if (v.e && S->nbound) return VE(v.e); return v; }
static void setDst(int d, Val v) { if (d >= 0) F().s[d] = v; }
static void jump(uint32_t edge) {
  Frame &f = F(); Func &fn = P.funcs[f.f]; Edge &e = fn.edges[edge];
  if (!e.copies.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto &c : e.copies) tmp.push_back(get(c.second));
    for (size_t i = 0; i < e.copies.size(); i++) f.s[e.copies[i].first] = tmp[i];
  }
  f.pc = e.target;
}
static void pushFrame(int fi, std::vector<Val> &args, int retdst, int nret, bool catchMark) {
  Func &f = P.funcs[fi];
  if (S->fr.size() > 400) memError("stack overflow (recursion depth)");
  f.executed = true;
  Frame n; n.f = fi; n.pc = 0; n.retdst = retdst; n.nret = nret; n.catchMark = catchMark; n.stackMark = S->stack.n;
  n.s.assign(f.nslots, CV(0));
  for (size_t i = 0; i < f.nargs && i < args.size(); i++) n.s[i] = args[i];
  for (size_t i = f.nargs; i < args.size(); i++) n.va.push_back(args[i]);
  S->fr.push_back(std::move(n));
  for (size_t i = 0; i < f.byval.size(); i++) if (f.byval[i]) {
    uint64_t a = newStack(f.byval[i], 0); copyBytes(CV(a), F().s[i], f.byval[i]); F().s[i] = CV(a); }
}
static void popFrame() { S->stack.popTo(F().stackMark); S->fr.pop_back(); }
static void coSwap() { S->fr.swap(S->fr2); std::swap(S->stack.c, S->stack2.c); std::swap(S->stack.n, S->stack2.n); }
static void coBack(uint64_t r) { coSwap(); S->inCo = false; setDst(S->coDst, CV(r)); F().pc++; }
static void throwCode(uint64_t code) {
  for (size_t i = S->fr.size(); i-- > 0;) if (S->fr[i].catchMark) {
    while (S->fr.size() > i + 1) popFrame();
    int rd = F().retdst;
    popFrame();
    setDst(rd, CV(code & 0xffffffff));
    F().pc++;
    return;
  }
  report("panic", optProp, "uncaught abort/exit code " + std::to_string((int)code), S->model);
  endPath();
}

enum Builtin { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_STRNCMP,
  B_STRCPY, B_SYM_U, B_SYM_MAKE, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_FAIL, B_SYM_REACH, B_SYM_NOTE, B_SYM_CATCH, B_SYM_THROW, B_SYM_CONC, B_SYM_END,
  B_SYM_ISNATIVE, B_SYM_ARG, B_SYM_HEAPLIVE, B_SYM_DEBUG, B_POW, B_FLOOR, B_ROUND, B_CEIL, B_NAN, B_STRTOD, B_MEMCHR, B_SYM_ISSYM, B_SYM_MEMEQ, B_SYM_EXPECT, B_SYM_OBJSIZE, B_FMOD, B_TRUNC, B_LOG2, B_LDEXP, B_SYM_INVALIDATE, B_SYM_LIVE, B_SYM_PROCESS, B_SYM_CO_START, B_SYM_CO_RESUME, B_SYM_CO_YIELD };
static const std::map<std::string, int> bnames = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE},
  {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"strcpy", B_STRCPY}, {"memchr", B_MEMCHR},
  {"sym_u_", B_SYM_U}, {"sym_make_", B_SYM_MAKE}, {"sym_assume", B_SYM_ASSUME}, {"sym_assert_", B_SYM_ASSERT}, {"sym_fail", B_SYM_FAIL},
  {"sym_reach", B_SYM_REACH}, {"sym_note", B_SYM_NOTE}, {"sym_catch", B_SYM_CATCH}, {"sym_throw", B_SYM_THROW}, {"sym_concretize", B_SYM_CONC}, {"sym_end", B_SYM_END},
  {"sym_is_native", B_SYM_ISNATIVE}, {"sym_arg", B_SYM_ARG}, {"sym_debug", B_SYM_DEBUG}, {"sym_issym", B_SYM_ISSYM}, {"sym_expect", B_SYM_EXPECT}, {"sym_live", B_SYM_LIVE}, {"sym_process", B_SYM_PROCESS}, {"sym_co_start", B_SYM_CO_START}, {"sym_co_resume", B_SYM_CO_RESUME}, {"sym_co_yield", B_SYM_CO_YIELD},
  {"pow", B_POW}, {"floor", B_FLOOR}, {"round", B_ROUND}, {"ceil", B_CEIL}, {"nan", B_NAN}, {"fmod", B_FMOD}, {"trunc", B_TRUNC}, {"log2", B_LOG2}, {"ldexp", B_LDEXP},
  {"sym_memeq", B_SYM_MEMEQ}, {"sym_invalidate", B_SYM_INVALIDATE},
};

static Expr *memDiff(Val a, Val b, uint64_t n) {   // 32-bit memcmp result
  Ref ra = access(a, n, false, false), rb = access(b, n, false, false);
  Obj *oa = objR(ra.id), *ob = objR(rb.id);
  // find first concrete difference to bound the chain
  uint64_t end = n; 
  for (uint64_t i = 0; i < n; i++) { Val x = rdByte(oa, ra.off + i), y = rdByte(ob, rb.off + i); if (!x.e && !y.e && x.c != y.c) { end = i + 1; break; } }
  Expr *r = mkConst(0, 32);
  for (uint64_t i = end; i-- > 0;) {
    Val x = rdByte(oa, ra.off + i), y = rdByte(ob, rb.off + i);
    if (x.e && x.e == y.e) continue;
    if (!x.e && !y.e && x.c == y.c) continue;
    Expr *ex = EX(x, 8), *ey = EX(y, 8);
    Expr *lt = mkIte(mkBin(E_ULT, ex, ey), mkConst(~0ULL, 32), mkConst(1, 32));
    r = mkIte(mkEq(ex, ey), r, lt);
  }
  return r;
}
static Expr *memEqE(Val a, Val b, uint64_t n) {   // 1-bit
  if (n == 0) return mkConst(1, 1);
  Ref ra = access(a, n, false, false), rb = access(b, n, false, false);
  Obj *oa = objR(ra.id), *ob = objR(rb.id);
  Expr *r = mkConst(1, 1);
  for (uint64_t i = 0; i < n; i++) { Val x = rdByte(oa, ra.off + i), y = rdByte(ob, rb.off + i); if (!x.e && !y.e && x.c != y.c) return mkConst(0, 1); }
  for (uint64_t i = 0; i < n; i++) {
    Val x = rdByte(oa, ra.off + i), y = rdByte(ob, rb.off + i);
    if (!x.e && !y.e) continue;
    r = mkBin(E_AND, r, mkEq(EX(x, 8), EX(y, 8)));
    if (isC(r) && !r->val) return r;
  }
  return r;
}

static void doBuiltin(int b, const Inst &n, std::vector<Val> &A) {
  auto conc = [&](size_t i, unsigned w = 64) { uint64_t v = concretize(A[i], w); A[i] = CV(v); return v; };
  Val r = CV(0);
  switch (b) {
  case B_MALLOC: r = CV(newHeap(conc(0), 0xbe)); break;
  case B_CALLOC: { uint64_t x = conc(0), y = conc(1); r = CV(newHeap(x * y, 0)); break; }
  case B_REALLOC: {
    uint64_t p = conc(0), z = conc(1);
    if (!p) { r = CV(newHeap(z, 0xbe)); break; }
    Obj *o = objR(p >> 32);
    if (!o || o->kind != OK_HEAP || (p & 0xffffffff)) memError("realloc of invalid pointer");
    if (o->freed) memError("realloc after free");
    if (z == 0) { objW(p >> 32)->freed = true; r = CV(0); break; }
    uint64_t q = newHeap(z, 0xbe);
    copyBytes(CV(q), CV(p), std::min<uint64_t>(z, objR(p >> 32)->size));
    Obj *w = objW(p >> 32); w->freed = true;
    r = CV(q); break; }
  case B_FREE: {
    uint64_t p = conc(0);
    if (!p) break;
    Obj *o = objR(p >> 32);
    if (!o || o->kind != OK_HEAP || (p & 0xffffffff)) memError("free of invalid pointer");
    if (o->freed) memError("double free");
    o = objW(p >> 32); o->freed = true; for (auto &pg : o->p) { pgUnref(pg); pg = nullptr; }
    break; }
  case B_MEMCPY: case B_MEMMOVE: { uint64_t z = conc(2); copyBytes(A[0], A[1], z); r = A[0]; break; }
  case B_MEMSET: { uint64_t z = conc(2); setBytes(A[0], A[1], z); r = A[0]; break; }
  case B_MEMCMP: { uint64_t z = conc(2); r = z ? VE(memDiff(A[0], A[1], z)) : CV(0); break; }
  case B_SYM_MEMEQ: { uint64_t z = conc(2); r = VE(mkZExt(memEqE(A[0], A[1], z), 32)); break; }
  case B_STRLEN: {
    uint64_t p = conc(0), i = 0;
    for (;; i++) { Val c = loadV(CV(p + i), 1, 8); if (c.e) { if (decide(mkEq(c.e, mkConst(0, 8)))) break; } else if (!c.c) break; }
    r = CV(i); break; }
  case B_STRCPY: {
    uint64_t p = conc(0), q = conc(1), i = 0;
    for (;; i++) { Val c = loadV(CV(q + i), 1, 8); if (c.e) { if (decide(mkEq(c.e, mkConst(0, 8)))) break; } else if (!c.c) break; }
    copyBytes(CV(p), CV(q), i); storeV(CV(p + i), 1, 8, CV(0)); r = CV(p); break; }
  case B_MEMCHR: {
    uint64_t p = conc(0), z = conc(2); uint64_t ch = conc(1) & 0xff; r = CV(0);
    for (uint64_t i = 0; i < z; i++) { Val c = loadV(CV(p + i), 1, 8); bool eq = c.e ? decide(mkEq(c.e, mkConst(ch, 8))) : c.c == ch; if (eq) { r = CV(p + i); break; } }
    break; }
  case B_STRCMP: case B_STRNCMP: {
    uint64_t p = conc(0), q = conc(1), z = b == B_STRNCMP ? conc(2) : ~0ULL;
    std::vector<std::pair<Expr *, Expr *>> ch; bool ended = false;
    for (uint64_t i = 0; i < z; i++) {
      Val x = loadV(CV(p + i), 1, 8), y = loadV(CV(q + i), 1, 8);
      ch.push_back({EX(x, 8), EX(y, 8)});
      if (!x.e && !y.e) { if (x.c != y.c || !x.c) { ended = true; break; } }
      else if ((!x.e && !x.c) || (!y.e && !y.c)) { ended = true; break; }
      else if (x.e && y.e) { // both symbolic: can the strings end here?
        if (decide(mkEq(x.e, mkConst(0, 8)))) { ended = true; break; }
      }
    }
    (void)ended;
    Expr *res = mkConst(0, 32);
    for (size_t i = ch.size(); i-- > 0;) {
      Expr *x = ch[i].first, *y = ch[i].second;
      Expr *lt = mkIte(mkBin(E_ULT, x, y), mkConst(~0ULL, 32), mkConst(1, 32));
      if (i + 1 < ch.size()) res = mkIte(mkEq(x, mkConst(0, 8)), mkConst(0, 32), res);
      res = mkIte(mkEq(x, y), res, lt);
    }
    r = VE(res); break; }
  case B_SYM_U: {  // sym_u_(w, lo, hi)
    uint64_t w = conc(0), lo = conc(1), hi = conc(2);
    if (lo == hi) { S->syms.push_back({mkConst(lo, w)}); r = CV(lo); break; }
    Expr *e = mkSym(S->syms.size(), w, lo, hi);
    S->syms.push_back({e});
    if (S->model.size() <= e->val) S->model.resize(e->val + 1, 0);
    S->model[e->val] = lo;
    nMaxSyms = std::max<uint64_t>(nMaxSyms, S->syms.size());
    r = VE(mkZExt(e, 64)); break; }
  case B_SYM_MAKE: { // sym_make_(p, n, lo, hi): n bytes
    uint64_t p = conc(0), z = conc(1), lo = conc(2), hi = conc(3);
    for (uint64_t i = 0; i < z; i++) {
      Expr *e = lo == hi ? mkConst(lo, 8) : mkSym(S->syms.size(), 8, lo, hi);
      S->syms.push_back({e});
      if (!isC(e)) { if (S->model.size() <= e->val) S->model.resize(e->val + 1, 0); S->model[e->val] = lo; }
      storeV(CV(p + i), 1, 8, isC(e) ? CV(e->val) : Val{0, e});
    }
    nMaxSyms = std::max<uint64_t>(nMaxSyms, S->syms.size());
    break; }
  case B_SYM_ASSUME: {
    if (!A[0].e) { if (!A[0].c) { nKilled++; endPath(); } break; }
    Expr *c = mkNot(mkEq(A[0].e, mkConst(0, A[0].e->w)));
    if (!assume(c)) { nKilled++; endPath(); }
    break; }
  case B_SYM_ASSERT: { // (cond, prop, msg)
    std::string prop = cstr(A[1]), msg = cstr(A[2]);
    if (!mine(prop)) break;
    asserts[prop + ": " + msg]++;
    if (!A[0].e) { if (!A[0].c) { report("assert", prop, msg, S->model); endPath(); } break; }
    Expr *c = mkNot(mkEq(A[0].e, mkConst(0, A[0].e->w)));
    int k = known(c);
    if (k == 1) break;
    if (k == 0) { report("assert", prop, msg, S->model); endPath(); }
    Expr *nc = mkNot(c); PModel m; Res q;
    if (!evalM(c)) { report("assert", prop, msg, S->model); if (!assume(c)) endPath(); break; }
    q = feasible(nc, m);
    if (q == UNKNOWN) { nTimeout++; break; }
    if (q == SAT) { Model mm = S->model; for (auto &x : m) { if (mm.size() <= x.first) mm.resize(x.first + 1, 0); mm[x.first] = x.second; } report("assert", prop, msg, mm); }
    addCons(S, c);
    break; }
  case B_SYM_FAIL: { std::string prop = cstr(A[0]), msg = cstr(A[1]); if (!mine(prop)) break; asserts[prop + ": " + msg]++; report("assert", prop, msg, S->model); endPath(); }
  case B_SYM_REACH: labels[cstr(A[0])]++; break;
  case B_SYM_NOTE: S->notes.push_back({(int)conc(0), A[1]}); break;
  case B_SYM_CATCH: {
    uint64_t fp = conc(0); std::vector<Val> a2 = {A[1]};
    uint32_t id = fp >> 32; if (id < ID_FUNC) memError("sym_catch of non-function");
    pushFrame(id - ID_FUNC, a2, n.dst, 0, true);
    return; }
  case B_SYM_THROW: { uint64_t c = conc(0); throwCode(c); return; }
  case B_SYM_CONC: r = CV(conc(0)); break;
  case B_SYM_END: endPath();
  case B_SYM_ISNATIVE: r = CV(0); break;
  case B_SYM_ISSYM: r = CV(A[0].e != nullptr); break;
  case B_SYM_CO_START: {
    uint64_t fp = conc(0); std::vector<Val> a2 = {A[1]}; uint32_t id = fp >> 32;
    if (id < ID_FUNC || S->coLive) memError("sym_co_start");
    S->coDst = n.dst; coSwap(); S->inCo = S->coLive = true;
    pushFrame(id - ID_FUNC, a2, -1, 0, false);
    return; }
  case B_SYM_CO_RESUME: if (!S->coLive || S->inCo) memError("sym_co_resume"); S->coDst = n.dst; coSwap(); S->inCo = true; F().pc++; return;
  case B_SYM_CO_YIELD: if (!S->inCo) memError("sym_co_yield"); coBack(0); return;
  case B_SYM_PROCESS: { // 0: variables of the program as initialised; 1: the same, keeping the old ones; 2: the kept ones again; 3: exchanged with the kept ones
    uint64_t opn = conc(0);
    auto put = [&](uint32_t id, Obj *o) { auto *k = S->glob.w(id / ObTab::CH); Obj *&q = k->o[id % ObTab::CH]; o->ref++; obUnref(q); q = o; };
    if (opn == 3) { auto p = std::make_shared<SavedGlobals>(); for (auto &x : ProgVars) { Obj *o = S->glob.get(x.first); o->ref++; p->o.emplace_back(x.first, o); }
      auto q = S->procs.back(); for (auto &x : q->o) put(x.first, x.second); S->procs.back() = p; break; }
    if (opn == 2) { auto p = S->procs.back(); S->procs.pop_back(); for (auto &x : p->o) put(x.first, x.second); break; }
    if (opn == 1) { auto p = std::make_shared<SavedGlobals>(); for (auto &x : ProgVars) { Obj *o = S->glob.get(x.first); o->ref++; p->o.emplace_back(x.first, o); } S->procs.push_back(p); }
    for (auto &x : ProgVars) put(x.first, x.second);
    break; }
  case B_SYM_LIVE: { // number of live heap objects
    uint64_t k = 0; for (uint32_t i = 0; i < S->heap.n; i++) if (!S->heap.get(i)->freed) k++; r = CV(k); break; }
  case B_SYM_ARG: { std::string nm = cstr(A[0]); uint64_t v = conc(1); for (auto &p : optArgs) if (p.first == nm) v = p.second; r = CV(v); break; }
  case B_SYM_DEBUG: if (optBug) { std::string m = cstr(A[0]); if (A[1].e) fprintf(stderr, "DEBUG %s sym %s model %llu\n", m.c_str(), exprStr(A[1].e).c_str(), (unsigned long long)evalM(A[1].e)); else fprintf(stderr, "DEBUG %s %lld\n", m.c_str(), (long long)A[1].c); } break;
  case B_SYM_EXPECT: break;
  case B_SYM_INVALIDATE: { uint64_t p = conc(0); Obj *o = objR(p >> 32); if (o && o->kind == OK_HEAP && !o->freed) objW(p >> 32)->freed = true; break; }
  case B_POW: r = CV(fromD(pow(asD(conc(0), 64), asD(conc(1), 64)), 64)); break;
  case B_FMOD: r = CV(fromD(fmod(asD(conc(0), 64), asD(conc(1), 64)), 64)); break;
  case B_LDEXP: r = CV(fromD(ldexp(asD(conc(0), 64), (int)conc(1)), 64)); break;
  case B_FLOOR: r = CV(fromD(floor(asD(conc(0), 64)), 64)); break;
  case B_LOG2: r = CV(fromD(log2(asD(conc(0), 64)), 64)); break;
  case B_TRUNC: r = CV(fromD(trunc(asD(conc(0), 64)), 64)); break;
  case B_ROUND: r = CV(fromD(round(asD(conc(0), 64)), 64)); break;
  case B_CEIL: r = CV(fromD(ceil(asD(conc(0), 64)), 64)); break;
  case B_NAN: r = CV(fromD(nan(""), 64)); break;
  default: unsup("builtin");
  }
  if (n.aux2) setDst(n.dst, r);
  F().pc++;
}

static void doIntrin(const Inst &n, std::vector<Val> &A) {
  unsigned w = n.w;
  Val r = CV(0);
  auto ex = [&](size_t i) { return EX(A[i], n.ws[i]); };
  auto conc = [&](size_t i) { uint64_t v = concretize(A[i], n.ws[i]); A[i] = CV(v); return v; };
  switch (n.sub) {
  case IN_MEMCPY: case IN_MEMMOVE: { uint64_t z = conc(2); copyBytes(A[0], A[1], z); break; }
  case IN_MEMSET: { uint64_t z = conc(2); setBytes(A[0], A[1], z); break; }
  case IN_VASTART: {
    Frame &f = F();
    if (!f.vaObj) { uint64_t a = newStack(f.va.size() * 8 + 8, 0); F().vaObj = a >> 32; for (size_t i = 0; i < F().va.size(); i++) { Val v = F().va[i]; storeV(CV(a + i * 8), 8, 64, v.e ? Val{0, mkZExt(v.e, 64)} : v); } }
    uint64_t base = (uint64_t)F().vaObj << 32; uint64_t p = conc(0);
    storeV(CV(p), 4, 32, CV(48)); storeV(CV(p + 4), 4, 32, CV(176)); storeV(CV(p + 8), 8, 64, CV(base)); storeV(CV(p + 16), 8, 64, CV(0));
    break; }
  case IN_VAEND: break;
  case IN_VACOPY: copyBytes(A[0], A[1], 24); break;
  case IN_STACKSAVE: r = CV(S->stack.n); break;
  case IN_STACKRESTORE: S->stack.popTo(conc(0)); break;
  case IN_UMAX: case IN_UMIN: case IN_SMAX: case IN_SMIN: {
    Op o = (n.sub == IN_UMAX || n.sub == IN_UMIN) ? E_ULT : E_SLT;
    Expr *c = mkBin(o, ex(0), ex(1));
    bool mx = n.sub == IN_UMAX || n.sub == IN_SMAX;
    r = VE(mkIte(c, mx ? ex(1) : ex(0), mx ? ex(0) : ex(1))); break; }
  case IN_ABS: { Expr *x = ex(0); r = VE(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x)); break; }
  case IN_BSWAP: { Expr *x = ex(0); Expr *e = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) e = mkConcat(e, mkExtract(x, i, 8)); r = VE(e); break; }
  case IN_CTPOP: r = CV(__builtin_popcountll(conc(0))); break;
  case IN_CTLZ: { uint64_t v = conc(0); r = CV(v ? __builtin_clzll(v) - (64 - w) : w); break; }
  case IN_CTTZ: { uint64_t v = conc(0); r = CV(v ? __builtin_ctzll(v) : w); break; }
  case IN_FSHL: case IN_FSHR: {
    uint64_t s = conc(2) % w; Expr *x = ex(0), *y = ex(1);
    if (n.sub == IN_FSHR) s = (w - s) % w, (void)0;
    if (n.sub == IN_FSHR && s == 0) { r = VE(y); break; }
    if (s == 0) { r = VE(x); break; }
    r = VE(mkConcat(mkExtract(x, 0, w - s), mkExtract(y, w - s, s))); break; }
  case IN_UADDO: { Expr *x = ex(0), *y = ex(1), *s = mkBin(E_ADD, x, y); setDst(n.dst, VE(s)); setDst(n.dst + 1, VE(mkBin(E_ULT, s, x))); F().pc++; return; }
  case IN_USUBO: { Expr *x = ex(0), *y = ex(1); setDst(n.dst, VE(mkBin(E_SUB, x, y))); setDst(n.dst + 1, VE(mkBin(E_ULT, x, y))); F().pc++; return; }
  case IN_UMULO: { Expr *x = ex(0), *y = ex(1), *p = mkBin(E_MUL, x, y);
    Expr *ov = mkBin(E_AND, mkNot(mkEq(x, mkConst(0, w))), mkNot(mkEq(mkBin(E_UDIV, p, x), y)));
    setDst(n.dst, VE(p)); setDst(n.dst + 1, VE(ov)); F().pc++; return; }
  case IN_SADDO: case IN_SSUBO: { Expr *x = ex(0), *y = ex(1); bool ad = n.sub == IN_SADDO; Expr *s = mkBin(ad ? E_ADD : E_SUB, x, y);
    Expr *z = mkConst(0, w); Expr *xn = mkBin(E_SLT, x, z), *yn = mkBin(E_SLT, y, z), *sn = mkBin(E_SLT, s, z);
    Expr *same = mkEq(xn, yn); if (!ad) same = mkNot(same);
    setDst(n.dst, VE(s)); setDst(n.dst + 1, VE(mkBin(E_AND, same, mkNot(mkEq(sn, xn))))); F().pc++; return; }
  case IN_SMULO: { int64_t x = sxt(conc(0), w), y = sxt(conc(1), w); __int128 p = (__int128)x * y; bool ov = p != sxt((uint64_t)p & maskw(w), w); setDst(n.dst, CV((uint64_t)p & maskw(w))); setDst(n.dst + 1, CV(ov)); F().pc++; return; }
  case IN_USUBSAT: { Expr *x = ex(0), *y = ex(1); r = VE(mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkBin(E_SUB, x, y))); break; }
  case IN_UADDSAT: { Expr *x = ex(0), *y = ex(1), *s = mkBin(E_ADD, x, y); r = VE(mkIte(mkBin(E_ULT, s, x), mkConst(~0ULL, w), s)); break; }
  case IN_ASSUME: break;
  case IN_EXPECT: r = A[0]; break;
  case IN_FABS: r = CV(fromD(fabs(asD(conc(0), w)), w)); break;
  case IN_FLOOR: r = CV(fromD(floor(asD(conc(0), w)), w)); break;
  case IN_CEIL: r = CV(fromD(ceil(asD(conc(0), w)), w)); break;
  case IN_ROUND: r = CV(fromD(round(asD(conc(0), w)), w)); break;
  case IN_TRUNCF: r = CV(fromD(trunc(asD(conc(0), w)), w)); break;
  case IN_RINT: r = CV(fromD(rint(asD(conc(0), w)), w)); break;
  case IN_FMULADD: r = CV(fromD(asD(conc(0), w) * asD(conc(1), w) + asD(conc(2), w), w)); break;
  case IN_FPCLASS: { double d = asD(conc(0), n.ws[0]); uint64_t m = conc(1); int c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : std::isnormal(d) ? (d < 0 ? 8 : 256) : (d < 0 ? 16 : 128);
    r = CV((c & m) != 0); break; }
  case IN_OBJSIZE: r = CV(maskw(w)); break;
  case IN_ISCONST: r = CV(0); break;
  case IN_TRAP: memError("trap");
  default: unsup("intrinsic");
  }
  setDst(n.dst, r);
  F().pc++;
}

// ---------------------------------------------------------------- concrete shortcuts
// Pure optimisation: instructions whose operands are all concrete, and library functions on concrete strings.
// Anything else (symbolic, out of bounds, freed) is left to step() and to the functions' own code.
struct CB { Obj *o; uint64_t off; bool ok;
  explicit CB(uint64_t a) : o(objR(a >> 32)), off(a & 0xffffffff), ok(true) { if (!o || o->freed) ok = false; }
  inline int at(uint64_t i) {
    uint64_t x = off + i; if (x >= o->size) { ok = false; return 0; }
    Page *p = o->p[x >> PGSH]; if (!p) return o->fill;
    uint32_t k = x & (PGSZ - 1); if (p->s && p->s[k]) { ok = false; return 0; }
    return p->d[k]; } };
enum FastFn { FF_NONE, FF_STRCASECMP, FF_STRNCASECMP, FF_STRCHR, FF_STRRCHR, FF_STRSPN, FF_STRCSPN, FF_STRSTR, FF_ISSPACE, FF_TOLOWER, FF_STRNLEN };
static const std::map<std::string, int> ffnames = { {"strcasecmp", FF_STRCASECMP}, {"strncasecmp", FF_STRNCASECMP}, {"strchr", FF_STRCHR}, {"strrchr", FF_STRRCHR},
  {"strspn", FF_STRSPN}, {"strcspn", FF_STRCSPN}, {"strstr", FF_STRSTR}, {"isspace", FF_ISSPACE}, {"tolower", FF_TOLOWER}, {"strnlen", FF_STRNLEN} };
static std::vector<uint8_t> ffOf;
static inline int lowc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool fastFn(int ff, const std::vector<Val> &A, uint64_t &r) {
  for (auto &v : A) if (v.e) return false;
  switch (ff) {
  case FF_STRCASECMP: case FF_STRNCASECMP: {
    CB a(A[0].c), b(A[1].c); if (!a.ok || !b.ok) return false;
    uint64_t n = ff == FF_STRCASECMP ? ~0ULL : A[2].c;
    for (uint64_t i = 0; i < n; i++) {
      int x = lowc(a.at(i)), y = lowc(b.at(i)); if (!a.ok || !b.ok) return false;
      if (x != y || !x) { r = (uint32_t)(x - y); return true; } }
    r = 0; return true; }
  case FF_STRCHR: case FF_STRRCHR: {
    CB a(A[0].c); if (!a.ok) return false; int c = A[1].c & 0xff; uint64_t res = 0;
    for (uint64_t i = 0;; i++) { int x = a.at(i); if (!a.ok) return false; if (x == c) { res = A[0].c + i; if (ff == FF_STRCHR) break; } if (!x) break; }
    r = res; return true; }
  case FF_STRSPN: case FF_STRCSPN: {
    CB a(A[0].c), b(A[1].c); if (!a.ok || !b.ok) return false;
    bool set[256] = { false };
    for (uint64_t i = 0;; i++) { int x = b.at(i); if (!b.ok) return false; if (!x) break; set[x] = true; }
    for (uint64_t i = 0;; i++) { int x = a.at(i); if (!a.ok) return false; if (!x || set[x] != (ff == FF_STRSPN)) { r = i; return true; } } }
  case FF_STRSTR: {
    CB a(A[0].c), b(A[1].c); if (!a.ok || !b.ok) return false; std::string nd;
    for (uint64_t i = 0;; i++) { int x = b.at(i); if (!b.ok) return false; if (!x) break; nd += (char)x; }
    std::string h; for (uint64_t i = 0;; i++) { int x = a.at(i); if (!a.ok) return false; if (!x) break; h += (char)x; }
    size_t p = h.find(nd); r = p == std::string::npos ? 0 : A[0].c + p; return true; }
  case FF_STRNLEN: { CB a(A[0].c); if (!a.ok) return false; uint64_t i = 0; for (; i < A[1].c; i++) { int x = a.at(i); if (!a.ok) return false; if (!x) break; } r = i; return true; }
  case FF_ISSPACE: { uint32_t c = (uint32_t)A[0].c; r = (c == ' ') | (c - 9 < 5u); return true; }
  case FF_TOLOWER: { uint32_t c = (uint32_t)A[0].c; r = c - 'A' < 26u ? c + 32 : c; return true; }
  }
  return false;
}
static void fastRun(uint64_t budget) {
  Frame &f = F(); Func &fn = P.funcs[f.f]; Val *s = f.s.data(); const Inst *code = fn.code.data(); uint8_t *cov = fn.cov.data();
  uint32_t pc = f.pc; uint64_t cnt = 0;
#define G(o) ((o).slot < 0 ? Val{(o).c, nullptr} : s[(o).slot])
#define SET(v) do { if (n.dst >= 0) { s[n.dst].c = (v); s[n.dst].e = nullptr; } } while (0)
  while (cnt < budget) {
    const Inst &n = code[pc];
    switch (n.op) {
    case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: {
      Val a = G(n.a), b = G(n.b); if (a.e || b.e) goto out;
      SET(binConc(n.op, a.c, b.c, n.w)); break; }
    case I_UDIV: case I_UREM: { Val a = G(n.a), b = G(n.b); if (a.e || b.e || !b.c) goto out; SET(n.op == I_UDIV ? a.c / b.c : a.c % b.c); break; }
    case I_ICMP: { Val a = G(n.a), b = G(n.b); if (a.e || b.e) goto out; SET(icmp(n.pred, a, b, n.w2).c); break; }
    case I_ZEXT: case I_COPY: { Val a = G(n.a); if (a.e) goto out; SET(a.c); break; }
    case I_SEXT: { Val a = G(n.a); if (a.e) goto out; SET((uint64_t)sxt(a.c, n.w2) & maskw(n.w)); break; }
    case I_TRUNC: { Val a = G(n.a); if (a.e) goto out; SET(a.c & maskw(n.w)); break; }
    case I_SELECT: { Val c = G(n.a); if (c.e) goto out; Val v = c.c ? G(n.b) : G(n.c); if (v.e) goto out; SET(v.c); break; }
    case I_GEP: {
      Val a = G(n.a); if (a.e) goto out; uint64_t x = a.c + n.b.c;
      for (size_t i = 0; i < n.args.size(); i++) { Val v = G(n.args[i]); if (v.e) goto out; x += (uint64_t)sxt(v.c, n.ws[i]) * n.scales[i]; }
      SET(x); break; }
    case I_LOAD: {
      Val a = G(n.a); if (a.e) goto out; uint64_t ad = a.c + n.aux; uint64_t off = ad & 0xffffffff; Obj *o = objR(ad >> 32);
      if (!o || o->freed || off + n.w2 > o->size) goto out;
      Page *p = o->p[off >> PGSH]; uint32_t i = off & (PGSZ - 1);
      if (!p || i + n.w2 > PGSZ) goto out;
      if (p->s) for (unsigned j = 0; j < n.w2; j++) if (p->s[i + j]) goto out;
      uint64_t v = 0; memcpy(&v, p->d + i, n.w2); if (n.w < n.w2 * 8u) v &= maskw(n.w);
      SET(v); break; }
    case I_STORE: {
      Val a = G(n.a), v = G(n.b); if (a.e || v.e) goto out; uint64_t ad = a.c + n.aux; uint64_t off = ad & 0xffffffff; Obj *o = objR(ad >> 32);
      if (!o || o->freed || o->kind == OK_CONST || off + n.w2 > o->size) goto out;
      uint32_t i = off & (PGSZ - 1); if (i + n.w2 > PGSZ) goto out;
      Page *p = pgW(objW(ad >> 32), off >> PGSH); memcpy(p->d + i, &v.c, n.w2);
      if (p->s) for (unsigned j = 0; j < n.w2; j++) p->s[i + j] = nullptr;
      break; }
    case I_BR: case I_CONDBR: {
      uint32_t eg = n.aux;
      if (n.op == I_CONDBR) { Val c = G(n.a); if (c.e) goto out; if (!c.c) eg = n.aux2; }
      const Edge &e = fn.edges[eg];
      if (!e.copies.empty()) {
        for (auto &c : e.copies) if (c.second.slot >= 0 && s[c.second.slot].e) goto out;
        if (e.copies.size() == 1) { s[e.copies[0].first] = CV(G(e.copies[0].second).c); }
        else {
          static std::vector<uint64_t> tmp; tmp.clear();
          for (auto &c : e.copies) tmp.push_back(G(c.second).c);
          for (size_t k = 0; k < tmp.size(); k++) s[e.copies[k].first] = CV(tmp[k]);
        }
      }
      cov[pc] = 1; cnt++; pc = e.target; continue; }
    default: goto out;
    }
    cov[pc] = 1; cnt++; pc++;
  }
out:
#undef G
#undef SET
  f.pc = pc; fn.ninst += cnt; nInst += cnt; S->ninst += cnt;
}

static void step() {
  Frame &f = F(); Func &fn = P.funcs[f.f];
  const Inst &n = fn.code[f.pc];
  fn.cov[f.pc] = 1; fn.ninst++; nInst++;
  if (++S->ninst > optMaxInst) { report("hang", optProp, "path exceeds the instruction limit (endless loop)", S->model); endPath(); }
  switch (n.op) {
  case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
    Val b = get(n.b);
    if (b.e) { if (decide(mkEq(b.e, mkConst(0, n.w)))) { memError("division by zero"); } }
    else if (!b.c) memError("division by zero");
  } /* FALLTHROUGH */
  case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: {
    Val a = get(n.a), b = get(n.b);
    if (!a.e && !b.e) setDst(n.dst, CV(binConc(n.op, a.c, b.c, n.w)));
    else setDst(n.dst, VE(mkBin(binOp[n.op], EX(a, n.w), EX(b, n.w))));
    f.pc++; break; }
  case I_ICMP: setDst(n.dst, icmp(n.pred, get(n.a), get(n.b), n.w2)); f.pc++; break;
  case I_ZEXT: { Val a = get(n.a); if (a.e) a = VE(mkZExt(a.e, n.w)); setDst(n.dst, a); f.pc++; break; }
  case I_SEXT: { Val a = get(n.a); if (a.e) a = VE(mkSExt(a.e, n.w)); else a.c = (uint64_t)sxt(a.c, n.w2) & maskw(n.w); setDst(n.dst, a); f.pc++; break; }
  case I_TRUNC: { Val a = get(n.a); if (a.e) a = VE(mkExtract(a.e, 0, n.w)); else a.c &= maskw(n.w); setDst(n.dst, a); f.pc++; break; }
  case I_COPY: setDst(n.dst, get(n.a)); f.pc++; break;
  case I_SELECT: {
    Val c = get(n.a);
    if (!c.e) setDst(n.dst, c.c ? get(n.b) : get(n.c));
    else {
      int k = known(c.e);
      if (k >= 0) setDst(n.dst, k ? get(n.b) : get(n.c));
      else setDst(n.dst, VE(mkIte(c.e, EX(get(n.b), n.w), EX(get(n.c), n.w))));
    }
    f.pc++; break; }
  case I_LOAD: { Val a = get(n.a); if (a.e) a = VE(mkBin(E_ADD, a.e, mkConst(n.aux, 64))); else a.c += n.aux; Val v = loadV(a, n.w2, n.w); setDst(n.dst, v); F().pc++; break; }
  case I_STORE: { Val a = get(n.a); if (a.e) a = VE(mkBin(E_ADD, a.e, mkConst(n.aux, 64))); else a.c += n.aux; storeV(a, n.w2, n.w, get(n.b)); F().pc++; break; }
  case I_GEP: {
    Val a = get(n.a); uint64_t off = n.b.c; Expr *e = a.e;
    uint64_t base = a.c;
    for (size_t i = 0; i < n.args.size(); i++) {
      Val x = get(n.args[i]);
      if (!x.e) { off += (uint64_t)sxt(x.c, n.ws[i]) * n.scales[i]; continue; }
      Expr *t = mkBin(E_MUL, mkSExt(x.e, 64), mkConst(n.scales[i], 64));
      if (e) e = mkBin(E_ADD, e, t); else { e = mkBin(E_ADD, t, mkConst(base, 64)); }
    }
    setDst(n.dst, e ? VE(mkBin(E_ADD, e, mkConst(off, 64))) : CV(base + off));
    f.pc++; break; }
  case I_ALLOCA: { uint64_t c = concretize(get(n.a), n.w2); uint64_t p = newStack(c * n.aux, 0xfe); setDst(n.dst, CV(p)); F().pc++; break; }
  case I_BR: jump(n.aux); break;
  case I_CONDBR: { Val c = get(n.a); bool b = c.e ? decide(c.e) : c.c; jump(b ? n.aux : n.aux2); break; }
  case I_SWITCH: {
    Val v = get(n.a);
    if (!v.e) { uint32_t e = n.aux; for (auto &c : n.cases) if (c.v == v.c) { e = c.edge; break; } jump(e); break; }
    // decide per distinct target
    std::vector<uint32_t> done;
    for (auto &c : n.cases) {
      if (std::find(done.begin(), done.end(), c.edge) != done.end()) continue;
      done.push_back(c.edge);
      Expr *cond = mkConst(0, 1);
      for (auto &d : n.cases) if (d.edge == c.edge) cond = mkBin(E_OR, cond, mkEq(v.e, mkConst(d.v, n.w2)));
      if (decide(cond)) { jump(c.edge); return; }
    }
    jump(n.aux); break; }
  case I_RET: {
    std::vector<Val> rv; for (auto &o : n.args) rv.push_back(get(o));
    int rd = f.retdst, nr = f.nret; bool cm = f.catchMark;
    if (S->fr.size() == 1) { if (!S->inCo) endPath(); popFrame(); S->coLive = false; coBack(1); break; }
    popFrame();
    if (cm) setDst(rd, CV(0));
    else for (int i = 0; i < nr && i < (int)rv.size(); i++) setDst(rd + i, rv[i]);
    F().pc++; break; }
  case I_CALL: {
    std::vector<Val> A; A.reserve(n.args.size());
    for (auto &o : n.args) A.push_back(get(o));
    int fi;
    if (n.sub == 1) fi = n.aux;
    else {
      uint64_t t = concretize(get(n.a), 64); uint32_t id = t >> 32;
      if (id < ID_FUNC || id - ID_FUNC >= P.funcs.size() || (t & 0xffffffff)) memError("call through invalid function pointer");
      fi = id - ID_FUNC;
    }
    Func &c = P.funcs[fi];
    if (ffOf[fi]) { uint64_t r; if (fastFn(ffOf[fi], A, r)) { if (n.aux2) setDst(n.dst, CV(r)); f.pc++; break; } }
    if (c.defined) { pushFrame(fi, A, n.dst, n.aux2, false); break; }
    if (c.builtin >= 0) { doBuiltin(c.builtin, n, A); break; }
    unsup("external function " + c.name); }
  case I_INTRIN: { std::vector<Val> A; for (auto &o : n.args) A.push_back(get(o)); doIntrin(n, A); break; }
  case I_UNREACH: memError("unreachable code reached (undefined behaviour)");
  case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: {
    double a = asD(concretize(get(n.a), n.w), n.w), b = asD(concretize(get(n.b), n.w), n.w);
    double r = n.op == I_FADD ? a + b : n.op == I_FSUB ? a - b : n.op == I_FMUL ? a * b : a / b;
    setDst(n.dst, CV(fromD(r, n.w))); F().pc++; break; }
  case I_FNEG: setDst(n.dst, CV(fromD(-asD(concretize(get(n.a), n.w), n.w), n.w))); F().pc++; break;
  case I_FCMP: {
    double a = asD(concretize(get(n.a), n.w2), n.w2), b = asD(concretize(get(n.b), n.w2), n.w2);
    bool un = std::isnan(a) || std::isnan(b), r = false; unsigned p = n.pred;
    if ((p & 8) && un) r = true;
    if (!un) { if ((p & 1) && a == b) r = true; if ((p & 2) && a > b) r = true; if ((p & 4) && a < b) r = true; }
    setDst(n.dst, CV(r)); F().pc++; break; }
  case I_SITOFP: { uint64_t v = concretize(get(n.a), n.w2); setDst(n.dst, CV(fromD((double)sxt(v, n.w2), n.w))); F().pc++; break; }
  case I_UITOFP: { uint64_t v = concretize(get(n.a), n.w2); setDst(n.dst, CV(fromD((double)v, n.w))); F().pc++; break; }
  case I_FPTOSI: { double d = asD(concretize(get(n.a), n.w2), n.w2); int64_t v = (d >= 9.2233720368547758e18 || d < -9.2233720368547758e18 || std::isnan(d)) ? INT64_MIN : (int64_t)d; setDst(n.dst, CV((uint64_t)v & maskw(n.w))); F().pc++; break; }
  case I_FPTOUI: { double d = asD(concretize(get(n.a), n.w2), n.w2); uint64_t v;
      if (std::isnan(d)) v = 1ULL << 63; else if (d >= 18446744073709551616.0) v = 0; else if (d < 0) v = (d < -9.2233720368547758e18) ? 1ULL << 63 : (uint64_t)(int64_t)d; else v = (uint64_t)d;
      setDst(n.dst, CV(v & maskw(n.w))); F().pc++; break; }
  case I_FPEXT: setDst(n.dst, CV(fromD(asD(concretize(get(n.a), n.w2), n.w2), n.w))); F().pc++; break;
  case I_FPTRUNC: setDst(n.dst, CV(fromD(asD(concretize(get(n.a), n.w2), n.w2), n.w))); F().pc++; break;
  default: unsup("instruction");
  }
}

// ---------------------------------------------------------------- main loop
static void writeResults() {
  char fn[600]; snprintf(fn, sizeof fn, "%s/r.%d.json", optOut.c_str(), (int)getpid());
  FILE *o = fopen(fn, "w"); if (!o) { perror(fn); return; }
  auto dumpV = [&](const Viol &v) {
    fprintf(o, "{\"kind\":%s,\"prop\":%s,\"msg\":%s,\"where\":%s,\"trace\":%s,\"in\":[", jstr(v.kind).c_str(), jstr(v.prop).c_str(), jstr(v.msg).c_str(), jstr(v.where).c_str(), jstr(v.trace).c_str());
    for (size_t i = 0; i < v.in.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)v.in[i].second);
    fprintf(o, "],\"notes\":[");
    for (size_t i = 0; i < v.notes.size(); i++) fprintf(o, "%s[%d,%llu]", i ? "," : "", v.notes[i].first, (unsigned long long)v.notes[i].second);
    fprintf(o, "]}"); };
  fprintf(o, "{\"violations\":[");
  for (size_t i = 0; i < viols.size(); i++) { if (i) fprintf(o, ","); dumpV(viols[i]); }
  fprintf(o, "],\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) { if (i) fprintf(o, ","); dumpV(samples[i]); }
  auto dumpM = [&](const char *nm, std::map<std::string, uint64_t> &m) {
    fprintf(o, ",\"%s\":{", nm); bool f = true;
    for (auto &p : m) { fprintf(o, "%s%s:%llu", f ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); f = false; }
    fprintf(o, "}"); };
  if (getenv("AARDSYM_PROF")) { for (auto &f : P.funcs) if (f.ninst > nInst / 200) fprintf(stderr, "PROF %d %5.1f%% %s\n", (int)getpid(), 100.0 * f.ninst / nInst, f.name.c_str()); }
  fprintf(o, "]"); dumpM("labels", labels); dumpM("asserts", asserts); dumpM("unsupported", unsupported);
  std::map<std::string, uint64_t> fe; std::map<std::string, uint64_t> cov;
  for (auto &f : P.funcs) if (f.executed && f.repo) {
    fe[f.name] += f.ninst; uint64_t k = 0; for (auto c : f.cov) k += c;
    std::string key = f.name; cov[key] = k * 1000 / std::max<size_t>(1, f.code.size());
  }
  dumpM("functions", fe); dumpM("coverage_permille", cov);
  fprintf(o, ",\"stats\":{\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"unknown\":%llu,\"assumed_away\":%llu,\"errors\":%llu,\"pending\":%llu,\"dropped\":%llu,\"max_symbols\":%llu,"
    "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"bad_models\":%llu,\"solver_time\":%.3f,\"solver_max\":%.3f,\"exprs\":%llu}}\n",
    (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nInst, (unsigned long long)nTimeout, (unsigned long long)nKilled, (unsigned long long)nErr,
    (unsigned long long)work.size(), (unsigned long long)nDropped, (unsigned long long)nMaxSyms,
    (unsigned long long)SS.queries, (unsigned long long)SS.sat, (unsigned long long)SS.unsat, (unsigned long long)SS.cacheHits, (unsigned long long)SS.modelHits, (unsigned long long)SS.badModels,
    SS.time, SS.maxTime, (unsigned long long)exprCount());
  fclose(o);
}
static void resetCounters() {
  viols.clear(); samples.clear(); labels.clear(); asserts.clear(); unsupported.clear();
  nPaths = nForks = nInst = nTimeout = nKilled = nErr = nDropped = 0; SS = SolverStats();
  for (auto &f : P.funcs) { f.executed = false; f.ninst = 0; std::fill(f.cov.begin(), f.cov.end(), 0); }
}
static void trySplit() {
  if (work.size() < 2 || SH->active >= optJobs) return;
  if (__sync_add_and_fetch(&SH->active, 1) > optJobs) { __sync_fetch_and_sub(&SH->active, 1); return; }
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_sub(&SH->active, 1); return; }
  // the child takes every second pending state
  std::vector<State *> keep, drop;
  for (size_t i = 0; i < work.size(); i++) ((i % 2 == 0) == (p == 0) ? keep : drop).push_back(work[i]);
  if (p == 0) { resetCounters(); for (auto s : drop) (void)s; }   // leaked in the child
  else for (auto s : drop) delete s;
  work.swap(keep);
}
static bool timeUp() {
  double t = now();
  if (t - T0 > optTime) return true;
  if (SH->viol && t - SH->violAt > optGrace) return true;
  return SH->stop;
}
static void runState() {
  uint64_t k = 0;
  try {
    for (;;) {
      fastRun(std::min<uint64_t>(0x10000, optMaxInst > S->ninst ? optMaxInst - S->ninst : 0));
      step();
      if ((++k & 0x3ff) == 0) { if (timeUp()) { work.push_back(S); S = nullptr; return; } }
    }
  } catch (EndPath &) {}
  nPaths++;
  if (!S->incomplete && viols.empty() && SH->samples < optSamples && (nPaths <= 1 || nPaths % 7 == 3)) {
    __sync_fetch_and_add(&SH->samples, 1);
    Viol v = snapshot(S->model); v.kind = "sample"; v.prop = optProp; samples.push_back(v);
  }
  delete S; S = nullptr;
}
int main(int argc, char **argv) {
  std::string bc, entry = "harness_main", prefix = "/repo/";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--prop") optProp = nx();
    else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--jobs") optJobs = atoi(nx().c_str());
    else if (a == "--max-inst") optMaxInst = atoll(nx().c_str()); else if (a == "--samples") optSamples = atoi(nx().c_str());
    else if (a == "--grace") optGrace = atof(nx().c_str()); else if (a == "--repo") prefix = nx(); else if (a == "--debug") optBug = true;
    else if (a == "--solver-timeout") g_solverTimeoutMs = atoi(nx().c_str());
    else if (a == "--dump") { static std::string d = nx(); g_dumpDir = d.c_str(); g_dumpMax = 6; }
    else if (a == "--arg") { std::string s = nx(); size_t e = s.find('='); optArgs.push_back({s.substr(0, e), atol(s.c_str() + e + 1)}); }
    else bc = a;
  }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20) && !getenv("AARDSYM_RE")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1u << 30) : std::min<rlim_t>(rl.rlim_max, 1u << 30); setrlimit(RLIMIT_STACK, &rl);
    setenv("AARDSYM_RE", "1", 1); execv("/proc/self/exe", argv);
  }
  T0 = now();
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->active = 1;
  if (!loadProgram(bc.c_str(), prefix.c_str(), P)) return 2;
  for (auto &f : P.funcs) if (!f.defined) { auto it = bnames.find(f.name); if (it != bnames.end()) f.builtin = it->second; }
  ffOf.assign(P.funcs.size(), FF_NONE);
  for (size_t i = 0; i < P.funcs.size(); i++) if (P.funcs[i].defined && !P.funcs[i].repo) { auto it = ffnames.find(P.funcs[i].name); if (it != ffnames.end()) ffOf[i] = it->second; }
  if (!P.byName.count(entry)) { fprintf(stderr, "aardsym: no entry %s\n", entry.c_str()); return 2; }
  S = new State;
  S->glob.push(nullptr);
  for (auto &g : P.globals) {
    Obj *o = obNew(g.size, g.isconst ? OK_CONST : OK_GLOBAL, 0);
    for (uint32_t i = 0; i < g.size; i += PGSZ) { Page *p = pgNew(0); memcpy(p->d, g.bytes.data() + i, std::min<uint32_t>(PGSZ, g.size - i)); o->p[i >> PGSH] = p; }
    uint32_t gi = S->glob.push(o);
    if (g.repo && !g.isconst) { o->ref++; ProgVars.emplace_back(gi, o); }
  }
  { std::vector<Val> a; pushFrame(P.byName[entry], a, -1, 0, false); }
  work.push_back(S); S = nullptr;
  bool parent = true; (void)parent;
  while (!work.empty()) {
    if (timeUp()) break;
    trySplit();
    S = work.back(); work.pop_back();
    runState();
  }
  writeResults();
  __sync_fetch_and_sub(&SH->active, 1);
  int st; bool bad = false;
  while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true;
  fflush(nullptr);
  _exit(bad ? 3 : 0);
}
