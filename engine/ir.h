// Compact IR translated from LLVM bitcode.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
struct Opnd { int slot; uint64_t c; };
enum IOp : uint8_t {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
  I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_INTRIN,
  I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FNEG, I_FCMP, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_FPEXT, I_FPTRUNC,
  I_UNSUP
};
enum Intrin : uint16_t {
  IN_NOP, IN_MEMCPY, IN_MEMMOVE, IN_MEMSET, IN_VASTART, IN_VAEND, IN_VACOPY, IN_STACKSAVE, IN_STACKRESTORE,
  IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_ABS, IN_BSWAP, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_FSHL, IN_FSHR,
  IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_USUBSAT, IN_UADDSAT, IN_ASSUME, IN_EXPECT,
  IN_FABS, IN_FLOOR, IN_CEIL, IN_ROUND, IN_TRUNCF, IN_RINT, IN_OBJSIZE, IN_TRAP, IN_ISCONST, IN_FPCLASS, IN_FMULADD, IN_UNSUP
};
struct Edge { uint32_t target; std::vector<std::pair<int, Opnd>> copies; };
struct SwCase { uint64_t v; uint32_t edge; };
struct Inst {
  IOp op; uint8_t w, w2; uint8_t pred; uint16_t sub;   // sub: intrinsic / builtin id
  int dst = -1; uint32_t line = 0; uint16_t file = 0;
  Opnd a{-1, 0}, b{-1, 0}, c{-1, 0};
  uint32_t aux = 0, aux2 = 0;            // edge indices / func id / counts
  std::vector<Opnd> args;
  std::vector<uint64_t> scales;          // GEP
  std::vector<uint8_t> ws;               // widths of args / index widths / ret
  std::vector<SwCase> cases;
};
struct Func {
  std::string name; bool defined = false; bool vararg = false; bool repo = false;
  uint32_t nslots = 0, nargs = 0; int builtin = -1;
  std::vector<Inst> code; std::vector<Edge> edges;
  std::vector<uint32_t> byval;           // size per arg slot (0: by value normally)
  std::string file;
  bool executed = false; uint64_t ninst = 0;
  std::vector<uint8_t> cov;
};
struct GlobalInit { uint32_t id, size; bool isconst, repo; std::vector<uint8_t> bytes; std::string name; };
struct Program {
  std::vector<Func> funcs; std::map<std::string, int> byName;
  std::vector<GlobalInit> globals;       // ids 1..n
  std::vector<std::string> files;
};
static const uint32_t ID_HEAP = 0x10000000, ID_STACK = 0x40000000, ID_FUNC = 0x70000000;
bool loadProgram(const char *bc, const char *repoPrefix, Program &P);
