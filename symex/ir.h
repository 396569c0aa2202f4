// Compact program representation produced from LLVM IR.
#pragma once
#include "expr.h"
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

struct Val {
  uint64_t c = 0;
  Expr *e = nullptr;  // null => concrete value c
};

enum Op : uint16_t {
  OP_NOP,
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
  OP_SELECT, OP_TRUNC, OP_ZEXT, OP_SEXT, OP_COPY, OP_FREEZE,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FNEG, OP_FCMP,
  OP_UI2F, OP_SI2F, OP_F2UI, OP_F2SI, OP_FPEXT, OP_FPTRUNC, OP_F2SISAT, OP_F2UISAT,
  OP_ALLOCA, OP_LOAD, OP_STORE, OP_GEP, OP_OFFSET,
  OP_BR, OP_CBR, OP_SWITCH, OP_CALL, OP_RET, OP_LANDINGPAD, OP_RESUME, OP_UNREACHABLE,
  OP_RMW, OP_CMPXCHG, OP_FENCE,
  OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_BSWAP, OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_ABS, OP_FSHL, OP_FSHR,
  OP_UADDO, OP_USUBO, OP_UMULO, OP_SADDO, OP_SSUBO, OP_SMULO, OP_UADDSAT, OP_USUBSAT, OP_BITREV,
  OP_TLSADDR, OP_TYPEID, OP_FMATH, OP_EXTRACTDYN, OP_INSERTDYN, OP_PACK, OP_UNPACK,
};

enum InstFlags : uint8_t { IF_ATOMIC = 1, IF_VOLATILE = 2, IF_SYNC = 4, IF_CHECKED = 8, IF_FORKSEL = 16 };

struct Inst {
  uint16_t op = 0;
  uint8_t w = 0;       // operand width
  uint8_t w2 = 0;      // result width / predicate / rmw op
  uint8_t flags = 0;
  int32_t dst = -1;
  int32_t a = 0, b = 0, c = 0;
  int32_t x = 0;
  int32_t loc = 0;
};

struct Edge {
  int32_t pc;
  std::vector<std::pair<int32_t, int32_t>> moves;  // dst slot, operand
  bool overlap = false;
};

struct SwitchTab {
  std::vector<std::pair<uint64_t, int32_t>> cases;  // value -> edge
  int32_t dflt;
};

struct CallInfo {
  int32_t callee = -1;     // function index or -1 (indirect through target)
  int32_t target = 0;      // operand for indirect
  std::vector<int32_t> args;   // flattened operands
  std::vector<uint8_t> widths;
  int32_t dst = -1;
  int32_t nret = 0;
  std::vector<uint8_t> retw;
  int32_t normal = -1, unwind = -1;  // edges for invoke
  bool hasByval = false;
};

struct LPad {
  bool cleanup = false;
  struct Clause { bool isFilter; uint64_t ti; };
  std::vector<Clause> clauses;
};

struct FloatMath { int kind; };

struct Function {
  std::string name, pretty, file;
  int line = 0;
  bool isDecl = true;
  bool inRepo = false;
  uint64_t addr = 0;
  int builtin = -1;
  int32_t nregs = 0;
  int32_t nargs = 0;
  std::vector<uint8_t> argw;
  int32_t nret = 0;
  bool varargs = false;
  std::vector<Inst> code;
  uint64_t executed = 0;
  std::vector<int32_t> scopes;  // indices into Prog::scopes: repository functions inlined here
};

struct Global {
  std::string name;
  uint64_t addr = 0;
  uint64_t size = 0;
  bool isConst = false, isTLS = false, isExtern = false;
  std::vector<uint8_t> init;
};

struct Loc { std::string file; int line; };

struct Prog {
  std::vector<Function> funcs;
  std::vector<Global> globals;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<SwitchTab> switches;
  std::vector<CallInfo> calls;
  std::vector<LPad> lpads;
  std::vector<Loc> locs;
  std::vector<int> ctors;  // function indices
  std::unordered_map<std::string, int> funcByName;
  std::unordered_map<uint64_t, int> funcByAddr;
  std::unordered_map<std::string, int> globalByName;
  std::unordered_map<uint64_t, int> globalByAddr;
  std::vector<std::string> unsupported;
  std::vector<std::string> scopes;
};

// address layout: tag | gen(10) | slot(14) | off(22)
constexpr uint64_t ADDR_TAG = 1ull << 46;
constexpr int OFF_BITS = 22, SLOT_BITS = 14, GEN_BITS = 10;
constexpr uint64_t OFF_MASK = (1ull << OFF_BITS) - 1;
constexpr uint64_t SLOT_MASK = (1ull << SLOT_BITS) - 1;
constexpr uint64_t GEN_MASK = (1ull << GEN_BITS) - 1;
static inline uint64_t mkAddr(uint64_t slot, uint64_t gen) {
  return ADDR_TAG | (gen << (SLOT_BITS + OFF_BITS)) | (slot << OFF_BITS);
}
static inline bool isObjAddr(uint64_t a) { return (a >> 46) == 1; }
static inline uint32_t addrSlot(uint64_t a) { return (a >> OFF_BITS) & SLOT_MASK; }
static inline uint32_t addrGen(uint64_t a) { return (a >> (OFF_BITS + SLOT_BITS)) & GEN_MASK; }

bool loadProgram(const std::string &bc, Prog &p, const std::string &repoPrefix, std::string &err);
bool instrumentBitcode(const std::string &in, const std::string &out, bool fine, bool asan, std::string &err);
// Which instructions are scheduling points; shared by the executor and by the
// instrumenter that produces the replay binary.
