// Hash-consed bit-vector / floating-point expressions (width <= 64).
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <z3.h>

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // floating point on IEEE bit patterns (width 32/64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FREM,
  O_FLT, O_FLE, O_FEQ, O_FUNO,          // ordered lt/le/eq, unordered
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC, O_FRND, // FRND aux: 0 floor 1 ceil 2 trunc 3 rint 4 round
  O_DY,                                  // exact double: signed arg * 2^-scale ; c = scale | bits<<8
  O_UF,                                  // uninterpreted function, c = function index
};

struct VarInfo { std::string name; unsigned width; bool hasRange; int64_t lo, hi; };

struct Expr {
  Op op; uint8_t width; bool hasUF, hasFP;
  uint32_t id;
  uint64_t c;          // const value / var index / extract offset / aux
  const Expr *a[3];
  const std::vector<uint32_t> *vars;   // sorted interned support
  mutable Z3_ast zv, zb;
  mutable uint64_t umin, umax;         // unsigned range
  mutable uint64_t ev; mutable uint32_t evStamp;
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;
extern bool g_fpUF;     // true: fp arithmetic as uninterpreted functions
extern uint64_t g_nExpr;

E mkConst(unsigned w, uint64_t v);
E mkVar(const std::string &name, unsigned w, bool hasRange = false, int64_t lo = 0, int64_t hi = 0);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkBin(Op op, E a, E b);       // any O_ADD..O_ASHR + comparisons
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkConcat(E hi, E lo); E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkEq(E a, E b); E mkCmp(Op op, E a, E b);
E mkFBin(Op op, E a, E b); E mkFUn(Op op, E a); E mkFCmp(Op op, E a, E b);
E mkFCast(Op op, E a, unsigned w); E mkFRnd(E a, int mode);
E mkFNeg(E a); E mkFAbs(E a);
E mkUF(const std::string &fn, unsigned w, E a, E b = nullptr, E c = nullptr);
E mkDy(E arg, unsigned scale, unsigned bits);

bool evalExpr(E e, const std::vector<uint64_t> &model, uint64_t &out, bool freshStamp = true); // false if UF involved
uint64_t hostFBin(Op op, unsigned w, uint64_t a, uint64_t b);
std::string exprStr(E e, int depth = 6);

// ---- solver
struct Solver {
  Z3_context ctx; 
  uint64_t queries = 0, cacheHits = 0; double secs = 0, maxSecs = 0;
  std::vector<E> pc;                       // path condition
  std::vector<std::vector<uint64_t>> models; // recent models (of the path condition at some time)
  void init();
  // 1 sat, 0 unsat, -1 unknown.  If sat, model (if non-null) receives full assignment
  int check(const std::vector<E> &cs, std::vector<uint64_t> *model);
  int mayBeTrue(E cond);                   // under pc
  bool addConstraint(E c);
  bool getModel(std::vector<uint64_t> &m); // of the complete pc
  bool uniqueOrValue(E e, uint64_t &v);
  Z3_ast bvz(E e); Z3_ast bz(E e);
};
extern Solver g_solver;
