// symx: symbolic executor for LLVM IR (fork()-per-path exploration, Z3 back end)
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <atomic>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

struct V { uint64_t c; E s; };
static inline V vc(uint64_t c) { return V{c, nullptr}; }

enum ObjKind : uint8_t { K_GLOBAL, K_NEW, K_NEWA, K_MALLOC, K_STACK, K_EXC, K_EXTERN };
struct Obj {
  uint64_t base; uint32_t size; bool alive, ro; ObjKind kind;
  uint8_t *data; E *sym; uint8_t *idx; const char *name; uint8_t tid = 0, shared = 0, mtw = 0;
};
struct Leaf { uint32_t off; uint8_t bits; uint8_t kind; }; // kind 0 int/ptr/fp ; 1 fp80

struct Edge { int target; std::vector<std::array<int, 3>> moves; }; // src,dst,count
struct FInfo;
typedef void (*Handler)(struct I &in, V *args, int n, V *ret);
struct I {
  uint16_t op; uint8_t w, w2; int32_t dst, a, b, c; int32_t n; uint32_t x; uint64_t k;
  const llvm::Instruction *src; FInfo *callee; Handler h;
};
struct FInfo {
  const llvm::Function *F; int nslots = 0, nargslots = 0; bool decoded = false; uint32_t id; bool ext = false; Handler h = nullptr; std::string name;
  std::vector<I> code; std::vector<Edge> edges; std::vector<V> consts; std::vector<int32_t> pool; std::vector<Leaf> leaves;
  std::vector<std::vector<std::pair<uint64_t, int>>> switches;
  std::vector<int> argSlots, argCounts; std::vector<uint64_t> byval; bool seen = false;
};
struct Frame {
  FInfo *f; V *regs; int pc; uint32_t stackMark; int retDst; int retN; std::vector<V> *va; int kind; // kind 1: dtor frame etc
};
struct ExcInfo { uint64_t obj, ti, dtor, adj; int handlers; bool rethrown; };
enum TStat { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE, T_TIMEDCOND };
struct Thread {
  std::vector<Frame> frames; V *stackBase, *stackTop; std::vector<ExcInfo> caught; TStat st = T_RUN; uint64_t waitOn = 0, mutexAfter = 0; uint64_t retval = 0;
  std::map<uint64_t, uint64_t> tsd; bool timedOut = false; int id = 0; bool yielded = false;
};
struct Shared {
  std::atomic<int> active; std::atomic<int> stop; std::atomic<int> procs; std::atomic<int> maxProcs;
  std::atomic<uint64_t> paths, ok, assume, viol, err, known, forks, queries, hits, solverUs, maxqUs, instrs, maxDepth, steps, samples, asserts, assertQueries, symBranches, maxPathUs;
  std::atomic<int> lock; std::atomic<uint64_t> reach[256]; char reachName[256][64]; std::atomic<int> nreach;
  uint8_t cov[1];
};
extern Shared *sh;

// --- state
extern llvm::Module *M; extern const llvm::DataLayout *DL;
extern std::vector<Thread *> threads; extern Thread *cur; 
extern std::vector<Obj *> heapObjs; extern std::vector<Obj *> stackObjs; extern uint32_t stackTopId;
extern std::vector<uint64_t> curModel; extern bool modelOk;
extern int optProcs; extern std::string optOut; extern uint64_t optMaxInstr; extern int optSamples;
extern bool inInit;

static const uint64_t HB = 0x10000, SB = 0x2000000, OBJ_SHIFT = 26, FUNC_BASE = 0x700000000000ull;

[[noreturn]] void finishPath(const char *kind, const std::string &msg);
[[noreturn]] void violation(const std::string &msg);
[[noreturn]] void engineError(const std::string &msg);
bool branch(E c);
bool branchV(V v);
uint64_t concretize(V v, unsigned w, const char *why = "");
void addPC(E c);
int feasible(E c, std::vector<uint64_t> *m);   // under pc

Obj *allocObj(uint64_t size, ObjKind k, const char *name = nullptr);
Obj *allocStack(uint64_t size);
Obj *findObj(uint64_t addr);
void freeObj(Obj *o);
V loadMem(uint64_t addr, unsigned bytes);   // concrete address
void storeMem(uint64_t addr, unsigned bytes, V v);
V loadV(V addr, unsigned bits); void storeV(V addr, unsigned bits, V v);
uint8_t *rawRW(uint64_t addr, uint64_t n, bool write, const char *what); // check bounds, return data pointer (concrete bytes)
void copyMem(uint64_t d, uint64_t s, uint64_t n, bool move);
uint64_t rd64(uint64_t a); uint32_t rd32(uint64_t a); uint8_t rd8c(uint64_t a);
V loadByte(uint64_t a); void storeByte(uint64_t a, V v);
void wr64(uint64_t a, uint64_t v);
std::string readCStr(uint64_t a, bool &symb, size_t max = 4096);
uint64_t funcAddr(const llvm::Function *F); FInfo *funcAt(uint64_t addr); FInfo *infoOf(const llvm::Function *F);
uint64_t globalAddr(const llvm::GlobalValue *g);
void pushCall(FInfo *f, const std::vector<V> &args, int retDst, int retN, int kind = 0);
void setRet(const I &in, V v);
std::string where();
E toE(const V &v, unsigned w);
V fromE(E e);
void throwExc(uint64_t obj, uint64_t ti, uint64_t dtor);
bool typeMatches(uint64_t thrown, uint64_t want, uint64_t obj, uint64_t &adj);
uint64_t dynCast(uint64_t p, uint64_t src, uint64_t dst);
Handler lookupExternal(const std::string &name, const llvm::Function *F);
std::string demangle(const std::string &s);
bool stripMatch(const std::string &dem);
void scheduleAfterBlock(); void maybeSwitch(bool mustYield);
extern std::vector<std::pair<std::string, V>> g_obs; 
struct InputRec { std::string name; std::vector<E> bytes; E e; unsigned w; uint64_t c; int kind; };
extern std::vector<InputRec> g_inputs;
