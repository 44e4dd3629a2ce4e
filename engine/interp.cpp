#include "sx.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <cstring>
#include <chrono>
using namespace llvm; using std::string; using std::vector;

Shared *sh; llvm::Module *M; const DataLayout *DL;
vector<Thread *> threads; Thread *cur;
vector<Obj *> heapObjs, stackObjs; uint32_t stackTopId = 0;
vector<uint64_t> curModel; bool modelOk = true; bool inInit = true;
vector<std::pair<string, V>> g_obs; vector<InputRec> g_inputs;
static std::unordered_map<const Function *, FInfo *> finfos; static vector<FInfo *> funcs;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
void resetClock(); static uint64_t instrCount = 0, stepBase = 0, nBranch = 0, nDepth = 0; static bool ownToken = true; static vector<pid_t> kids;
static auto pathT0 = std::chrono::steady_clock::now();
void resetClock() { pathT0 = std::chrono::steady_clock::now(); instrCount = stepBase = 0; }
extern uint64_t optConcretizeLimit; uint64_t optConcretizeLimit = 300;

// ------------------------------------------------------------------ misc
E toE(const V &v, unsigned w) { return v.s ? v.s : mkConst(w, v.c); }
V fromE(E e) { if (e->op == O_CONST) return V{e->c, nullptr}; return V{0, e}; }
static inline Frame &fr() { return cur->frames.back(); }
string where() {
  string s; int k = 0; for (size_t i = cur->frames.size(); i-- > 0 && k < 14; k++) s += (k ? " <- " : "") + demangle(cur->frames[i].f->name).substr(0, 90); return s;
}
static void esc(string &o, const string &s) { for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); o += b; } else o += c; } }

static void flushStats() {
  sh->queries += g_solver.queries; sh->hits += g_solver.cacheHits; sh->solverUs += (uint64_t)(g_solver.secs * 1e6); g_solver.queries = g_solver.cacheHits = 0; g_solver.secs = 0;
  uint64_t mq = (uint64_t)(g_solver.maxSecs * 1e6); if (mq > sh->maxqUs) sh->maxqUs = mq; sh->instrs += instrCount - stepBase; stepBase = instrCount;
  sh->symBranches += nBranch; nBranch = 0; if (nDepth > sh->maxDepth) sh->maxDepth = nDepth;
}
static void writeRecord(const char *kind, const string &msg, bool withInputs) {
  string o = "{\"kind\":\""; o += kind; o += "\",\"msg\":\""; esc(o, msg); o += "\"";
  if (withInputs) {
    vector<uint64_t> m = curModel; m.resize(g_vars.size(), 0);
    if (!modelOk) { if (g_solver.check(g_solver.pc, &m) != 1) o += ",\"nomodel\":1"; m.resize(g_vars.size(), 0); }
    bool first = true; o += ",\"inputs\":[";
    g_solver.models.clear(); 
    for (auto &in : g_inputs) { o += first ? "" : ","; first = false; o += "[\""; esc(o, in.name); o += "\",";
      if (in.kind == 0) { uint64_t v = in.c; if (in.e) evalExpr(in.e, m, v); char b[40]; snprintf(b, 40, "\"%llu\"", (unsigned long long)v); o += b; }
      else { o += "\"x"; for (E e : in.bytes) { uint64_t v = 0; evalExpr(e, m, v); char b[4]; snprintf(b, 4, "%02x", (unsigned)v & 255); o += b; } o += "\""; }
      o += "]"; }
    o += "],\"obs\":["; first = true;
    for (auto &p : g_obs) { uint64_t v = p.second.c; bool ok = true; if (p.second.s) ok = evalExpr(p.second.s, m, v); o += first ? "" : ","; first = false; o += "[\""; esc(o, p.first); o += "\","; if (ok) { char b[40]; snprintf(b, 40, "\"%llu\"", (unsigned long long)v); o += b; } else o += "null"; o += "]"; }
    o += "]";
  }
  o += "}\n";
  int fd = open(optOut.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); 
  int z = 0; while (!sh->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); }
  size_t k = 0; while (k < o.size()) { ssize_t r = write(fd, o.data() + k, o.size() - k); if (r <= 0) break; k += r; }
  sh->lock = 0; close(fd);
}
[[noreturn]] static void endProcess() {
  flushStats(); fflush(stdout); fflush(stderr);
  if (ownToken) sh->active--;
  for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; if (WIFSIGNALED(st)) { sh->err++; fprintf(stderr, "symx: worker died by signal %d\n", WTERMSIG(st)); } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { sh->err++; fprintf(stderr, "symx: worker exit %d\n", WEXITSTATUS(st)); } }
  sh->procs--; _exit(0);
}
[[noreturn]] void finishPath(const char *kind, const string &msg) {
  sh->paths++;
  uint64_t us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - pathT0).count(); if (us > sh->maxPathUs) sh->maxPathUs = us;
  string k = kind;
  if (k == "ok") { sh->ok++; uint64_t n = sh->ok; // sample exponentially spaced paths for native validation
    if (sh->samples < (uint64_t)optSamples && (n <= 4 || (n & (n - 1)) == 0 || n % 97 == 0)) { sh->samples++; writeRecord("ok", msg, true); } }
  else if (k == "assume") sh->assume++;
  else if (k == "known") { sh->known++; writeRecord("known", msg, true); }
  else if (k == "violation") { uint64_t n = sh->viol++; if (n < 20) writeRecord("violation", msg, true); sh->stop = 1; }
  else if (k == "stopped") {}
  else { uint64_t n = ++sh->err; if (n < 50) writeRecord("error", msg, true); if (n >= 40) sh->stop = 1; }
  endProcess();
}
[[noreturn]] void violation(const string &msg) {
  if (inInit) { fprintf(stderr, "symx: violation during static init: %s at %s\n", msg.c_str(), where().c_str()); finishPath("error", "static-init: " + msg + " @ " + where()); }
  finishPath("violation", msg + " @ " + where()); }
[[noreturn]] void engineError(const string &msg) { fprintf(stderr, "symx: ENGINE ERROR: %s at %s\n", msg.c_str(), where().c_str()); finishPath("error", msg + " @ " + where()); }

// ------------------------------------------------------------------ path condition & forking
static vector<E> slice(E c) {
  vector<E> out; auto &pc = g_solver.pc; vector<char> in(pc.size(), 0); std::set<uint32_t> vs(c->vars->begin(), c->vars->end()); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { bool hit = false; for (auto v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; } 
        if (!hit && pc[i]->hasUF && c->hasUF) hit = true;
        if (hit) { in[i] = 1; out.push_back(pc[i]); for (auto v : *pc[i]->vars) if (vs.insert(v).second) ch = true; } } }
  return out;
}
static void mergeModel(const vector<E> &cs, const vector<uint64_t> &m) {
  curModel.resize(g_vars.size(), 0); std::set<uint32_t> vs; for (E c : cs) vs.insert(c->vars->begin(), c->vars->end());
  for (auto v : vs) if (v < m.size()) curModel[v] = m[v];
}
int feasible(E c, vector<uint64_t> *m) {
  if (c->op == O_CONST) return c->c; uint64_t v;
  if (modelOk && evalExpr(c, curModel, v) && v) { if (m) *m = curModel; return 1; }
  vector<E> cs = slice(c); cs.push_back(c); vector<uint64_t> mm; int r = g_solver.check(cs, &mm);
  if (r == 1 && m) { auto save = curModel; mergeModel(cs, mm); *m = curModel; curModel = save; }
  return r;
}
static void substRegs(E e, uint64_t val) { // e == const now known: replace in registers of live frames
  for (Frame &f : cur->frames) for (int i = 0; i < f.f->nslots; i++) if (f.regs[i].s == e) { f.regs[i].s = nullptr; f.regs[i].c = val; }
}
void addPC(E c) {
  if (c->op == O_CONST) { if (!c->c) engineError("adding false constraint"); return; }
  if (c->op == O_AND && c->width == 1) { addPC(c->a[0]); addPC(c->a[1]); return; }
  g_solver.pc.push_back(c);
  if (c->op == O_EQ && c->a[0]->op != O_CONST && c->a[1]->op == O_CONST) substRegs(c->a[0], c->a[1]->c);
  substRegs(c, 1); E n = mkNot(c); substRegs(n, 0);
}
static pid_t forkWorker(bool &isChild, bool &async) {
  fflush(stdout); fflush(stderr); flushStats();
  for (;;) { int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p <= 0) break; if (WIFSIGNALED(st)) { sh->err++; sh->stop = 1; } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { sh->err++; } }
  int a = sh->active; async = false; while (a < optProcs) { if (sh->active.compare_exchange_weak(a, a + 1)) { async = true; break; } }
  sh->forks++; int np = ++sh->procs; if (np > sh->maxProcs) sh->maxProcs = np;
  pid_t p = fork(); int tries = 0; while (p < 0 && tries++ < 50) { usleep(100000); p = fork(); }
  if (p < 0) engineError("fork failed");
  isChild = p == 0; if (isChild) { ownToken = async ? true : ownToken; pathT0 = std::chrono::steady_clock::now(); }
  return p;
}
// sync fork: child inherits our token; we must not hold it meanwhile; afterwards we own it again
static void waitChild(pid_t p) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { sh->err++; sh->stop = 1; fprintf(stderr, "symx: worker died by signal %d\n", WTERMSIG(st)); } else if (WIFEXITED(st) && WEXITSTATUS(st)) { sh->err++; sh->stop = 1; fprintf(stderr, "symx: worker exit %d\n", WEXITSTATUS(st)); } }

bool branch(E c) {
  if (c->op == O_CONST) return c->c;
  if (sh->stop) finishPath("stopped", "");
  uint64_t v; E nc = mkNot(c); nBranch++;
  bool pos, neg; vector<uint64_t> mp, mn; int r;
  if (modelOk && evalExpr(c, curModel, v)) {
    if (v) { pos = true; mp = curModel; r = feasible(nc, &mn); if (r < 0) engineError("solver unknown"); neg = r; }
    else { neg = true; mn = curModel; r = feasible(c, &mp); if (r < 0) engineError("solver unknown"); pos = r; }
  } else {
    r = feasible(c, &mp); if (r < 0) engineError("solver unknown"); pos = r; if (!pos) { neg = true; mn = curModel; } else { r = feasible(nc, &mn); if (r < 0) engineError("solver unknown"); neg = r; }
  }
  if (pos && !neg) { substRegs(c, 1); return true; } if (neg && !pos) { substRegs(c, 0); return false; }
  if (inInit) engineError("symbolic branch in static init");
  bool child, async; nDepth++; pid_t p = forkWorker(child, async);
  if (child) { curModel = mp; addPC(c); return true; }
  if (!async) { bool saved = ownToken; ownToken = false; waitChild(p); 
    // the child released our token when it ended: re-acquire (child decremented only if it owned)
    ownToken = saved; if (saved) sh->active++; if (sh->stop) finishPath("stopped", ""); }
  curModel = mn; addPC(nc); return false;
}
bool branchV(V v) { return v.s ? branch(v.s) : v.c & 1; }
uint64_t concretize(V v, unsigned w, const char *why) {
  if (!v.s) return v.c; E e = v.s; uint64_t n = 0;
  for (;;) {
    uint64_t k; if (!(modelOk && evalExpr(e, curModel, k))) { // UF: ask solver
      Z3_solver s = Z3_mk_simple_solver(g_solver.ctx); Z3_solver_inc_ref(g_solver.ctx, s); for (E c : slice(e)) Z3_solver_assert(g_solver.ctx, s, g_solver.bz(c));
      if (Z3_solver_check(g_solver.ctx, s) != Z3_L_TRUE) engineError("concretize: unknown"); Z3_model m = Z3_solver_get_model(g_solver.ctx, s); Z3_ast o; if (!Z3_model_eval(g_solver.ctx, m, g_solver.bvz(e), true, &o) || !Z3_get_numeral_uint64(g_solver.ctx, o, &k)) engineError("concretize: eval"); }
    if (branch(mkEq(e, mkConst(e->width, k)))) return k;
    if (++n > optConcretizeLimit) engineError(string("concretization limit exceeded ") + why + " " + exprStr(e));
  }
}

// ------------------------------------------------------------------ memory
static Obj *newObj(uint64_t base, uint64_t size, ObjKind k) {
  Obj *o = new Obj; o->base = base; o->size = size; o->alive = true; o->ro = false; o->kind = k; o->data = (uint8_t *)malloc(size ? size : 1); o->sym = nullptr; o->idx = nullptr; o->name = nullptr; o->tid = cur ? cur->id : 0;
  memset(o->data, (k == K_GLOBAL || k == K_EXTERN) ? 0 : 0xCD, size); return o;
}
Obj *allocObj(uint64_t size, ObjKind k, const char *name) {
  if (size >= (1ull << OBJ_SHIFT)) engineError("allocation too large: " + std::to_string(size));
  Obj *o = newObj((HB + heapObjs.size()) << OBJ_SHIFT, size, k); o->name = name; heapObjs.push_back(o); if (HB + heapObjs.size() >= SB) engineError("too many objects"); return o;
}
Obj *allocStack(uint64_t size) {
  if (size >= (1ull << OBJ_SHIFT)) engineError("alloca too large");
  // thread stacks share one LIFO id space per thread: id = thread*2^20 + depth handled by caller via stackTopId
  uint32_t id = stackTopId++; if (id < stackObjs.size() && stackObjs[id]) { Obj *o = stackObjs[id]; free(o->data); free(o->sym); free(o->idx); o->sym = nullptr; o->idx = nullptr; o->size = size; o->alive = true; o->data = (uint8_t *)malloc(size ? size : 1); memset(o->data, 0xCD, size); o->tid = cur ? cur->id : 0; o->shared = o->mtw = 0; return o; }
  if (stackObjs.size() <= id) stackObjs.resize(id + 64, nullptr);
  return stackObjs[id] = newObj((SB + id) << OBJ_SHIFT, size, K_STACK);
}
Obj *findObj(uint64_t a) {
  uint64_t id = a >> OBJ_SHIFT; if (id >= HB && id - HB < heapObjs.size()) return heapObjs[id - HB];
  if (id >= SB && id - SB < stackObjs.size()) return stackObjs[id - SB]; return nullptr;
}
void freeObj(Obj *o) { o->alive = false; free(o->data); free(o->sym); free(o->idx); o->data = nullptr; o->sym = nullptr; o->idx = nullptr; }
static string addrDesc(uint64_t a, uint64_t n) {
  char b[200]; Obj *o = findObj(a);
  if (a < 4096) snprintf(b, 200, "null pointer access (0x%llx, %llu bytes)", (unsigned long long)a, (unsigned long long)n);
  else if (!o) snprintf(b, 200, "access to unmapped address 0x%llx (%llu bytes)", (unsigned long long)a, (unsigned long long)n);
  else if (!o->alive) snprintf(b, 200, "use after free (offset %lld of %u-byte object)", (long long)(a - o->base), o->size);
  else snprintf(b, 200, "out-of-bounds access (offset %lld, %llu bytes, object of %u bytes kind %d)", (long long)(a - o->base), (unsigned long long)n, o->size, o->kind);
  return b;
}
static inline Obj *chk(uint64_t a, uint64_t n, bool wr) {
  Obj *o = findObj(a); if (!o || !o->alive || (a - o->base) + n > o->size || (a - o->base) > o->size) { if (n == 0) return nullptr; violation(string("memory error: ") + (wr ? "write: " : "read: ") + addrDesc(a, n)); }
  if (wr && o->ro) violation("memory error: write to constant object"); return o;
}
uint8_t *rawRW(uint64_t a, uint64_t n, bool wr, const char *) { Obj *o = chk(a, n, wr); return o ? o->data + (a - o->base) : nullptr; }
static void ensureSym(Obj *o) { if (!o->sym) { o->sym = (E *)calloc(o->size ? o->size : 1, sizeof(E)); o->idx = (uint8_t *)calloc(o->size ? o->size : 1, 1); } }
V loadMem(uint64_t a, unsigned n) {
  Obj *o = chk(a, n, false); uint64_t off = a - o->base;
  if (o->sym) {
    E *s = o->sym + off; uint8_t *ix = o->idx + off; bool any = false; for (unsigned i = 0; i < n; i++) if (s[i]) { any = true; break; }
    if (any) {
      bool whole = s[0] && s[0]->width == 8 * n && ix[0] == 0; for (unsigned i = 0; whole && i < n; i++) if (s[i] != s[0] || ix[i] != i) whole = false;
      if (whole) return V{0, s[0]};
      E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = s[i] ? (s[i]->width <= 8 ? s[i] : mkExtract(s[i], ix[i] * 8, 8)) : mkConst(8, o->data[off + i]); if (b->width < 8) b = mkZExt(b, 8); r = r ? mkConcat(b, r) : b; }
      return fromE(r);
    }
  }
  uint64_t v = 0; memcpy(&v, o->data + off, n); return vc(v);
}
static void storeObj(Obj *o, uint64_t off, unsigned n, V v) {
  if (v.s) { ensureSym(o); E e = v.s; if (e->width < 8 * n) e = mkZExt(e, 8 * n); for (unsigned i = 0; i < n; i++) { o->sym[off + i] = e; o->idx[off + i] = i; } }
  else { memcpy(o->data + off, &v.c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(E)); }
}
void storeMem(uint64_t a, unsigned n, V v) { Obj *o = chk(a, n, true); storeObj(o, a - o->base, n, v); }
V loadByte(uint64_t a) { return loadMem(a, 1); }
void storeByte(uint64_t a, V v) { storeMem(a, 1, v); }
uint64_t rd64(uint64_t a) { V v = loadMem(a, 8); return v.s ? concretize(v, 64, "rd64") : v.c; }
uint32_t rd32(uint64_t a) { V v = loadMem(a, 4); return v.s ? concretize(v, 32, "rd32") : v.c; }
uint8_t rd8c(uint64_t a) { V v = loadMem(a, 1); return v.s ? concretize(v, 8, "rd8") : v.c; }
void wr64(uint64_t a, uint64_t v) { storeMem(a, 8, vc(v)); }
void copyMem(uint64_t d, uint64_t s, uint64_t n, bool) {
  if (!n) return; Obj *so = chk(s, n, false), *dd = chk(d, n, true); uint64_t a = s - so->base, b = d - dd->base;
  memmove(dd->data + b, so->data + a, n);
  if (so->sym) { bool any = dd->sym; if (!any) for (uint64_t i = 0; i < n; i++) if (so->sym[a + i]) { any = true; break; } if (any) { ensureSym(dd); memmove(dd->sym + b, so->sym + a, n * sizeof(E)); memmove(dd->idx + b, so->idx + a, n); } }
  else if (dd->sym) memset(dd->sym + b, 0, n * sizeof(E));
}
string readCStr(uint64_t a, bool &symb, size_t max) {
  string r; symb = false; for (size_t i = 0; i < max; i++) { V v = loadMem(a + i, 1); if (v.s) { symb = true; r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r;
}
static unsigned lowZeros(E e) {
  switch (e->op) { case O_CONST: return e->c ? std::min<unsigned>(e->width, __builtin_ctzll(e->c)) : e->width; case O_MUL: return std::min<unsigned>(e->width, lowZeros(e->a[0]) + lowZeros(e->a[1]));
    case O_ADD: case O_OR: case O_XOR: return std::min(lowZeros(e->a[0]), lowZeros(e->a[1])); case O_CONCAT: { unsigned l = lowZeros(e->a[1]); return l < e->a[1]->width ? l : l + lowZeros(e->a[0]); }
    case O_ZEXT: case O_SEXT: return std::min<unsigned>(lowZeros(e->a[0]), e->a[0]->width); case O_ITE: return std::min(lowZeros(e->a[1]), lowZeros(e->a[2])); default: return 0; }
}
// resolve symbolic address to one object (forking if several), in-bounds added to the path
static Obj *resolve(E ae, unsigned n, bool wr) {
  for (;;) {
    uint64_t va; if (!evalExpr(ae, curModel, va)) { va = concretize(V{0, ae}, 64, "UF address"); }
    Obj *o = findObj(va); bool valid = o && o->alive && va - o->base + n <= o->size && !(wr && o->ro);
    if (!valid) { violation(string("memory error (symbolic address): ") + (wr ? "write: " : "read: ") + addrDesc(va, n)); }
    E inb = mkCmp(O_ULE, mkSub(ae, mkConst(64, o->base)), mkConst(64, o->size - n)); vector<uint64_t> m;
    if (inb->op == O_CONST) return o;
    int r = feasible(mkNot(inb), &m); if (r < 0) engineError("solver unknown (address)");
    if (r == 0) return o;
    if (branch(inb)) return o; // other side loops: re-resolve with its model
  }
}
V loadV(V addr, unsigned bits) {
  unsigned n = (bits + 7) / 8; V r;
  if (!addr.s) { r = loadMem(addr.c, n); }
  else {
    E ae = addr.s; Obj *o = resolve(ae, n, false); E off = mkSub(ae, mkConst(64, o->base));
    uint64_t v; // unique?
    evalExpr(off, curModel, v); int q = feasible(mkNot(mkEq(off, mkConst(64, v))), nullptr);
    if (q == 0) r = loadMem(o->base + v, n);
    else {
      unsigned z = std::min(lowZeros(off), 6u); uint64_t stride = 1ull << z, lo = off->umin, hi = std::min<uint64_t>(off->umax, o->size - n); uint64_t cnt = (hi - lo) / stride + 1;
      if (cnt > 600) { uint64_t k = concretize(V{0, off}, 64, "load offset"); r = loadMem(o->base + k, n); }
      else { lo = (lo + stride - 1) / stride * stride; E acc = nullptr; for (uint64_t k = lo; k <= hi; k += stride) { E x = toE(loadMem(o->base + k, n), 8 * n); acc = acc ? mkIte(mkEq(off, mkConst(64, k)), x, acc) : x; } r = fromE(acc); }
    }
  }
  if (bits < 8 * n) { if (r.s) r = fromE(mkExtract(r.s, 0, bits)); else r.c &= maskw(bits); }
  return r;
}
void storeV(V addr, unsigned bits, V v) {
  unsigned n = (bits + 7) / 8; if (!addr.s) { storeMem(addr.c, n, v); return; }
  E ae = addr.s; Obj *o = resolve(ae, n, true); E off = mkSub(ae, mkConst(64, o->base)); uint64_t k0; evalExpr(off, curModel, k0);
  if (feasible(mkNot(mkEq(off, mkConst(64, k0))), nullptr) == 0) { storeObj(o, k0, n, v); return; }
  unsigned z = std::min(lowZeros(off), 6u); uint64_t stride = 1ull << z, lo = off->umin, hi = std::min<uint64_t>(off->umax, o->size - n); lo = (lo + stride - 1) / stride * stride; uint64_t cnt = (hi - lo) / stride + 1;
  if (cnt > 128 || (stride < n)) { uint64_t k = concretize(V{0, off}, 64, "store offset"); storeObj(o, k, n, v); return; }
  E ve = toE(v, 8 * n); if (ve->width < 8 * n) ve = mkZExt(ve, 8 * n);
  for (uint64_t k = lo; k <= hi; k += stride) { E old = toE(loadMem(o->base + k, n), 8 * n); storeObj(o, k, n, fromE(mkIte(mkEq(off, mkConst(64, k)), ve, old))); }
}

// ------------------------------------------------------------------ globals & functions
FInfo *infoOf(const Function *F) {
  auto it = finfos.find(F); if (it != finfos.end()) return it->second;
  FInfo *f = new FInfo; f->F = F; f->name = F->getName().str(); f->id = funcs.size(); funcs.push_back(f); finfos[F] = f; f->ext = F->isDeclaration();
  if (f->ext) f->h = lookupExternal(f->name, F);
  else { // engine-provided overrides
    static std::set<string> ov = {"malloc", "free", "memcpy"}; if (ov.count(f->name)) { f->ext = true; f->h = lookupExternal(f->name, F); } }
  return f;
}
uint64_t funcAddr(const Function *F) { return FUNC_BASE + 16 * (uint64_t)infoOf(F)->id; }
FInfo *funcAt(uint64_t a) { if (a < FUNC_BASE || (a & 15)) return nullptr; uint64_t i = (a - FUNC_BASE) / 16; return i < funcs.size() ? funcs[i] : nullptr; }
uint64_t globalAddr(const GlobalValue *g) {
  if (auto *F = dyn_cast<Function>(g)) return funcAddr(F);
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto *A = dyn_cast<GlobalAlias>(g)) { // aliasee may be expr
    extern uint64_t constVal(const Constant *); return gaddr[g] = constVal(A->getAliasee()); }
  auto *GV = cast<GlobalVariable>(g); Type *T = GV->getValueType(); uint64_t sz = T->isSized() ? DL->getTypeAllocSize(T) : 0; bool ext = GV->isDeclaration(); if (ext && sz < 512) sz = 512;
  Obj *o = allocObj(sz, ext ? K_EXTERN : K_GLOBAL, strdup(g->getName().str().c_str())); return gaddr[g] = o->base;
}
uint64_t constVal(const Constant *C) {
  if (auto *c = dyn_cast<ConstantInt>(C)) { if (c->getBitWidth() > 64) return c->getValue().getLoBits(64).trunc(64).getZExtValue(); return c->getZExtValue(); }
  if (auto *c = dyn_cast<ConstantFP>(C)) { APInt b = c->getValueAPF().bitcastToAPInt(); return b.getBitWidth() > 64 ? b.trunc(64).getZExtValue() : b.getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto *g = dyn_cast<GlobalValue>(C)) return globalAddr(g);
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getPrimitiveSizeInBits(); uint64_t m = maskw(w ? w : 64);
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *gep = cast<GEPOperator>(ce); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep?\n"); _exit(71); } return constVal(ce->getOperand(0)) + off.getZExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: return constVal(ce->getOperand(0)) & m;
    case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & m;
    case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & m;
    case Instruction::Mul: return (constVal(ce->getOperand(0)) * constVal(ce->getOperand(1))) & m;
    case Instruction::And: return constVal(ce->getOperand(0)) & constVal(ce->getOperand(1)); case Instruction::Or: return constVal(ce->getOperand(0)) | constVal(ce->getOperand(1)); case Instruction::Xor: return constVal(ce->getOperand(0)) ^ constVal(ce->getOperand(1));
    case Instruction::Shl: return (constVal(ce->getOperand(0)) << constVal(ce->getOperand(1))) & m; case Instruction::LShr: return constVal(ce->getOperand(0)) >> constVal(ce->getOperand(1));
    case Instruction::ZExt: return constVal(ce->getOperand(0));
    case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: return 0; } }
    default: fprintf(stderr, "unsupported constexpr %s\n", ce->getOpcodeName()); _exit(71);
    }
  }
  if (auto *d = dyn_cast<DSOLocalEquivalent>(C)) return globalAddr(d->getGlobalValue());
  fprintf(stderr, "unsupported constant: "); C->print(errs()); fprintf(stderr, "\n"); _exit(71);
}
static void writeInit(uint8_t *p, const Constant *C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; Type *T = C->getType();
  if (auto *d = dyn_cast<ConstantDataSequential>(C)) { unsigned es = d->getElementByteSize(); StringRef raw = d->getRawDataValues(); memcpy(p, raw.data(), raw.size()); (void)es; return; }
  if (auto *s = dyn_cast<ConstantStruct>(C)) { const StructLayout *SL = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) writeInit(p + SL->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) writeInit(p + i * es, a->getOperand(i)); return; }
  if (auto *v = dyn_cast<ConstantVector>(C)) { uint64_t es = DL->getTypeAllocSize(v->getType()->getElementType()); for (unsigned i = 0; i < v->getNumOperands(); i++) writeInit(p + i * es, v->getOperand(i)); return; }
  if (T->isX86_FP80Ty()) { APInt b = cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt(); memcpy(p, b.getRawData(), 10); return; }
  if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) { memcpy(p, cast<ConstantInt>(C)->getValue().getRawData(), DL->getTypeStoreSize(T)); return; }
  uint64_t v = constVal(C); memcpy(p, &v, DL->getTypeStoreSize(T));
}
void initGlobals() {
  for (auto &F : *M) infoOf(&F);
  for (auto &G : M->globals()) globalAddr(&G);
  for (auto &G : M->globals()) if (G.hasInitializer()) { Obj *o = findObj(gaddr[&G]); writeInit(o->data, G.getInitializer()); if (G.isConstant()) o->ro = true; }
}

// ------------------------------------------------------------------ decode
static int slotsOf(Type *T) {
  if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return 0;
  if (T->isIntegerTy()) return (T->getIntegerBitWidth() + 63) / 64; if (T->isX86_FP80Ty()) return 2;
  if (T->isPointerTy() || T->isFloatTy() || T->isDoubleTy()) return 1;
  if (auto *S = dyn_cast<StructType>(T)) { int n = 0; for (auto *e : S->elements()) n += slotsOf(e); return n; }
  if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * slotsOf(A->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(T)) return v->getNumElements() * slotsOf(v->getElementType());
  fprintf(stderr, "type? "); T->print(errs()); _exit(71);
}
static unsigned widthOf(Type *T) { if (T->isPointerTy()) return 64; if (T->isX86_FP80Ty()) return 80; return T->getScalarSizeInBits(); }
static void leavesOf(Type *T, uint64_t off, vector<Leaf> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) leavesOf(S->getElementType(i), off + SL->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < A->getNumElements(); i++) leavesOf(A->getElementType(), off + i * DL->getTypeAllocSize(A->getElementType()), out); return; }
  if (auto *v = dyn_cast<FixedVectorType>(T)) { for (unsigned i = 0; i < v->getNumElements(); i++) leavesOf(v->getElementType(), off + i * DL->getTypeAllocSize(v->getElementType()), out); return; }
  if (T->isX86_FP80Ty()) { out.push_back({(uint32_t)off, 64, 0}); out.push_back({(uint32_t)off + 8, 16, 0}); return; }
  unsigned w = T->isPointerTy() ? 64 : (unsigned)T->getPrimitiveSizeInBits();
  if (w > 64) { for (unsigned k = 0; k < w; k += 64) out.push_back({(uint32_t)(off + k / 8), (uint8_t)std::min(64u, w - k), 0}); return; }
  out.push_back({(uint32_t)off, (uint8_t)w, 0});
}
static void constFlat(const Constant *C, vector<V> &out) {
  Type *T = C->getType(); int n = slotsOf(T); if (n == 0) return;
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (int i = 0; i < n; i++) out.push_back(vc(0)); return; }
  if (T->isIntegerTy() && n == 2) { const APInt &v = cast<ConstantInt>(C)->getValue(); out.push_back(vc(v.getRawData()[0])); out.push_back(vc(v.getNumWords() > 1 ? v.getRawData()[1] : 0)); return; }
  if (T->isX86_FP80Ty()) { APInt b = cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt(); out.push_back(vc(b.getRawData()[0])); out.push_back(vc(b.getRawData()[1])); return; }
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) { unsigned k = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); for (unsigned i = 0; i < k; i++) constFlat(C->getAggregateElement(i), out); return; }
  out.push_back(vc(constVal(C)));
}
enum XOp : uint16_t { X_NOP = 200, X_BIN, X_BINC, X_ICMP, X_FCMP, X_CAST, X_COPY, X_SELECT, X_LOAD, X_STORE, X_LOADA, X_STOREA, X_GEP, X_ALLOCA, X_BR, X_CONDBR, X_SWITCH, X_CALL, X_RET, X_UNREACH, X_LPAD, X_RESUME, X_FBIN, X_FNEG, X_CMPXCHG, X_RMW, X_EXTEL, X_INSEL, X_SHUF, X_CASTI128, X_BIN128, X_ICMP128, X_GEP1 };

struct Decoder {
  FInfo &f; const Function &F; std::unordered_map<const Value *, int> slot; std::unordered_map<const Constant *, int> cslot; std::unordered_map<const BasicBlock *, int> pcOf;
  Decoder(FInfo &f) : f(f), F(*f.F) {}
  int opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cslot.find(c); if (it != cslot.end()) return it->second; int k = f.consts.size(); constFlat(c, f.consts); return cslot[c] = -k - 1; }
    auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0; fprintf(stderr, "no slot in %s: ", f.name.c_str()); v->print(errs()); _exit(71); } return it->second;
  }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = -1; for (auto &phi : to->phis()) { int n = slotsOf(phi.getType()); e.moves.push_back({opnd(phi.getIncomingValueForBlock(from)), slot[&phi], n}); }
    f.edges.push_back(e); edgeBB.push_back(to); return f.edges.size() - 1;
  }
  vector<const BasicBlock *> edgeBB;
  void run() {
    int n = 0; for (auto &a : F.args()) { slot[&a] = n; f.argSlots.push_back(n); int k = slotsOf(a.getType()); f.argCounts.push_back(k); f.byval.push_back(a.hasByValAttr() ? (uint64_t)DL->getTypeAllocSize(a.getParamByValType()) : 0); n += k; }
    f.nargslots = n; for (auto &B : F) for (auto &In : B) { int k = slotsOf(In.getType()); if (k) { slot[&In] = n; n += k; } } f.nslots = n;
    for (auto &B : F) { pcOf[&B] = f.code.size(); for (auto &In : B) if (!isa<PHINode>(In)) ins(In); }
    for (size_t i = 0; i < f.edges.size(); i++) f.edges[i].target = pcOf[edgeBB[i]];
  }
  void ins(const Instruction &In) {
    I o; memset(&o, 0, sizeof o); o.src = &In; o.dst = slot.count(&In) ? slot[&In] : -1; Type *T = In.getType(); o.n = 1;
    unsigned opc = In.getOpcode();
    auto vecN = [&](Type *t) { return t->isVectorTy() ? (int)cast<FixedVectorType>(t)->getNumElements() : 1; };
    if (auto *b = dyn_cast<BinaryOperator>(&In)) {
      o.a = opnd(b->getOperand(0)); o.b = opnd(b->getOperand(1)); o.w = widthOf(T->getScalarType()); o.n = vecN(T); o.x = opc;
      if (T->getScalarType()->isFloatingPointTy()) o.op = X_FBIN; else if (o.w > 64) { o.op = X_BIN128; } else o.op = X_BIN;
    } else if (auto *u = dyn_cast<UnaryOperator>(&In)) { o.op = X_FNEG; o.a = opnd(u->getOperand(0)); o.w = widthOf(T->getScalarType()); o.n = vecN(T); }
    else if (auto *c = dyn_cast<ICmpInst>(&In)) { Type *t = c->getOperand(0)->getType(); o.op = X_ICMP; o.a = opnd(c->getOperand(0)); o.b = opnd(c->getOperand(1)); o.w = widthOf(t->getScalarType()); o.n = vecN(t); o.x = c->getPredicate(); if (o.w > 64) o.op = X_ICMP128; }
    else if (auto *c = dyn_cast<FCmpInst>(&In)) { Type *t = c->getOperand(0)->getType(); o.op = X_FCMP; o.a = opnd(c->getOperand(0)); o.b = opnd(c->getOperand(1)); o.w = widthOf(t->getScalarType()); o.n = vecN(t); o.x = c->getPredicate(); }
    else if (auto *c = dyn_cast<CastInst>(&In)) {
      Type *st = c->getOperand(0)->getType(); o.a = opnd(c->getOperand(0)); o.w = widthOf(st->getScalarType()); o.w2 = widthOf(T->getScalarType()); o.n = vecN(T); o.x = opc; o.op = X_CAST; 
      if (opc == Instruction::BitCast && (st->isVectorTy() || T->isVectorTy()) && (vecN(st) != vecN(T))) { o.op = X_CASTI128; o.x = 1000; o.n = vecN(st); o.c = vecN(T); }
      else if (o.w > 64 || o.w2 > 64) o.op = X_CASTI128;
    } else if (isa<FreezeInst>(In)) { o.op = X_COPY; o.a = opnd(In.getOperand(0)); o.n = slotsOf(T); }
    else if (auto *s = dyn_cast<SelectInst>(&In)) { o.op = X_SELECT; o.a = opnd(s->getCondition()); o.b = opnd(s->getTrueValue()); o.c = opnd(s->getFalseValue()); o.n = slotsOf(T); o.x = s->getCondition()->getType()->isVectorTy(); vector<Leaf> L; leavesOf(T, 0, L); o.k = f.leaves.size(); for (auto &l : L) f.leaves.push_back(l); }
    else if (auto *l = dyn_cast<LoadInst>(&In)) { o.a = opnd(l->getPointerOperand()); vector<Leaf> L; leavesOf(T, 0, L); if (L.size() == 1) { o.op = X_LOAD; o.w = L[0].bits; } else { o.op = X_LOADA; o.k = f.leaves.size(); o.n = L.size(); for (auto &x : L) f.leaves.push_back(x); } }
    else if (auto *s = dyn_cast<StoreInst>(&In)) { o.a = opnd(s->getPointerOperand()); o.b = opnd(s->getValueOperand()); vector<Leaf> L; leavesOf(s->getValueOperand()->getType(), 0, L); if (L.size() == 1) { o.op = X_STORE; o.w = L[0].bits; } else { o.op = X_STOREA; o.k = f.leaves.size(); o.n = L.size(); for (auto &x : L) f.leaves.push_back(x); } }
    else if (auto *g = dyn_cast<GetElementPtrInst>(&In)) {
      o.op = X_GEP; o.a = opnd(g->getPointerOperand()); uint64_t off = 0; o.b = f.pool.size(); int cnt = 0;
      if (T->isVectorTy()) { fprintf(stderr, "vector gep\n"); _exit(71); }
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *ix = it.getOperand(); if (auto *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
        else { uint64_t es = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += es * (uint64_t)ci->getSExtValue(); else { f.pool.push_back(opnd(ix)); f.pool.push_back((int32_t)widthOf(ix->getType())); f.pool.push_back((int32_t)(uint32_t)es); cnt++; } } }
      o.k = off; o.c = cnt; }
    else if (auto *a = dyn_cast<AllocaInst>(&In)) { o.op = X_ALLOCA; o.k = DL->getTypeAllocSize(a->getAllocatedType()); o.a = opnd(a->getArraySize()); o.w = widthOf(a->getArraySize()->getType()); }
    else if (auto *b = dyn_cast<BranchInst>(&In)) { if (b->isConditional()) { o.op = X_CONDBR; o.a = opnd(b->getCondition()); o.b = edge(In.getParent(), b->getSuccessor(0)); o.c = edge(In.getParent(), b->getSuccessor(1)); } else { o.op = X_BR; o.b = edge(In.getParent(), b->getSuccessor(0)); } }
    else if (auto *s = dyn_cast<SwitchInst>(&In)) { o.op = X_SWITCH; o.a = opnd(s->getCondition()); o.w = widthOf(s->getCondition()->getType()); o.b = edge(In.getParent(), s->getDefaultDest()); o.c = f.switches.size(); vector<std::pair<uint64_t, int>> cs; for (auto &c : s->cases()) cs.push_back({c.getCaseValue()->getZExtValue(), edge(In.getParent(), c.getCaseSuccessor())}); f.switches.push_back(cs); }
    else if (auto *c = dyn_cast<CallBase>(&In)) {
      if (auto *ii = dyn_cast<IntrinsicInst>(&In)) switch (ii->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: 
          if (auto *iv = dyn_cast<InvokeInst>(c)) { o.op = X_BR; o.b = edge(In.getParent(), iv->getNormalDest()); f.code.push_back(o); } return; default: break; }
      if (auto *as = dyn_cast<InlineAsm>(c->getCalledOperand())) if (T->isVoidTy() && (as->getAsmString().empty() || as->getAsmString().find("rdtsc") == 0)) { // barriers and the cycle counter of LOFAR::NSTimer: no effect on anything but timings
        if (auto *iv = dyn_cast<InvokeInst>(c)) { o.op = X_BR; o.b = edge(In.getParent(), iv->getNormalDest()); f.code.push_back(o); } return; }
      o.op = X_CALL; o.n = slotsOf(T); o.b = f.pool.size(); o.c = c->arg_size(); o.w = o.n == 1 ? widthOf(T) : 0;
      for (unsigned i = 0; i < c->arg_size(); i++) { f.pool.push_back(opnd(c->getArgOperand(i))); Type *t = c->getArgOperand(i)->getType(); f.pool.push_back(slotsOf(t)); f.pool.push_back(t->isMetadataTy() ? 0 : (int)widthOf(t)); }
      if (auto *fn = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) { o.callee = infoOf(fn); o.h = o.callee->h; } else { o.callee = nullptr; o.a = opnd(c->getCalledOperand()); }
      if (auto *iv = dyn_cast<InvokeInst>(c)) { o.x = 1; o.k = edge(In.getParent(), iv->getNormalDest()); o.k |= (uint64_t)edge(In.getParent(), iv->getUnwindDest()) << 32; }
    }
    else if (auto *r = dyn_cast<ReturnInst>(&In)) { o.op = X_RET; if (r->getReturnValue()) { o.a = opnd(r->getReturnValue()); o.n = slotsOf(r->getReturnValue()->getType()); } else o.n = 0; }
    else if (isa<UnreachableInst>(In)) o.op = X_UNREACH;
    else if (isa<LandingPadInst>(In)) o.op = X_NOP;
    else if (auto *r = dyn_cast<ResumeInst>(&In)) { o.op = X_RESUME; o.a = opnd(r->getValue()); }
    else if (auto *e = dyn_cast<ExtractValueInst>(&In)) { Type *t = e->getAggregateOperand()->getType(); int off = 0; for (unsigned ix : e->indices()) { if (auto *S = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += slotsOf(S->getElementType(k)); t = S->getElementType(ix); } else { auto *A = cast<ArrayType>(t); off += ix * slotsOf(A->getElementType()); t = A->getElementType(); } }
      int base = opnd(e->getAggregateOperand()); o.op = X_COPY; o.a = base >= 0 ? base + off : base - off; o.n = slotsOf(T); }
    else if (auto *e = dyn_cast<InsertValueInst>(&In)) { Type *t = T; int off = 0; for (unsigned ix : e->indices()) { if (auto *S = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += slotsOf(S->getElementType(k)); t = S->getElementType(ix); } else { auto *A = cast<ArrayType>(t); off += ix * slotsOf(A->getElementType()); t = A->getElementType(); } }
      I p = o; p.op = X_COPY; p.a = opnd(e->getAggregateOperand()); p.n = slotsOf(T); f.code.push_back(p); o.op = X_COPY; o.dst += off; o.a = opnd(e->getInsertedValueOperand()); o.n = slotsOf(e->getInsertedValueOperand()->getType()); }
    else if (auto *e = dyn_cast<ExtractElementInst>(&In)) { o.op = X_EXTEL; o.a = opnd(e->getVectorOperand()); o.b = opnd(e->getIndexOperand()); o.n = vecN(e->getVectorOperand()->getType()); }
    else if (isa<InsertElementInst>(In)) { o.op = X_INSEL; o.a = opnd(In.getOperand(0)); o.b = opnd(In.getOperand(1)); o.c = opnd(In.getOperand(2)); o.n = vecN(T); }
    else if (auto *s = dyn_cast<ShuffleVectorInst>(&In)) { o.op = X_SHUF; o.a = opnd(s->getOperand(0)); o.b = opnd(s->getOperand(1)); o.n = vecN(T); o.x = vecN(s->getOperand(0)->getType()); o.c = f.pool.size(); for (int m : s->getShuffleMask()) f.pool.push_back(m); }
    else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&In)) { o.op = X_CMPXCHG; o.a = opnd(x->getPointerOperand()); o.b = opnd(x->getCompareOperand()); o.c = opnd(x->getNewValOperand()); o.w = widthOf(x->getCompareOperand()->getType()); }
    else if (auto *x = dyn_cast<AtomicRMWInst>(&In)) { o.op = X_RMW; o.a = opnd(x->getPointerOperand()); o.b = opnd(x->getValOperand()); o.w = widthOf(T); o.x = x->getOperation(); }
    else if (isa<FenceInst>(In)) return;
    else { fprintf(stderr, "unsupported instruction in %s: ", f.name.c_str()); In.print(errs()); fprintf(stderr, "\n"); o.op = X_UNREACH; o.x = 77; }
    f.code.push_back(o);
  }
};
static void decode(FInfo *f) { Decoder d(*f); d.run(); f->decoded = true; }

// ------------------------------------------------------------------ calls
static const size_t STACKV = 1 << 22;
Thread *newThread() { Thread *t = new Thread; t->stackBase = (V *)mmap(nullptr, STACKV * sizeof(V), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t->stackTop = t->stackBase; t->frames.reserve(64); t->id = threads.size(); threads.push_back(t); return t; }
void pushCall(FInfo *f, const vector<V> &args, int retDst, int retN, int kind) {
  if (!f->decoded) decode(f);
  if (cur->frames.size() > 4000 || cur->stackTop + f->nslots + 64 > cur->stackBase + STACKV) violation("stack overflow (unbounded recursion)");
  if (!f->seen) { f->seen = true; sh->cov[f->id] = 1; }
  Frame r; r.f = f; r.regs = cur->stackTop; cur->stackTop += f->nslots; r.pc = 0; r.stackMark = stackTopId; r.retDst = retDst; r.retN = retN; r.va = nullptr; r.kind = kind;
  size_t na = f->nargslots; for (size_t i = 0; i < na; i++) r.regs[i] = i < args.size() ? args[i] : vc(0);
  for (int i = na; i < f->nslots; i++) r.regs[i] = vc(0);
  if (f->F->isVarArg()) { r.va = new vector<V>(args.begin() + std::min(na, args.size()), args.end()); }
  for (size_t i = 0; i < f->byval.size(); i++) if (f->byval[i]) { Obj *o = allocStack(f->byval[i]); uint64_t src = concretize(r.regs[f->argSlots[i]], 64, "byval"); copyMem(o->base, src, f->byval[i], false); r.regs[f->argSlots[i]] = vc(o->base); }
  cur->frames.push_back(r);
}
static void popFrame() { Frame &f = fr(); stackTopId = (threads.size() == 1) ? f.stackMark : stackTopId; cur->stackTop = f.regs; delete f.va; cur->frames.pop_back(); }
static inline const V &rg(const Frame &f, int a, int j = 0) { return a >= 0 ? f.regs[a + j] : f.f->consts[-a - 1 + j]; }
void setRet(const I &in, V v) { if (in.dst >= 0) { if (!v.s && in.w) v.c &= maskw(in.w); fr().regs[in.dst] = v; } }
static void takeEdge(Frame &f, int ei) {
  Edge &e = f.f->edges[ei];
  if (!e.moves.empty()) {
    if (e.moves.size() == 1) { auto &m = e.moves[0]; for (int j = 0; j < m[2]; j++) f.regs[m[1] + j] = rg(f, m[0], j); }
    else { V tmp[64]; vector<V> big; V *t = tmp; int tot = 0; for (auto &m : e.moves) tot += m[2]; if (tot > 64) { big.resize(tot); t = big.data(); } int k = 0; for (auto &m : e.moves) for (int j = 0; j < m[2]; j++) t[k++] = rg(f, m[0], j); k = 0; for (auto &m : e.moves) for (int j = 0; j < m[2]; j++) f.regs[m[1] + j] = t[k++]; }
  }
  f.pc = e.target;
}
// ------------------------------------------------------------------ exceptions
static std::unordered_map<uint64_t, int> tid;
static int typeId(uint64_t ti) { auto it = tid.find(ti); if (it != tid.end()) return it->second; int k = tid.size() + 1; return tid[ti] = k; }
int ehTypeId(uint64_t ti) { return typeId(ti); }
static uint64_t vtSym(const char *n) { auto *g = M->getNamedValue(n); return g ? globalAddr(g) + 16 : 0; }
static uint64_t vSI() { static uint64_t x = vtSym("_ZTVN10__cxxabiv120__si_class_type_infoE"); return x; }
static uint64_t vVMI() { static uint64_t x = vtSym("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); return x; }
static uint64_t vPTR() { static uint64_t x = vtSym("_ZTVN10__cxxabiv119__pointer_type_infoE"); return x; }
struct Sub { uint64_t ti, addr; bool pub; };
static void subobjects(uint64_t ti, uint64_t addr, bool pub, bool haveObj, vector<Sub> &out) {
  out.push_back({ti, addr, pub}); if (out.size() > 200) return; uint64_t vt = rd64(ti);
  if (vt == vSI()) subobjects(rd64(ti + 16), addr, pub, haveObj, out);
  else if (vt == vVMI()) { uint32_t n = rd32(ti + 20); for (uint32_t i = 0; i < n; i++) { uint64_t b = rd64(ti + 24 + 16 * i), fl = rd64(ti + 32 + 16 * i); int64_t off = (int64_t)fl >> 8; uint64_t ba = addr; if (fl & 1) { if (haveObj) { uint64_t vp = rd64(addr); ba = addr + rd64(vp + off); } } else ba = addr + off; subobjects(b, ba, pub && (fl & 2), haveObj, out); } }
}
bool typeMatches(uint64_t thrown, uint64_t want, uint64_t obj, uint64_t &adj) {
  adj = obj; if (thrown == want) return true; if (!want) return true; uint64_t vt = rd64(thrown);
  if (vt == vPTR()) { if (rd64(want) != vPTR()) return false; uint64_t a = rd64(thrown + 24), b = rd64(want + 24); return a == b; }
  if (vt != vSI() && vt != vVMI()) return false; vector<Sub> s; subobjects(thrown, obj, true, true, s); for (auto &x : s) if (x.ti == want && x.pub) { adj = x.addr; return true; } return false;
}
uint64_t dynCast(uint64_t p, uint64_t src, uint64_t dst) {
  uint64_t vp = rd64(p); int64_t ott = (int64_t)rd64(vp - 16); uint64_t ti = rd64(vp - 8), full = p + ott; vector<Sub> s; subobjects(ti, full, true, true, s);
  // unique public dst subobject (downcast or cross-cast)
  uint64_t r = 0; int n = 0; for (auto &x : s) if (x.ti == dst) { if (n && x.addr == r) continue; // prefer one containing src
      vector<Sub> t; subobjects(dst, x.addr, true, true, t); bool has = false; for (auto &y : t) if (y.ti == src && y.addr == p) has = true; if (has) return x.addr; if (x.pub) { r = x.addr; n++; } }
  return n == 1 ? r : 0;
}
static int matchPad(const LandingPadInst *lp, uint64_t ti, uint64_t obj, int &sel, uint64_t &adj) { // 0 none, 1 cleanup, 2 catch
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) { uint64_t w = constVal(lp->getClause(i)); if (!w) { sel = typeId(0); adj = obj; return 2; } if (typeMatches(ti, w, obj, adj)) { sel = typeId(w); return 2; } }
    else { // filter (exception spec): match if ti not in list
      auto *c = dyn_cast<ConstantArray>(lp->getClause(i)); bool in = false; if (c) for (unsigned k = 0; k < c->getNumOperands(); k++) if (typeMatches(ti, constVal(c->getOperand(k)), obj, adj)) in = true; if (!in) { sel = -1; adj = obj; return 2; } }
  }
  return lp->isCleanup() ? 1 : 0;
}
static string typeName(uint64_t ti) { bool s; return demangle("_ZTS" + readCStr(rd64(ti + 8), s)).substr(18 < 0 ? 0 : 0); }
static void unwind(uint64_t obj, uint64_t ti, ExcInfo ei) {
  // phase 1
  bool found = false; for (size_t i = cur->frames.size(); i-- > 0 && !found;) { Frame &f = cur->frames[i]; const I &in = f.f->code[f.pc - 1]; if (in.op == X_CALL && in.x == 1) { auto *iv = cast<InvokeInst>(in.src); int sel; uint64_t adj; if (matchPad(iv->getLandingPadInst(), ti, obj, sel, adj) == 2) found = true; } }
  if (!found) { string what; violation("uncaught exception of type " + typeName(ti)); }
  for (;;) {
    Frame &f = fr(); const I &in = f.f->code[f.pc - 1];
    if (in.op == X_CALL && in.x == 1) { auto *iv = cast<InvokeInst>(in.src); auto *lp = iv->getLandingPadInst(); int sel = 0; uint64_t adj = obj; int r = matchPad(lp, ti, obj, sel, adj);
      if (r) { ei.adj = adj; cur->caught.push_back(ei); // pending: top of stack until begin_catch/resume
        takeEdge(f, in.k >> 32); I &p = f.f->code[f.pc]; f.regs[p.dst] = vc(obj); f.regs[p.dst + 1] = vc((uint32_t)(r == 2 ? sel : 0)); f.pc++; return; } }
    popFrame(); if (cur->frames.empty()) engineError("unwind fell off stack");
  }
}
void throwExc(uint64_t obj, uint64_t ti, uint64_t dtor) { ExcInfo e{obj, ti, dtor, obj, 0, false}; unwind(obj, ti, e); }
void doResume(uint64_t obj) { // find exception record
  for (size_t i = cur->caught.size(); i-- > 0;) if (cur->caught[i].obj == obj) { ExcInfo e = cur->caught[i]; cur->caught.erase(cur->caught.begin() + i); unwind(obj, e.ti, e); return; } engineError("resume of unknown exception"); }

// ------------------------------------------------------------------ arithmetic
static inline V binop(unsigned opc, unsigned w, const V &x, const V &y) {
  if (!x.s && !y.s) {
    uint64_t m = maskw(w), a = x.c, b = y.c, r; int64_t sa, sb;
    switch (opc) {
    case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Mul: r = a * b; break; case Instruction::And: r = a & b; break; case Instruction::Or: r = a | b; break; case Instruction::Xor: r = a ^ b; break;
    case Instruction::Shl: r = b >= w ? 0 : a << b; break; case Instruction::LShr: r = b >= w ? 0 : a >> b; break; case Instruction::AShr: r = (uint64_t)(sext64(a, w) >> (b >= w ? w - 1 : b)); break;
    case Instruction::UDiv: if (!b) violation("integer division by zero"); r = a / b; break; case Instruction::URem: if (!b) violation("integer division by zero"); r = a % b; break;
    case Instruction::SDiv: sa = sext64(a, w), sb = sext64(b, w); if (!sb) violation("integer division by zero"); if (sb == -1 && (a == (1ull << (w - 1)))) violation("integer division overflow"); r = (uint64_t)(sb == -1 ? -sa : sa / sb); break;
    case Instruction::SRem: sa = sext64(a, w), sb = sext64(b, w); if (!sb) violation("integer division by zero"); r = (uint64_t)(sb == -1 ? 0 : sa % sb); break;
    default: engineError("binop");
    }
    return vc(r & m);
  }
  E a = toE(x, w), b = toE(y, w);
  switch (opc) {
  case Instruction::Add: return fromE(mkAdd(a, b)); case Instruction::Sub: return fromE(mkSub(a, b)); case Instruction::Mul: return fromE(mkMul(a, b)); case Instruction::And: return fromE(mkAnd(a, b)); case Instruction::Or: return fromE(mkOr(a, b)); case Instruction::Xor: return fromE(mkXor(a, b));
  case Instruction::Shl: return fromE(mkBin(O_SHL, a, b)); case Instruction::LShr: return fromE(mkBin(O_LSHR, a, b)); case Instruction::AShr: return fromE(mkBin(O_ASHR, a, b));
  default: break;
  }
  if (branch(mkEq(b, mkConst(w, 0)))) violation("integer division by zero");
  // pc now implies b != 0
  switch (opc) { case Instruction::UDiv: return fromE(mkBin(O_UDIV, a, b)); case Instruction::URem: return fromE(mkBin(O_UREM, a, b)); case Instruction::SDiv: return fromE(mkBin(O_SDIV, a, b)); case Instruction::SRem: return fromE(mkBin(O_SREM, a, b)); default: engineError("binop"); }
}
static V icmp(unsigned p, unsigned w, const V &x, const V &y) {
  if (!x.s && !y.s) {
    uint64_t a = x.c, b = y.c; int64_t sa = sext64(a, w), sb = sext64(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return vc(a == b); case CmpInst::ICMP_NE: return vc(a != b); case CmpInst::ICMP_ULT: return vc(a < b); case CmpInst::ICMP_ULE: return vc(a <= b); case CmpInst::ICMP_UGT: return vc(a > b); case CmpInst::ICMP_UGE: return vc(a >= b);
      case CmpInst::ICMP_SLT: return vc(sa < sb); case CmpInst::ICMP_SLE: return vc(sa <= sb); case CmpInst::ICMP_SGT: return vc(sa > sb); case CmpInst::ICMP_SGE: return vc(sa >= sb); default: engineError("icmp"); }
  }
  E a = toE(x, w), b = toE(y, w);
  switch (p) { case CmpInst::ICMP_EQ: return fromE(mkEq(a, b)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(a, b))); case CmpInst::ICMP_ULT: return fromE(mkCmp(O_ULT, a, b)); case CmpInst::ICMP_ULE: return fromE(mkCmp(O_ULE, a, b)); case CmpInst::ICMP_UGT: return fromE(mkCmp(O_ULT, b, a)); case CmpInst::ICMP_UGE: return fromE(mkCmp(O_ULE, b, a));
    case CmpInst::ICMP_SLT: return fromE(mkCmp(O_SLT, a, b)); case CmpInst::ICMP_SLE: return fromE(mkCmp(O_SLE, a, b)); case CmpInst::ICMP_SGT: return fromE(mkCmp(O_SLT, b, a)); case CmpInst::ICMP_SGE: return fromE(mkCmp(O_SLE, b, a)); default: engineError("icmp"); }
}
static V fcmp(unsigned p, unsigned w, const V &x, const V &y) {
  if (w == 80) engineError("fp80 compare");
  E a = toE(x, w), b = toE(y, w); auto cm = [&](Op o, E p, E q) { return mkFCmp(o, p, q); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return vc(0); case CmpInst::FCMP_TRUE: return vc(1);
  case CmpInst::FCMP_OEQ: return fromE(cm(O_FEQ, a, b)); case CmpInst::FCMP_OLT: return fromE(cm(O_FLT, a, b)); case CmpInst::FCMP_OLE: return fromE(cm(O_FLE, a, b)); case CmpInst::FCMP_OGT: return fromE(cm(O_FLT, b, a)); case CmpInst::FCMP_OGE: return fromE(cm(O_FLE, b, a));
  case CmpInst::FCMP_UNO: return fromE(cm(O_FUNO, a, b)); case CmpInst::FCMP_ORD: return fromE(mkNot(cm(O_FUNO, a, b)));
  case CmpInst::FCMP_UNE: return fromE(mkNot(cm(O_FEQ, a, b))); case CmpInst::FCMP_UEQ: return fromE(mkOr(cm(O_FUNO, a, b), cm(O_FEQ, a, b))); case CmpInst::FCMP_ONE: return fromE(mkAnd(mkNot(cm(O_FUNO, a, b)), mkNot(cm(O_FEQ, a, b))));
  case CmpInst::FCMP_ULT: return fromE(mkNot(cm(O_FLE, b, a))); case CmpInst::FCMP_ULE: return fromE(mkNot(cm(O_FLT, b, a))); case CmpInst::FCMP_UGT: return fromE(mkNot(cm(O_FLE, a, b))); case CmpInst::FCMP_UGE: return fromE(mkNot(cm(O_FLT, a, b)));
  default: engineError("fcmp");
  }
}
static V castop(unsigned opc, unsigned sw, unsigned dw, const V &v, Type *ST, Type *DT) {
  switch (opc) {
  case Instruction::Trunc: return v.s ? fromE(mkExtract(v.s, 0, dw)) : vc(v.c & maskw(dw));
  case Instruction::ZExt: return v.s ? fromE(mkZExt(v.s, dw)) : v; case Instruction::SExt: return v.s ? fromE(mkSExt(v.s, dw)) : vc((uint64_t)sext64(v.c, sw) & maskw(dw));
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (sw == dw) return v; if (dw < sw) return v.s ? fromE(mkExtract(v.s, 0, dw)) : vc(v.c & maskw(dw)); return v.s ? fromE(mkZExt(v.s, dw)) : v;
  case Instruction::SIToFP: return fromE(mkFCast(O_SITOFP, toE(v, sw), dw)); case Instruction::UIToFP: return fromE(mkFCast(O_UITOFP, toE(v, sw), dw));
  case Instruction::FPToSI: return fromE(mkFCast(O_FPTOSI, toE(v, sw), dw)); case Instruction::FPToUI: return fromE(mkFCast(O_FPTOUI, toE(v, sw), dw));
  case Instruction::FPExt: return fromE(mkFCast(O_FPEXT, toE(v, sw), dw)); case Instruction::FPTrunc: return fromE(mkFCast(O_FPTRUNC, toE(v, sw), dw));
  default: engineError("cast");
  }
}
static long double ldOf(const V &a, const V &b) { long double d = 0; uint8_t t[16] = {0}; memcpy(t, &a.c, 8); memcpy(t + 8, &b.c, 2); memcpy(&d, t, 16); return d; }
static void ldTo(long double d, V *o) { uint8_t t[16] = {0}; memcpy(t, &d, 10); o[0] = vc(0); o[1] = vc(0); memcpy(&o[0].c, t, 8); memcpy(&o[1].c, t + 8, 2); }

// ------------------------------------------------------------------ threads
std::vector<uint64_t> g_replay; // concrete values for the first inputs (--replay)
void applyReplay(E e) { size_t i = g_inputs.size() - 1; if (i >= g_replay.size() || !e) return; if (g_vars.size()) curModel[g_vars.size() - 1] = g_replay[i] & maskw(g_vars.back().width); addPC(mkEq(e, mkConst(e->width, g_replay[i]))); }
int optPreempt = 2; static int preemptions = 0;
static int nSched = 0; uint64_t nSchedPoints = 0;
static void selectThread2(const vector<Thread *> &r, bool curRunnable) {
  if (r.size() == 1) { cur = r[0]; return; }
  int64_t n = r.size(); sh->steps++;
  E v = mkVar("sched" + std::to_string(nSched++), 8, true, 0, n - 1); InputRec ir; ir.name = "sched"; ir.e = v; ir.w = 8; ir.c = 0; ir.kind = 0; g_inputs.push_back(ir); curModel.resize(g_vars.size(), 0); curModel[v->c] = 0; applyReplay(v);
  int pick = 0; for (; pick < n - 1; pick++) if (branch(mkEq(v, mkConst(8, pick)))) break;
  if (curRunnable && r[pick] != cur) preemptions++;
  cur = r[pick];
}
static void selectThread(const vector<Thread *> &r, bool curRunnable) { selectThread2(r, curRunnable); if (cur->st == T_MUTEX || cur->st == T_JOIN) cur->st = T_RUN; }
static bool mutexFree(uint64_t m) { return rd32(m) == 0; }
void maybeSwitch(bool mustYield) {
  if (threads.size() == 1 && !mustYield) return; vector<Thread *> r; bool curRun = false;
  auto can = [&](Thread *t) { if (t->st == T_DONE) return false; if (t->st == T_RUN) return true; if (t->st == T_MUTEX) return mutexFree(t->waitOn); if (t->st == T_TIMEDCOND) return true; if (t->st == T_JOIN) return threads[t->waitOn]->st == T_DONE; return false; };
  if (!mustYield && cur->st == T_RUN) { curRun = true; r.push_back(cur); if (preemptions >= optPreempt) return; }
  for (Thread *t : threads) if (!(t == cur && curRun) && can(t)) r.push_back(t);
  if (r.empty()) { violation("deadlock: no runnable thread"); }
  selectThread(r, curRun);
}
// scheduling points at memory shared between threads (--memsched): before every store to it, and before loads once it was written concurrently
bool optMemSched = false;
static bool memPoint(const V &a, bool store) {
  if (threads.size() < 2 || a.s) return false; Obj *o = findObj(a.c); if (!o || !o->alive || o->ro) return false;
  if (o->tid != cur->id) o->shared = 1;
  bool pt = o->shared && (store || o->mtw); if (store) o->mtw = 1;
  if (!pt) return false; if (cur->yielded) { cur->yielded = false; return false; }
  if (preemptions >= optPreempt) return false;
  cur->yielded = true; fr().pc--; maybeSwitch(false); return true;
}
// ------------------------------------------------------------------ main loop
static void doCall(Frame &f, I &in) {
  FInfo *cf = in.callee;
  if (!cf) { V t = rg(f, in.a); uint64_t a = t.s ? concretize(t, 64, "call target") : t.c; cf = funcAt(a); if (!cf) { char b[100]; snprintf(b, 100, "call through invalid function pointer 0x%llx", (unsigned long long)a); violation(b); } }
  int nargs = in.c; const int32_t *pl = &f.f->pool[in.b];
  if (cf->ext) {
    V args[24]; int k = 0; for (int i = 0; i < nargs && k < 24; i++) { int c = pl[3 * i + 1]; for (int j = 0; j < c && k < 24; j++) args[k++] = rg(f, pl[3 * i], j); }
    if (!cf->h) engineError("call to unsupported external function " + cf->name + " = " + demangle(cf->name).substr(0, 200));
    size_t depth = cur->frames.size(); Thread *me = cur; V ret[4] = {vc(0), vc(0), vc(0), vc(0)};

    extern FInfo *g_extCallee; g_extCallee = cf;
    // default continuation for invoke: set pc to the normal edge before running handler (handler may throw/push)
    int savedpc = f.pc;
    cf->h(in, args, k, ret);
    extern bool g_threw, g_pushed; if (g_threw) { g_threw = false; return; } if (g_pushed) { g_pushed = false; return; }
    Frame *ff = &me->frames[depth - 1];
    if (in.dst >= 0) for (int j = 0; j < in.n && j < 4; j++) { V r = ret[j]; if (!r.s && in.n == 1 && in.w && in.w <= 64) r.c &= maskw(in.w); if (r.s && in.n == 1 && in.w < r.s->width) r.s = mkExtract(r.s, 0, in.w), r = fromE(r.s); ff->regs[in.dst + j] = r; }
    if (in.x == 1 && ff->pc == savedpc) takeEdge(*ff, in.k & 0xffffffff);
    return;
  }
  vector<V> args; args.reserve(nargs + 2); if (!cf->decoded) decode(cf);
  for (int i = 0; i < nargs; i++) { int c = pl[3 * i + 1]; for (int j = 0; j < c; j++) args.push_back(rg(f, pl[3 * i], j)); }
  pushCall(cf, args, in.dst, in.n);
}
void runLoop(size_t stopDepth) {
  for (;;) {
    Frame &f = fr(); I &in = f.f->code[f.pc++];
    if (++instrCount > optMaxInstr) (inInit ? engineError("instruction limit exceeded in static init") : violation("no termination within the instruction bound"));
    switch (in.op) {
    case X_NOP: break;
    case X_BIN: for (int j = 0; j < in.n; j++) { V r = binop(in.x, in.w, rg(f, in.a, j), rg(f, in.b, j)); f.regs[in.dst + j] = r; } break;
    case X_ICMP: for (int j = 0; j < in.n; j++) f.regs[in.dst + j] = icmp(in.x, in.w, rg(f, in.a, j), rg(f, in.b, j)); break;
    case X_LOAD: { if (optMemSched && memPoint(rg(f, in.a), false)) break; V r = loadV(rg(f, in.a), in.w); f.regs[in.dst] = r; break; }
    case X_STORE: if (optMemSched && memPoint(rg(f, in.a), true)) break; storeV(rg(f, in.a), in.w, rg(f, in.b)); break;
    case X_GEP: {
      V base = rg(f, in.a); const int32_t *p = &f.f->pool[in.b]; bool sym = base.s; for (int i = 0; i < in.c; i++) if (rg(f, p[3 * i]).s) sym = true;
      if (!sym) { uint64_t a = base.c + in.k; for (int i = 0; i < in.c; i++) a += (uint64_t)sext64(rg(f, p[3 * i]).c, p[3 * i + 1]) * (uint32_t)p[3 * i + 2]; f.regs[in.dst] = vc(a); }
      else { E a = mkAdd(toE(base, 64), mkConst(64, in.k)); for (int i = 0; i < in.c; i++) { E x = mkSExt(toE(rg(f, p[3 * i]), p[3 * i + 1]), 64); a = mkAdd(a, mkMul(x, mkConst(64, (uint32_t)p[3 * i + 2]))); } f.regs[in.dst] = fromE(a); }
      break; }
    case X_BR: takeEdge(f, in.b); break;
    case X_CONDBR: { bool t = branchV(rg(f, in.a)); takeEdge(f, t ? in.b : in.c); break; }
    case X_CAST: { const CastInst *ci = cast<CastInst>(in.src); for (int j = 0; j < in.n; j++) { V r = castop(in.x, in.w, in.w2, rg(f, in.a, j), nullptr, nullptr); f.regs[in.dst + j] = r; } (void)ci; break; }
    case X_COPY: if (in.n == 1) f.regs[in.dst] = rg(f, in.a); else { V t[32]; vector<V> bt; V *p = t; if (in.n > 32) { bt.resize(in.n); p = bt.data(); } for (int j = 0; j < in.n; j++) p[j] = rg(f, in.a, j); for (int j = 0; j < in.n; j++) f.regs[in.dst + j] = p[j]; } break;
    case X_SELECT: {
      for (int j = 0; j < in.n; j++) { V c = rg(f, in.a, in.x ? j : 0); V r; if (!c.s) r = rg(f, (c.c & 1) ? in.b : in.c, j); else { V a = rg(f, in.b, j), b = rg(f, in.c, j); unsigned w = f.f->leaves[in.k + j].bits; if (w == 1 && a.s) w = 1; r = fromE(mkIte(c.s, toE(a, w), toE(b, w))); } f.regs[in.dst + j] = r; } break; }
    case X_CALL: doCall(f, in); break;
    case X_RET: {
      V rv[8]; vector<V> big; V *p = rv; if (in.n > 8) { big.resize(in.n); p = big.data(); } for (int j = 0; j < in.n; j++) p[j] = rg(f, in.a, j);
      int dst = f.retDst, n = in.n, kind = f.kind; popFrame();
      if (cur->frames.size() == stopDepth && cur == threads[0] && kind != 2) return;
      if (cur->frames.empty()) { if (kind == 2) { cur->st = T_DONE; cur->retval = n ? p[0].c : 0; maybeSwitch(true); break; } return; }
      if (kind == 1) break; // no return handling
      Frame &g = fr(); if (dst >= 0) for (int j = 0; j < n; j++) g.regs[dst + j] = p[j];
      I &ci = g.f->code[g.pc - 1]; if (kind == 0 && ci.op == X_CALL && ci.x == 1) takeEdge(g, ci.k & 0xffffffff);
      break; }
    case X_SWITCH: {
      V v = rg(f, in.a); auto &cs = f.f->switches[in.c]; int e = in.b;
      if (!v.s) { for (auto &c : cs) if (c.first == v.c) { e = c.second; break; } }
      else { // group cases by destination to limit forks
        E x = v.s; bool done = false; std::map<const BasicBlock *, std::pair<E, int>> g; 
        for (auto &c : cs) { E q = mkEq(x, mkConst(in.w, c.first)); if (q->op == O_CONST && !q->c) continue; if (branch(q)) { e = c.second; done = true; break; } } (void)done; }
      takeEdge(fr(), e); break; }
    case X_ALLOCA: { uint64_t n = concretize(rg(f, in.a), in.w, "alloca"); Obj *o = allocStack(in.k * n); f.regs[in.dst] = vc(o->base); break; }
    case X_LOADA: { V a = rg(f, in.a); if (a.s) a = vc(concretize(a, 64, "agg load")); for (int j = 0; j < in.n; j++) { Leaf &l = f.f->leaves[in.k + j]; f.regs[in.dst + j] = loadV(vc(a.c + l.off), l.bits); } break; }
    case X_STOREA: { V a = rg(f, in.a); if (a.s) a = vc(concretize(a, 64, "agg store")); for (int j = 0; j < in.n; j++) { Leaf &l = f.f->leaves[in.k + j]; storeV(vc(a.c + l.off), l.bits, rg(f, in.b, j)); } break; }
    case X_FCMP: for (int j = 0; j < in.n; j++) { if (in.w == 80) { long double x = ldOf(rg(f, in.a, 0), rg(f, in.a, 1)), y = ldOf(rg(f, in.b, 0), rg(f, in.b, 1)); bool r; switch (in.x) { case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UNE: r = x != y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGE: r = x >= y; break; default: engineError("fp80 cmp"); } f.regs[in.dst] = vc(r); } else f.regs[in.dst + j] = fcmp(in.x, in.w, rg(f, in.a, j), rg(f, in.b, j)); } break;
    case X_FBIN: {
      if (in.w == 80) { if (rg(f, in.a).s || rg(f, in.b).s) engineError("symbolic fp80"); long double x = ldOf(rg(f, in.a, 0), rg(f, in.a, 1)), y = ldOf(rg(f, in.b, 0), rg(f, in.b, 1)), r; switch (in.x) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; default: r = x / y; } ldTo(r, &f.regs[in.dst]); break; }
      Op o = in.x == Instruction::FAdd ? O_FADD : in.x == Instruction::FSub ? O_FSUB : in.x == Instruction::FMul ? O_FMUL : in.x == Instruction::FDiv ? O_FDIV : O_FREM;
      for (int j = 0; j < in.n; j++) { const V &x = rg(f, in.a, j), &y = rg(f, in.b, j); V r = (!x.s && !y.s) ? vc(hostFBin(o, in.w, x.c, y.c)) : fromE(mkFBin(o, toE(x, in.w), toE(y, in.w))); f.regs[in.dst + j] = r; } break; }
    case X_FNEG: for (int j = 0; j < in.n; j++) { V x = rg(f, in.a, j); f.regs[in.dst + j] = x.s ? fromE(mkFNeg(x.s)) : vc(x.c ^ (1ull << (in.w - 1))); } break;
    case X_EXTEL: { uint64_t i = concretize(rg(f, in.b), 64, "extractelement"); f.regs[in.dst] = rg(f, in.a, i < (uint64_t)in.n ? i : 0); break; }
    case X_INSEL: { uint64_t i = concretize(rg(f, in.c), 64, "insertelement"); V e = rg(f, in.b); V t[64]; for (int j = 0; j < in.n; j++) t[j] = rg(f, in.a, j); t[i] = e; for (int j = 0; j < in.n; j++) f.regs[in.dst + j] = t[j]; break; }
    case X_SHUF: { V t[64]; for (int j = 0; j < in.n; j++) { int m = f.f->pool[in.c + j]; t[j] = m < 0 ? vc(0) : m < (int)in.x ? rg(f, in.a, m) : rg(f, in.b, m - in.x); } for (int j = 0; j < in.n; j++) f.regs[in.dst + j] = t[j]; break; }
    case X_CMPXCHG: { V p = rg(f, in.a); if (optMemSched && memPoint(p, true)) break; V old = loadV(p, in.w); V eq = icmp(CmpInst::ICMP_EQ, in.w, old, rg(f, in.b)); bool t = branchV(eq); Frame &g = fr(); if (t) storeV(p, in.w, rg(g, in.c)); g.regs[in.dst] = old; g.regs[in.dst + 1] = vc(t); break; }
    case X_RMW: { V p = rg(f, in.a); if (optMemSched && memPoint(p, true)) break; V old = loadV(p, in.w), v = rg(f, in.b), nv; switch (in.x) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, in.w, old, v); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, in.w, old, v); break; case AtomicRMWInst::And: nv = binop(Instruction::And, in.w, old, v); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, in.w, old, v); break; case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, in.w, old, v); break; default: engineError("atomicrmw"); } storeV(p, in.w, nv); f.regs[in.dst] = old; break; }
    case X_RESUME: { uint64_t o = rg(f, in.a).c; doResume(o); break; }
    case X_BIN128: {
      V a0 = rg(f, in.a, 0), a1 = rg(f, in.a, 1), b0 = rg(f, in.b, 0), b1 = rg(f, in.b, 1); 
      auto cz = [&](V &v, const char *w) { if (v.s) v = vc(concretize(v, 64, w)); };
      if ((in.x == Instruction::Or || in.x == Instruction::And || in.x == Instruction::Xor)) { V r0 = binop(in.x, 64, a0, b0), r1 = binop(in.x, 64, a1, b1); f.regs[in.dst] = r0; f.regs[in.dst + 1] = r1; break; }
      if ((in.x == Instruction::Shl || in.x == Instruction::LShr) && !b0.s && (b0.c == 64)) { if (in.x == Instruction::Shl) { f.regs[in.dst] = vc(0); f.regs[in.dst + 1] = a0; } else { f.regs[in.dst] = a1; f.regs[in.dst + 1] = vc(0); } break; }
      cz(a0, "i128"); cz(a1, "i128"); cz(b0, "i128"); cz(b1, "i128"); typedef unsigned __int128 u128; u128 x = ((u128)a1.c << 64) | a0.c, y = ((u128)b1.c << 64) | b0.c, r = 0;
      switch (in.x) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break; case Instruction::SDiv: r = (__int128)x / (__int128)y; break; case Instruction::SRem: r = (__int128)x % (__int128)y; break; case Instruction::Shl: r = x << (unsigned)y; break; case Instruction::LShr: r = x >> (unsigned)y; break; case Instruction::AShr: r = (__int128)x >> (unsigned)y; break; default: engineError("i128 op"); }
      Frame &g = fr(); g.regs[in.dst] = vc((uint64_t)r); g.regs[in.dst + 1] = vc((uint64_t)(r >> 64)); break; }
    case X_ICMP128: { V a0 = rg(f, in.a, 0), a1 = rg(f, in.a, 1), b0 = rg(f, in.b, 0), b1 = rg(f, in.b, 1); auto cz = [&](V &v) { if (v.s) v = vc(concretize(v, 64, "i128cmp")); };
      if (in.x == CmpInst::ICMP_EQ || in.x == CmpInst::ICMP_NE) { E e = mkAnd(mkEq(toE(a0, 64), toE(b0, 64)), mkEq(toE(a1, 64), toE(b1, 64))); f.regs[in.dst] = fromE(in.x == CmpInst::ICMP_EQ ? e : mkNot(e)); break; }
      cz(a0); cz(a1); cz(b0); cz(b1); typedef unsigned __int128 u128; u128 x = ((u128)a1.c << 64) | a0.c, y = ((u128)b1.c << 64) | b0.c; bool r; switch (in.x) { case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = (__int128)x < (__int128)y; break; case CmpInst::ICMP_SGT: r = (__int128)x > (__int128)y; break; case CmpInst::ICMP_SLE: r = (__int128)x <= (__int128)y; break; default: r = (__int128)x >= (__int128)y; } fr().regs[in.dst] = vc(r); break; }
    case X_CASTI128: {
      if (in.x == 1000) { // vector/scalar reinterpretation: via bytes
        unsigned sw = in.w, dw = in.w2; vector<E> bits; // concat all, little endian
        if (sw < dw) { int per = dw / sw; for (int j = 0; j < in.c; j++) { E r = nullptr; if (dw > 64) { engineError("bitcast>64"); } for (int k = 0; k < per; k++) { E x = toE(rg(f, in.a, j * per + k), sw); r = r ? mkConcat(x, r) : x; } bits.push_back(r); } }
        else { int per = sw / dw; if (sw > 64) { for (int j = 0; j < in.c; j++) { V x = rg(f, in.a, j * dw / 64); bits.push_back(mkExtract(toE(x, 64), (j * dw) % 64, dw)); } } else for (int j = 0; j < in.n; j++) for (int k = 0; k < per; k++) bits.push_back(mkExtract(toE(rg(f, in.a, j), sw), k * dw, dw)); }
        for (size_t j = 0; j < bits.size(); j++) f.regs[in.dst + j] = fromE(bits[j]); break; }
      V a = rg(f, in.a); switch (in.x) {
      case Instruction::ZExt: f.regs[in.dst] = a.s ? fromE(mkZExt(a.s, 64)) : a; f.regs[in.dst + 1] = vc(0); break;
      case Instruction::SExt: { E x = mkSExt(toE(a, in.w), 64); f.regs[in.dst] = fromE(x); f.regs[in.dst + 1] = fromE(mkBin(O_ASHR, x, mkConst(64, 63))); break; }
      case Instruction::Trunc: f.regs[in.dst] = a.s ? fromE(mkExtract(a.s, 0, in.w2)) : vc(a.c & maskw(in.w2)); break;
      case Instruction::FPExt: { if (a.s) engineError("symbolic fp80"); double d; float fl; if (in.w == 64) memcpy(&d, &a.c, 8); else { memcpy(&fl, &a.c, 4); d = fl; } ldTo(d, &f.regs[in.dst]); break; }
      case Instruction::FPTrunc: { if (a.s) engineError("symbolic fp80"); long double l = ldOf(a, rg(f, in.a, 1)); uint64_t o = 0; if (in.w2 == 64) { double d = (double)l; memcpy(&o, &d, 8); } else { float d = (float)l; memcpy(&o, &d, 4); } f.regs[in.dst] = vc(o); break; }
      case Instruction::SIToFP: { if (a.s) engineError("symbolic fp80"); ldTo((long double)sext64(a.c, in.w), &f.regs[in.dst]); break; }
      case Instruction::UIToFP: { if (a.s) engineError("symbolic fp80"); ldTo((long double)a.c, &f.regs[in.dst]); break; }
      case Instruction::FPToSI: { if (a.s) engineError("symbolic fp80"); long double l = ldOf(a, rg(f, in.a, 1)); f.regs[in.dst] = vc((uint64_t)(int64_t)l & maskw(in.w2)); break; }
      case Instruction::FPToUI: { if (a.s) engineError("symbolic fp80"); long double l = ldOf(a, rg(f, in.a, 1)); f.regs[in.dst] = vc((uint64_t)l & maskw(in.w2)); break; }
      case Instruction::BitCast: { V t0 = rg(f, in.a, 0), t1 = rg(f, in.a, 1); f.regs[in.dst] = t0; f.regs[in.dst + 1] = t1; break; }
      default: engineError("wide cast"); } break; }
    case X_UNREACH: if (in.x == 77) engineError("unsupported instruction reached"); violation("reached code marked unreachable (undefined behaviour, e.g. missing return)");
    default: engineError("bad opcode");
    }
  }
}
void coverageNames(vector<string> &out) { for (auto *f : funcs) if (sh->cov[f->id] && !f->ext) out.push_back(f->name); }
size_t numFuncs() { return funcs.size(); }
