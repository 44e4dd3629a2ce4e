// symx driver: `opt` (strip + optimise one module), `link` (link modules), `run` (explore entries)
#include "sx.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <cstring>
#include <chrono>
using namespace llvm; using std::string; using std::vector;

int optProcs = 8; string optOut; uint64_t optMaxInstr = 20000000; int optSamples = 24;
extern int optPreempt; extern bool optMemSched; extern bool optSymFmt; extern uint64_t optConcretizeLimit;
void initGlobals(); void runLoop(size_t stopDepth); void coverageNames(vector<string> &out); size_t numFuncs(); Thread *newThread();

static std::unique_ptr<Module> load(LLVMContext &c, const char *p) {
  SMDiagnostic err; auto m = parseIRFile(p, err, c); if (!m) { fprintf(stderr, "symx: cannot load %s\n", p); err.print("symx", errs()); exit(2); } return m;
}
static void save(Module &m, const char *p) { std::error_code ec; raw_fd_ostream os(p, ec, sys::fs::OF_None); if (ec) { fprintf(stderr, "symx: cannot write %s\n", p); exit(2); } WriteBitcodeToFile(m, os); }

struct PM { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB;
  static PipelineTuningOptions tune() { PipelineTuningOptions t; t.LoopVectorization = false; t.SLPVectorization = false; t.LoopUnrolling = false; t.LoopInterleaving = false; t.MergeFunctions = false; return t; }
  PM() : PB(nullptr, tune()) { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM); } };

static void stripBodies(Module &m) {
  for (auto &F : m) if (!F.isDeclaration()) {
    StringRef n = F.getName(); if (!n.starts_with("_Z")) continue;
    if (!(n.contains("St") || n.contains("gnu_cxx"))) continue;
    if (stripMatch(demangle(n.str()))) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
  }
  // out-of-line template instantiations known only as available_externally: make them real
  for (auto &F : m) if (F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::LinkOnceODRLinkage);
  for (auto &G : m.globals()) if (G.hasAvailableExternallyLinkage()) G.setLinkage(GlobalValue::LinkOnceODRLinkage);
}
#include <llvm/Support/CommandLine.h>
static int doOpt(int argc, char **argv) {
  { const char *o[] = {"symx", "-replexitval=never"}; llvm::cl::ParseCommandLineOptions(2, o); } // keep counting loops as loops (no closed forms with divisions)
  LLVMContext c; auto m = load(c, argv[0]); stripBodies(*m);
  { PM p; auto mpm = p.PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); mpm.run(*m, p.MAM); }
  save(*m, argv[1]); return 0;
}
static int doLink(int argc, char **argv) { // out entries(comma) in...
  LLVMContext c; auto m = std::make_unique<Module>("sx", c); Linker L(*m); std::set<string> ent; { string s = argv[1], k; for (char ch : s + ",") if (ch == ',') { if (!k.empty()) ent.insert(k); k.clear(); } else k += ch; }
  for (int i = 2; i < argc; i++) { auto x = load(c, argv[i]); if (m->getDataLayoutStr().empty()) { m->setDataLayout(x->getDataLayout()); m->setTargetTriple(x->getTargetTriple()); }
    // definitions in later modules win over weak ones; real duplicates (e.g. main) would be an error
    if (L.linkInModule(std::move(x))) { fprintf(stderr, "symx: link failed on %s\n", argv[i]); return 2; } }
  for (auto &e : ent) if (!m->getFunction(e) || m->getFunction(e)->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", e.c_str()); return 2; }
  PM p; ModulePassManager mpm; mpm.addPass(InternalizePass([&](const GlobalValue &g) { return ent.count(g.getName().str()) > 0; })); mpm.addPass(GlobalDCEPass()); mpm.run(*m, p.MAM);
  save(*m, argv[0]); return 0;
}
static string jesc(const string &s) { string o; for (char c : s) if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c >= 32) o += c; return o; }

static int doRun(int argc, char **argv) {
  string mod = argv[0], outdir; vector<string> entries; int timeout = 600;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--out") outdir = nx(); else if (a == "--entry") entries.push_back(nx()); else if (a == "--procs") optProcs = atoi(nx().c_str()); else if (a == "--timeout") timeout = atoi(nx().c_str());
    else if (a == "--maxinstr") optMaxInstr = strtoull(nx().c_str(), 0, 0); else if (a == "--preempt") optPreempt = atoi(nx().c_str()); else if (a == "--replay") { extern std::vector<uint64_t> g_replay; FILE *f = fopen(nx().c_str(), "r"); char nm[4096], v[65536]; while (f && fscanf(f, "%4095s %65535s", nm, v) == 2) g_replay.push_back(strtoull(v, 0, 10)); if (f) fclose(f); } else if (a == "--memsched") optMemSched = true; else if (a == "--symfmt") optSymFmt = true; else if (a == "--samples") optSamples = atoi(nx().c_str());
    else if (a == "--fpuf") g_fpUF = true; else if (a == "--conclimit") optConcretizeLimit = strtoull(nx().c_str(), 0, 0); else { fprintf(stderr, "symx: option %s\n", a.c_str()); return 2; } }
  LLVMContext c; auto mm = load(c, mod.c_str()); M = mm.get(); DL = &M->getDataLayout();
  size_t shsz = sizeof(Shared) + 300000; sh = (Shared *)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY}; (void)rl;
  int rcAll = 0;
  // one init worker; each entry runs in a fork of it
  int pfd[2]; if (pipe(pfd)) return 2;
  pid_t root = fork();
  if (root == 0) {
    setpgid(0, 0); 
    g_solver.init(); optOut = outdir + "/init.jsonl"; unlink(optOut.c_str());
    cur = newThread(); initGlobals(); sh->active = 1; sh->procs = 1;
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
      vector<std::pair<uint64_t, Function *>> v; if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : arr->operands()) { auto *s = cast<ConstantStruct>(op); if (auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
      uint64_t save = optMaxInstr; optMaxInstr = 400000000;
      for (auto &p : v) { pushCall(infoOf(p.second), {}, -1, 0); runLoop(0); }
      optMaxInstr = save; }
    inInit = false;
    for (auto &en : entries) {
      // reset counters
      string out = outdir + "/" + en + ".jsonl"; unlink(out.c_str()); memset((void *)sh, 0, shsz); sh->active = 1; sh->procs = 1; optOut = out;
      auto t0 = std::chrono::steady_clock::now(); fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) { setpgid(0, 0); extern void resetClock(); resetClock(); Function *f = M->getFunction(en); if (!f) _exit(3); pushCall(infoOf(f), {}, -1, 0); runLoop(0); finishPath("ok", ""); }
      setpgid(p, p); int st = 0; bool tmo = false; auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
      for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (el() > timeout && !tmo) { tmo = true; sh->stop = 2; } if (tmo && el() > timeout + 15) { kill(-p, SIGKILL); waitpid(p, &st, 0); break; } usleep(2000); }
      bool abnormal = !(WIFEXITED(st) && WEXITSTATUS(st) == 0); if (abnormal) sh->err++;
      vector<string> cov; coverageNames(cov);
      string o = "{\"entry\":\"" + en + "\""; auto num = [&](const char *k, uint64_t v) { o += string(",\"") + k + "\":" + std::to_string(v); };
      num("paths", sh->paths); num("ok", sh->ok); num("assume", sh->assume); num("violations", sh->viol); num("errors", sh->err); num("known", sh->known); num("forks", sh->forks); num("queries", sh->queries); num("cache_hits", sh->hits); num("solver_us", sh->solverUs); num("max_query_us", sh->maxqUs); num("instructions", sh->instrs); num("sym_branches", sh->symBranches); num("asserts", sh->asserts); num("assert_queries", sh->assertQueries); num("sched_steps", sh->steps); num("max_path_us", sh->maxPathUs); num("stopped", sh->stop); num("timeout", tmo);
      o += ",\"wall_s\":" + std::to_string(el()); o += ",\"reach\":{"; for (int i = 0; i < sh->nreach; i++) o += string(i ? "," : "") + "\"" + jesc(sh->reachName[i]) + "\":" + std::to_string(sh->reach[i].load()); o += "},\"functions\":["; bool first = true; for (auto &n : cov) { if (n.compare(0, 4, "_ZNS") == 0 && n.compare(0, 5, "_ZNSt") == 0) continue; if (n.compare(0, 4, "_ZSt") == 0 || n.compare(0, 6, "_ZNKSt") == 0 || n.compare(0, 5, "_ZNSt") == 0) continue; o += string(first ? "" : ",") + "\"" + jesc(demangle(n)) + "\""; first = false; } o += "]}\n";
      size_t k = 0; while (k < o.size()) { ssize_t r = write(pfd[1], o.data() + k, o.size() - k); if (r <= 0) break; k += r; }
    }
    _exit(0);
  }
  close(pfd[1]); char buf[65536]; ssize_t r; while ((r = read(pfd[0], buf, sizeof buf)) > 0) { fwrite(buf, 1, r, stdout); fflush(stdout); } 
  int st; waitpid(root, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "symx: init worker failed (status %x)\n", st); rcAll = 3; } else if (sh->err && entries.empty()) rcAll = 3;
  return rcAll;
}
int main(int argc, char **argv) {
  if (argc >= 4 && !strcmp(argv[1], "opt")) return doOpt(argc - 2, argv + 2);
  if (argc >= 5 && !strcmp(argv[1], "link")) return doLink(argc - 2, argv + 2);
  if (argc >= 3 && !strcmp(argv[1], "run")) return doRun(argc - 2, argv + 2);
  fprintf(stderr, "usage: symx opt in out | link out entries in... | run mod.bc --entry f --out dir\n"); return 2;
}
